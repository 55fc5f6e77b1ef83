//@ property P27
//@ sources utUtil/Exception.cpp
//@ libs log4cpp
//@ models std
//@ bounds every driver result (success, failure, any number and value of delivered bytes up to 6) of every system call; every baud rate, size, parity, stop bits and time-outs; histories of three operations; up to three timed runs with arbitrary times before the year 2242
//@ assume the system calls (open, close, read, write, ioctl, tc*attr, cf*, gettimeofday, nanosleep) behave as documented: replaced by stand-ins with arbitrary results that record what they were given
#include "vp.h"
#include <string>
#include <string.h>
#include <stdio.h>
#include <unistd.h>
#include <fcntl.h>
#include <errno.h>
#include <termio.h>
#include <termios.h>
#include <sys/ioctl.h>
#include <time.h>
#include <sys/time.h>
#include <iostream>
#include <sstream>
#include <iomanip>
#include <log4cpp/Category.hh>
#include <boost/utility.hpp>
#include <utUtil/Exception.h>
// ---- the system: one device with any number of descriptors, of which at most one may be open at a time
struct Sys { int fd, opened, closed, fail; termios original, current; bool set, restored; unsigned flushed, breaks; const void* buf; unsigned long size; long result; } sys;
static bool fails(const char* what) { if (!sys.fail) return false; return vp_choice(what, 2) == 1; }
static int vp_open(const char* name, int flags, ...) { vp_assert(std::string(name) == "/dev/x", "the named device is opened"); vp_assert((flags & O_ACCMODE) == O_RDWR, "for reading and writing"); vp_assert((flags & O_NOCTTY) != 0, "not as controlling terminal"); vp_assert(sys.fd < 0, "not opened while it is open"); if (fails("open fails")) return -1; sys.opened++; sys.fd = vp_choice("descriptor", 2) * 7; return sys.fd; }
static int vp_close(int fd) { vp_assert(sys.fd >= 0 && fd == sys.fd, "only the open device is closed"); sys.fd = -1; sys.closed++; return fails("close fails") ? -1 : 0; }
static void valid(int fd) { vp_assert(sys.fd >= 0 && fd == sys.fd, "only the open device is used"); }
static long vp_read(int fd, void* b, unsigned long n) { valid(fd); sys.buf = b; sys.size = n; if (fails("read fails")) return sys.result = -1; long k = vp_choice("bytes", 7); vp_assume(k <= (long)n); for (long i = 0; i < k; i++) ((unsigned char*)b)[i] = 17 + i; return sys.result = k; }
static long vp_write(int fd, const void* b, unsigned long n) { valid(fd); sys.buf = b; sys.size = n; if (fails("write fails")) return sys.result = -1; long k = vp_choice("bytes", 7); vp_assume(k <= (long)n); return sys.result = k; }
static int vp_tcgetattr(int fd, termios* t) { valid(fd); if (fails("tcgetattr fails")) return -1; *t = sys.current; return 0; }
static int vp_tcsetattr(int fd, int, const termios* t) { valid(fd); if (fails("tcsetattr fails")) return -1; sys.current = *t; sys.set = true; return 0; }
static int vp_ioctl(int fd, unsigned long r, ...) { valid(fd); vp_assert(r == FIONREAD, "asks for the bytes waiting"); va_list a; va_start(a, r); int* p = (int*)va_arg(a, char*); va_end(a); if (fails("ioctl fails")) return -1; sys.result = vp_choice("waiting", 3) * 1000; *p = sys.result; return 0; }
static int vp_tcsendbreak(int fd, int) { valid(fd); sys.breaks++; return 0; }
static int vp_tcflush(int fd, int q) { valid(fd); vp_assert(q == TCIOFLUSH, "both directions are flushed"); sys.flushed++; return 0; }
static void vp_cfmakeraw(termios* t) { t->c_iflag &= ~(IGNBRK | BRKINT | PARMRK | ISTRIP | INLCR | IGNCR | ICRNL | IXON); t->c_oflag &= ~OPOST; t->c_lflag &= ~(ECHO | ECHONL | ICANON | ISIG | IEXTEN); t->c_cflag &= ~(CSIZE | PARENB); t->c_cflag |= CS8; t->c_cc[VMIN] = 1; t->c_cc[VTIME] = 0; }
static int vp_cfsetospeed(termios* t, speed_t s) { t->c_cflag = (t->c_cflag & ~CBAUD) | s; t->c_ospeed = s; return 0; }
static int vp_cfsetispeed(termios* t, speed_t s) { t->c_cflag = (t->c_cflag & ~CBAUD) | s; t->c_ispeed = s; return 0; }
static long vp_sec[16], vp_usec[16]; static int vp_ngot; static bool vp_timed;
static int vp_gettimeofday(struct timeval* tv, void*) { int i = vp_ngot++; if (!vp_timed) { vp_sec[i] = vp_u64("sec"); vp_usec[i] = vp_u32("usec"); } vp_assume(vp_sec[i] >= 0 && vp_sec[i] < 8589934592l); vp_assume(vp_usec[i] >= 0 && vp_usec[i] < 1000000); tv->tv_sec = vp_sec[i]; tv->tv_usec = vp_usec[i]; return 0; }
static struct timespec vp_slept; static int vp_nslept;
static int vp_nanosleep(const struct timespec* t, struct timespec*) { vp_slept = *t; vp_nslept++; return 0; }
#define open vp_open
#define close vp_close
#define read vp_read
#define write vp_write
#define ioctl vp_ioctl
#define tcgetattr vp_tcgetattr
#define tcsetattr vp_tcsetattr
#define tcsendbreak vp_tcsendbreak
#define tcflush vp_tcflush
#define cfmakeraw vp_cfmakeraw
#define cfsetospeed vp_cfsetospeed
#define cfsetispeed vp_cfsetispeed
#define gettimeofday vp_gettimeofday
#define nanosleep vp_nanosleep
#include <utUtil/SerialPort.h>
#include <utUtil/SerialPort.cpp>
#undef N
#undef O
#undef E
#include <utUtil/OS.h>
#include <utUtil/OS.cpp>
#include <utUtil/BlockTimer.h>
#include <utUtil/BlockTimer.cpp>
#undef open
#undef close
#undef read
#undef write
#undef ioctl
#undef tcgetattr
#undef tcsetattr
#undef tcsendbreak
#undef tcflush
#undef cfmakeraw
#undef cfsetospeed
#undef cfsetispeed
#undef gettimeofday
#undef nanosleep
using namespace Ubitrack::Util;
static void boot(int fail) { memset(&sys, 0, sizeof(sys)); sys.fd = -1; sys.fail = fail; sys.original.c_iflag = vp_u32("iflag"); sys.original.c_oflag = vp_u32("oflag"); sys.original.c_cflag = vp_u32("cflag"); sys.original.c_lflag = vp_u32("lflag"); sys.original.c_cc[VMIN] = vp_u8("vmin"); sys.original.c_cc[VTIME] = vp_u8("vtime"); sys.current = sys.original; }
static bool same(const termios& a, const termios& b) { return a.c_iflag == b.c_iflag && a.c_oflag == b.c_oflag && a.c_cflag == b.c_cflag && a.c_lflag == b.c_lflag && a.c_cc[VMIN] == b.c_cc[VMIN] && a.c_cc[VTIME] == b.c_cc[VTIME]; }
static const unsigned long rates[6] = {9600, 19200, 38400, 57600, 115200, 230400}; static const speed_t codes[6] = {B9600, B19200, B38400, B57600, B115200, B230400};
VP_CASE(settings) { boot(0); int r = vp_choice("rate", 6), bits = 5 + vp_choice("bits", 4), parity = vp_choice("parity", 3), stop = 1 + vp_choice("stop", 2); int vt = vp_u8("vtime"), vm = vp_u8("vmin"); SerialPort p("/dev/x", rates[r], bits, parity, stop); vp_assert_eq_u64(p.getBaudRate(), rates[r], "the baud rate is known"); p.vp_open(vt, vm); const termios& t = sys.current; vp_assert(sys.set, "the port is configured");
  static const tcflag_t size[4] = {CS5, CS6, CS7, CS8}; vp_assert_eq_u64(t.c_cflag & CSIZE, size[bits - 5], "the number of data bits is as requested"); vp_assert_eq_u64(t.c_cflag & (PARENB | PARODD), parity == 0 ? 0 : parity == 1 ? PARENB | PARODD : PARENB, "the parity is as requested"); vp_assert_eq_u64(t.c_cflag & CSTOPB, stop == 2 ? CSTOPB : 0, "the number of stop bits is as requested"); vp_assert_eq_u64(t.c_cflag & CBAUD, codes[r], "the speed is as requested"); vp_assert_eq_u64(t.c_ospeed, codes[r], "the output speed is as requested"); vp_assert_eq_u64(t.c_ispeed, codes[r], "the input speed is as requested"); vp_assert_eq_u64(t.c_cflag & (CREAD | CLOCAL), CREAD | CLOCAL, "the receiver is on and modem lines are ignored");
  vp_assert_eq_u64(t.c_lflag & (ECHO | ECHONL | ICANON | ISIG | IEXTEN), 0, "input is not interpreted"); vp_assert_eq_u64(t.c_oflag & OPOST, 0, "output is not interpreted"); vp_assert_eq_u64(t.c_iflag & (BRKINT | PARMRK | ISTRIP | INLCR | IGNCR | ICRNL | IXON | IXOFF | IXANY), 0, "bytes arrive unchanged"); vp_assert_eq_u64(t.c_cc[VTIME], vt, "the time-out is as requested"); vp_assert_eq_u64(t.c_cc[VMIN], vm, "the minimal number of bytes is as requested"); }
VP_CASE(unsupported) { boot(0); unsigned long rate = vp_u64("rate"); for (int i = 0; i < 6; i++) vp_assume(rate != rates[i]); SerialPort p("/dev/x", rate); bool thrown = false; try { p.vp_open(); } catch (const Ubitrack::Util::Exception&) { thrown = true; } vp_assert(thrown, "an unsupported speed is refused"); vp_assert(sys.opened == 0, "the device stays closed"); }
VP_CASE(open_faults) { boot(1); { SerialPort p("/dev/x", 9600); bool thrown = false; try { p.vp_open(); } catch (const Ubitrack::Util::Exception&) { thrown = true; } vp_assert(thrown == (sys.fd < 0), "a device that cannot be set up is refused and not left open"); vp_assert(thrown || sys.set, "the port is configured");
    if (thrown) { sys.fail = 0; unsigned char c; bool again = false; try { p.vp_read(&c, 1); } catch (const Ubitrack::Util::Exception&) { again = true; } vp_assert(again, "a port that could not be opened is not read"); p.vp_open(); vp_assert(sys.fd >= 0, "opening can be tried again"); } } vp_assert(sys.fd < 0, "the device is closed in the end"); }
VP_CASE(restore) { boot(0); { SerialPort p("/dev/x", 9600); p.vp_open(); vp_assert(sys.fd >= 0, "the device is open"); p.vp_open(); vp_assert(sys.opened == 1, "an open port is not opened again"); if (vp_choice("explicit", 2)) { p.vp_close(); vp_assert(sys.closed == 1, "close closes the device"); vp_assert(same(sys.current, sys.original), "close restores the settings"); } } vp_assert(sys.closed == 1, "the device is closed exactly once"); vp_assert(same(sys.current, sys.original), "the settings are restored"); }
VP_CASE(never_opened) { boot(0); { SerialPort p("/dev/x", 9600); p.vp_close(); } vp_assert(sys.closed == 0 && !sys.set, "a port that was never opened touches nothing"); }
VP_CASE(bytes) { boot(0); SerialPort p("/dev/x", 9600); p.vp_open(); unsigned char b[8]; memset(b, 0xee, 8); unsigned long n = vp_choice("size", 8), k = p.vp_read(b, n); vp_assert(sys.buf == b && sys.size == n, "reads into the caller's buffer"); vp_assert_eq_u64(k, sys.result, "the number of bytes read is returned"); for (unsigned i = 0; i < 8; i++) vp_assert_eq_u64(b[i], i < k ? 17 + i : 0xee, "exactly the delivered bytes are stored"); k = p.send(b, n); vp_assert(sys.buf == b && sys.size == n, "sends the caller's bytes"); vp_assert_eq_u64(k, sys.result, "the number of bytes sent is returned"); vp_assert_eq_u64(p.bytesOnRead(), sys.result, "the number of bytes waiting is returned"); p.flush(); vp_assert(sys.flushed == 1, "flushes"); p.sendBreak(); vp_assert(sys.breaks == 1, "sends a break"); }
// any history of three operations with any fault: what is refused, what is returned, and no use of a closed device
VP_CASE(history) { boot(1); { SerialPort p("/dev/x", 115200); for (int s = 0; s < 3; s++) { int op = vp_choice("operation", 7); bool was = sys.fd >= 0, thrown = false; unsigned char b[6]; unsigned long k = 0; sys.result = 0; unsigned f = sys.flushed, br = sys.breaks; if (op > 1) sys.fail = 1; else sys.fail = s == 0;
      try { switch (op) { case 0: p.vp_open(); break; case 1: p.vp_close(); break; case 2: k = p.vp_read(b, 6); break; case 3: k = p.send(b, 6); break; case 4: k = p.bytesOnRead(); break; case 5: p.flush(); break; default: p.sendBreak(); } } catch (const Ubitrack::Util::Exception&) { thrown = true; }
      if (op == 0) vp_assert(thrown == (sys.fd < 0), "open opens or refuses"); else if (op == 1) vp_assert(!thrown && sys.fd < 0, "close closes"); else { vp_assert((sys.fd >= 0) == was, "the port stays as it was"); vp_assert(was || thrown, "a closed port refuses"); if (!thrown) { if (op < 5) vp_assert_eq_u64(k, (unsigned long)sys.result, "the driver's result is returned"); vp_assert(sys.result >= 0, "a failure is reported"); vp_assert(sys.flushed == f + (op == 5), "flush flushes"); vp_assert(sys.breaks == br + (op == 6), "break breaks"); } } } sys.fail = 0; } vp_assert(sys.fd < 0, "the device is closed in the end"); vp_assert(sys.opened == sys.closed, "the device is closed as often as it was opened"); }
// ---- time
VP_CASE(counter) { vp_ngot = 0; long long c = getHighPerformanceCounter(); vp_assert_eq_u64(c, (unsigned long long)vp_sec[0] * 1000000ull + vp_usec[0], "the counter counts microseconds"); vp_assert(getHighPerformanceFrequency() == 1000000.0, "the frequency belongs to the counter"); }
// milliseconds given as seconds and rest, so that the division is by cases
static void sleeping(unsigned q, unsigned r, unsigned ns) { vp_nslept = 0; vp_assume(r < 1000); vp_assume(q <= 4294966); Ubitrack::Util::sleep(q * 1000 + r, ns); vp_assert(vp_nslept == 1, "sleeps once"); vp_assert(vp_slept.tv_nsec >= 0 && vp_slept.tv_nsec < 1000000000l, "the system accepts the time"); vp_assert_eq_u64((uint64_t)vp_slept.tv_sec * 1000000000ull + vp_slept.tv_nsec, (uint64_t)q * 1000000000ull + r * 1000000ull + ns, "the requested time is slept"); }
VP_CASE(sleep_ms) { static const unsigned s[6] = {0, 1, 2, 59, 3600, 4294966}; uint32_t q = s[vp_choice("s", 6)], r = vp_u32("ms"); sleeping(q, r, 0); }
VP_CASE(sleep_ns) { static const unsigned m[5] = {0, 1, 999, 1000, 123456}; unsigned k = m[vp_choice("ms", 5)]; uint32_t ns = vp_u32("ns"); sleeping(k / 1000, k % 1000, ns); }
VP_CASE(sleep_both) { uint32_t r = vp_u32("ms"), ns = vp_u32("ns"); vp_assume(ns < 1000000u); sleeping(3, r, ns); }
static void timer(int n) { vp_ngot = 0; BlockTimer t("t"); unsigned long long sum = 0; vp_assert_eq_u64(t.getStartTime(), (unsigned long long)vp_sec[0] * 1000000ull + vp_usec[0], "the start time is kept"); for (int i = 0; i < n; i++) { int k = vp_ngot; { BlockTimer::Time m(t, "f", 3); } long long d = (vp_sec[k + 1] * 1000000l + vp_usec[k + 1]) - (vp_sec[k] * 1000000l + vp_usec[k]); vp_assume(d >= 0); sum += d; }
  double total = (double)sum / 1000; vp_assert_eq_u64(t.getRuns(), n, "every run is counted"); vp_assert_eq(t.getTotalTime(), total, "the total is the time of all runs in milliseconds"); if (n) vp_assert_eq(t.getAvgTime(), total / n, "the average is the total over the runs"); }
VP_CASE(timer_0) { timer(0); }
VP_CASE(timer_1) { timer(1); }
VP_CASE(timer_2) { timer(2); }
VP_CASE(timer_3) { timer(3); }
VP_CASE(timer_add) { BlockTimer t("name"); uint64_t a = vp_u32("a"), b = vp_u32("b"); t.addMeasurement(a); t.addMeasurement(b); vp_assert_eq_u64(t.getRuns(), 2, "every run is counted"); vp_assert_eq(t.getTotalTime(), (double)(a + b) / 1000, "the total is the sum"); vp_assert(t.getName() == "name", "the name is kept"); }
VP_CASE(timer_logger) { vp_ngot = 0; static char cat[4096]; static long store[(sizeof(BlockTimer) + 8) / 8]; BlockTimer& t = *new (store) BlockTimer("name", *(log4cpp::Category*)(void*)cat); vp_assert_eq_u64(t.getRuns(), 0, "nothing was measured yet"); vp_assert(t.getTotalTime() == 0, "nothing was measured yet"); vp_assert(!t.initialized(), "no code location yet"); uint64_t a = vp_u32("a"); t.addMeasurement(a); vp_assert_eq_u64(t.getRuns(), 1, "every run is counted"); vp_assert_eq(t.getTotalTime(), (double)a / 1000, "the total is the sum"); vp_assert_eq_u64(t.getStartTime(), (unsigned long long)vp_sec[0] * 1000000ull + vp_usec[0], "the start time is kept"); }   // never destroyed: it would log
VP_CASE(exception) { unsigned line = vp_u32("line"); bool ok = false; try { throw Ubitrack::Util::Exception("message", line, "file.cpp"); } catch (const Ubitrack::Util::Exception& e) { ok = e.line() == line && e.file() == "file.cpp"; } vp_assert(ok, "an exception keeps file and line"); Ubitrack::Util::Exception e("x"); vp_assert(e.line() == 0 && e.file().empty(), "file and line are optional"); }

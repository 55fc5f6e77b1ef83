//@ property P29
//@ sources utMath/Quaternion.cpp utMath/Pose.cpp utUtil/Exception.cpp
//@ libs log4cpp
//@ models std
//@ bounds directories of up to three entries with names from a list of eight and every kind (file, directory, vanished); calibration files cut off or damaged at every element, every value
//@ assume file system, regular expressions, file streams and Boost archives (library code) are replaced by stand-ins with their documented behaviour and arbitrary contents and failures
#include "hmath.h"
#include <string>
#include <list>
#include <fstream>
#include <sstream>
#include <iostream>
#include <stdexcept>
#include <log4cpp/Category.hh>
#include <boost/serialization/serialization.hpp>
#include <boost/serialization/nvp.hpp>
#include <boost/serialization/collection_size_type.hpp>
#include <boost/serialization/item_version_type.hpp>
#include <boost/serialization/library_version_type.hpp>
#include <boost/type_traits/is_arithmetic.hpp>
#include <utUtil/Exception.h>
// ---- file system: one root "d" which is a directory with entries, a file, or missing
struct Entry { const char* name; int kind; };   // 0 file, 1 directory, 2 vanished
static Entry ent[4]; static int nent, root;     // root: 0 file, 1 directory, 2 missing
#define BOOST_FILESYSTEM_FILESYSTEM_HPP
#define BOOST_FILESYSTEM_VERSION 3
#define BOOST_RE_REGEX_HPP
namespace boost { namespace filesystem {
struct path { std::string s; path() {} path(const std::string& x) : s(x) {} path(const char* x) : s(x) {} std::string string() const { return s; } const std::string& native() const { return s; } const char* c_str() const { return s.c_str(); } bool empty() const { return s.empty(); }
  path filename() const { std::size_t p = s.rfind('/'); return p == std::string::npos ? path(s) : path(s.substr(p + 1)); } path leaf() const { return filename(); } path extension() const { std::string f = filename().s; std::size_t p = f.rfind('.'); return p == std::string::npos ? path() : path(f.substr(p)); } int compare(const path& o) const { return s.compare(o.s); } };
inline bool operator<(const path& a, const path& b) { return a.s < b.s; } inline bool operator==(const path& a, const path& b) { return a.s == b.s; } inline bool operator!=(const path& a, const path& b) { return a.s != b.s; } inline std::ostream& operator<<(std::ostream& o, const path& p) { return o << p.s; }
static int kindOf(const path& p) { if (p.s == "d") return root; for (int i = 0; i < nent; i++) if (p.s == std::string("d/") + ent[i].name) return ent[i].kind; return 2; }
inline bool exists(const path& p) { return kindOf(p) != 2; } inline bool is_directory(const path& p) { return kindOf(p) == 1; } inline bool is_regular_file(const path& p) { return kindOf(p) == 0; }
struct directory_entry { filesystem::path p; const filesystem::path& path() const { return p; } operator const filesystem::path&() const { return p; } };
struct directory_iterator { int i; directory_entry e; void load() { if (i >= 0 && i < nent) e.p = filesystem::path(std::string("d/") + ent[i].name); else i = -1; } directory_iterator() : i(-1) {} directory_iterator(const filesystem::path& p) : i(0) { vp_assert(is_directory(p), "only directories are listed"); load(); }
  directory_iterator& operator++() { i++; load(); return *this; } void operator++(int) { ++*this; } const directory_entry& operator*() const { return e; } const directory_entry* operator->() const { return &e; } bool operator==(const directory_iterator& o) const { return i == o.i; } bool operator!=(const directory_iterator& o) const { return i != o.i; } };
}
struct regex { std::string s; regex(const char* c) : s(c) {} regex(const std::string& c) : s(c) {} };
// literals, '.', escapes, '*', one level of groups with alternatives
static bool rx(const char* p, const char* pe, const char* t) { if (p == pe) return *t == 0;
  if (*p == '(') { const char* q = p; while (*q != ')') q++; const char* a = p + 1; while (true) { const char* b = a; while (*b != '|' && *b != ')') b++; const char* u = t; const char* c = a; while (c < b && *u && (*c == '.' || *c == *u)) { c++; u++; } if (c == b && rx(q + 1, pe, u)) return true; if (*b == ')') return false; a = b + 1; } }
  const char* n = p + 1; char c = *p; bool any = c == '.'; if (c == '\\') { c = p[1]; n = p + 2; } if (n < pe && *n == '*') { while (true) { if (rx(n + 1, pe, t)) return true; if (!*t || !(any || *t == c)) return false; t++; } } return *t && (any || *t == c) && rx(n, pe, t + 1); }
inline bool regex_match(const std::string& t, const regex& r) { return rx(r.s.data(), r.s.data() + r.s.size(), t.c_str()); }
}
// ---- calibration files: named sequences of values, written as text or binary
struct Tok { int k; uint64_t u; double d; }; struct Rec { Tok t[64]; int n, r, bad; bool exists, binary, mode; Rec() : n(0), r(0), bad(-1), exists(false), binary(false), mode(false) {} };
static Rec vp_files[2]; static int vp_denied; static int fileOf(const char* n) { return std::string(n) == "one" ? 0 : std::string(n) == "two" ? 1 : -1; }
struct Damaged : std::exception { const char* what() const throw() { return "damaged"; } };
namespace std { struct vp_ifstream { Rec* f; bool ok; bool bin; vp_ifstream(const char* n, ios::openmode m = ios::in) { int i = fileOf(n); vp_assert(i >= 0, "the named file is read"); f = &vp_files[i]; bin = (m & ios::binary) != 0; ok = f->exists && !vp_denied; f->r = 0; } vp_ifstream(const std::string& n, ios::openmode m = ios::in) : vp_ifstream(n.c_str(), m) {} bool good() const { return ok; } bool is_open() const { return ok; } bool fail() const { return !ok; } bool operator!() const { return !ok; } explicit operator bool() const { return ok; } void close() {} };
struct vp_ofstream { Rec* f; bool ok; bool bin; vp_ofstream(const char* n, ios::openmode m = ios::out) { int i = fileOf(n); vp_assert(i >= 0, "the named file is written"); f = &vp_files[i]; bin = (m & ios::binary) != 0; ok = !vp_denied; if (ok) { if (!(m & ios::app)) f->n = 0; f->exists = true; f->mode = bin; } } vp_ofstream(const std::string& n, ios::openmode m = ios::out) : vp_ofstream(n.c_str(), m) {} bool good() const { return ok; } bool is_open() const { return ok; } bool fail() const { return !ok; } bool operator!() const { return !ok; } explicit operator bool() const { return ok; } void close() {} }; }
#define BOOST_ARCHIVE_TEXT_IARCHIVE_HPP
#define BOOST_ARCHIVE_TEXT_OARCHIVE_HPP
#define BOOST_ARCHIVE_BINARY_IARCHIVE_HPP
#define BOOST_ARCHIVE_BINARY_OARCHIVE_HPP
struct OutAr { typedef boost::mpl::bool_<true> is_saving; typedef boost::mpl::bool_<false> is_loading; Rec* s; OutAr(std::vp_ofstream& f, bool binary) : s(f.f) { vp_assert(f.ok, "only an open file is written"); vp_assert(f.bin == binary || !binary, "binary data is written in binary mode"); s->binary = binary; } unsigned get_library_version() const { return 19; } template <class T> void register_type(T* = 0) {}
  void add(int k, uint64_t u, double d) { Tok t = {k, u, d}; if (s->n < 64) s->t[s->n++] = t; } void prim(double d) { add(3, 0, d); } void prim(float d) { add(3, 0, d); } template <class T> void prim(T v) { add(1, (uint64_t)v, 0); }
  template <class T> void put(const T& t, boost::true_type) { prim(t); } template <class T> void put(const T& t, boost::false_type) { boost::serialization::serialize_adl(*this, const_cast<T&>(t), 0u); }
  template <class T> void put(const boost::serialization::nvp<T>& t, boost::false_type) { *this << t.const_value(); }
  template <class T> OutAr& operator<<(const T& t) { put(t, boost::integral_constant<bool, boost::is_arithmetic<T>::value>()); return *this; } template <class T> OutAr& operator&(const T& t) { return *this << t; } };
struct InAr { typedef boost::mpl::bool_<false> is_saving; typedef boost::mpl::bool_<true> is_loading; Rec* s; InAr(std::vp_ifstream& f, bool binary) : s(f.f) { vp_assert(f.ok, "only an open file is read"); if (s->binary != binary || s->bad == 0) throw Damaged(); if (binary) vp_assert(f.bin, "binary data is read in binary mode"); } boost::serialization::library_version_type get_library_version() const { return boost::serialization::library_version_type(19); } template <class T> void register_type(T* = 0) {} void reset_object_address(const void*, const void*) {}
  Tok next(int k) { if (s->r >= s->n || s->r + 1 == s->bad || s->t[s->r].k != k) throw Damaged(); return s->t[s->r++]; }
  void prim(double& d) { d = next(3).d; } void prim(float& d) { d = (float)next(3).d; } template <class T> void prim(T& v) { v = (T)next(1).u; }
  template <class T> void get(T& t, boost::true_type) { prim(t); } template <class T> void get(T& t, boost::false_type) { boost::serialization::serialize_adl(*this, t, 0u); }
  template <class T> void get(const boost::serialization::nvp<T>& t, boost::false_type) { *this >> t.value(); }
  template <class T> InAr& operator>>(T& t) { get(t, boost::integral_constant<bool, boost::is_arithmetic<T>::value>()); return *this; } template <class T> InAr& operator>>(const boost::serialization::nvp<T>& t) { return *this >> t.value(); } template <class T> InAr& operator&(T& t) { return *this >> t; } template <class T> InAr& operator&(const boost::serialization::nvp<T>& t) { return *this >> t.value(); } };
namespace boost { namespace archive { struct text_oarchive : OutAr { text_oarchive(std::vp_ofstream& f, unsigned = 0) : OutAr(f, false) {} }; struct binary_oarchive : OutAr { binary_oarchive(std::vp_ofstream& f, unsigned = 0) : OutAr(f, true) {} }; struct text_iarchive : InAr { text_iarchive(std::vp_ifstream& f, unsigned = 0) : InAr(f, false) {} }; struct binary_iarchive : InAr { binary_iarchive(std::vp_ifstream& f, unsigned = 0) : InAr(f, true) {} }; } }
#include <utMeasurement/Measurement.h>
#define ifstream vp_ifstream
#define ofstream vp_ofstream
#include <utUtil/CalibFile.h>
#undef ifstream
#undef ofstream
#include <utUtil/GlobFiles.cpp>
using namespace Math; namespace MM = Ubitrack::Measurement; namespace UU = Ubitrack::Util;
typedef Ubitrack::Util::Exception UEx;
// ---- lists of files
const char* NAMES[8] = {"a.jpg", "b.JPG", "d.cal", "e.calx", "cal", "f.BoostBinary", "g.bmp.cal", "hbmp"};
const char* IMAGES[7] = {"x.png", "x.PNG", "x.bmp", "x.BMP", "x.jpg", "x.JPG", "x.gif"}; const char* CALS[3] = {"a.cal", "b.cal", "c.cal"};
static bool ends(const std::string& s, const char* e) { std::string x(e); return s.size() > x.size() && s.substr(s.size() - x.size()) == x; }
static bool wanted(int pattern, const char* n) { std::string s(n); if (pattern == 0) return ends(s, ".jpg") || ends(s, ".JPG") || ends(s, ".png") || ends(s, ".PNG") || ends(s, ".bmp") || ends(s, ".BMP"); if (pattern == 1) return ends(s, ".cal"); if (pattern == 3) return ends(s, ".BoostBinary"); return false; }
static const UU::FilePattern PAT[4] = {UU::PATTERN_OPENCV_IMAGE_FILES, UU::PATTERN_UBITRACK_CALIBRATION_FILES, UU::PATTERN_DIRECTORIES, UU::PATTERN_UBITRACK_BOOST_BINARY};
static void expect(std::list<boost::filesystem::path>& l, bool thrown, int pattern) { int n = 0; for (int i = 0; i < nent; i++) { bool w = ent[i].kind == 0 ? wanted(pattern, ent[i].name) : ent[i].kind == 1 && pattern == 2; if (w) n++; int c = 0; for (std::list<boost::filesystem::path>::iterator it = l.begin(); it != l.end(); ++it) if (it->s == std::string("d/") + ent[i].name) c++; vp_assert(c == (w ? 1 : 0), "exactly the matching entries are listed"); }
  vp_assert((int)l.size() == n, "nothing else is listed"); vp_assert(thrown == (n == 0), "an empty list is refused"); boost::filesystem::path last; for (std::list<boost::filesystem::path>::iterator it = l.begin(); it != l.end(); ++it) { if (it != l.begin()) vp_assert(last < *it, "the list is sorted"); last = *it; } }
static bool glob(int pattern, std::list<boost::filesystem::path>& l) { try { UU::globFiles("d", PAT[pattern], l); } catch (const UEx&) { return true; } return false; }
static void listing(int pattern, int n) { root = 1; nent = n; for (int i = 0; i < n; i++) { ent[i].name = NAMES[vp_choice("name", 8)]; for (int j = 0; j < i; j++) vp_assume(ent[j].name != ent[i].name); ent[i].kind = vp_choice("kind", 3); } std::list<boost::filesystem::path> l; bool t = glob(pattern, l); expect(l, t, pattern); }
VP_CASE(images) { listing(0, 2); }
VP_CASE(calibrations) { listing(1, 2); }
VP_CASE(directories) { listing(2, 2); }
VP_CASE(binaries) { listing(3, 2); }
VP_CASE(empty) { listing(vp_choice("pattern", 4), 0); }
VP_CASE(every_image) { root = 1; nent = 1; ent[0].name = IMAGES[vp_choice("name", 7)]; ent[0].kind = 0; std::list<boost::filesystem::path> l; bool t = glob(0, l); expect(l, t, 0); }
VP_CASE(sorted) { root = 1; nent = 3; for (int i = 0; i < 3; i++) { ent[i].name = CALS[vp_choice("name", 3)]; for (int j = 0; j < i; j++) vp_assume(ent[j].name != ent[i].name); ent[i].kind = 0; } std::list<boost::filesystem::path> l; bool t = glob(1, l); expect(l, t, 1); }
VP_CASE(own_pattern) { root = 1; nent = 2; ent[0].name = "d.cal"; ent[0].kind = vp_choice("kind", 3); ent[1].name = "e.calx"; ent[1].kind = vp_choice("kind", 3); bool dirs = vp_choice("directories", 2); std::list<boost::filesystem::path> l; bool t = false; try { if (dirs) UU::globFiles("d", "e.*", l, true); else UU::globFiles("d", std::string("e.*"), l); } catch (const UEx&) { t = true; }
  bool w0 = ent[0].kind == 1 && dirs, w1 = ent[1].kind == 0 || (ent[1].kind == 1 && dirs); vp_assert(l.size() == (std::size_t)w0 + w1, "files match the pattern, directories are added on request"); vp_assert(t == (!w0 && !w1), "an empty list is refused"); if (w0) vp_assert(l.front().s == "d/d.cal", "directories are added on request"); if (w1) vp_assert(l.back().s == "d/e.calx", "files match the pattern"); }
VP_CASE(root_kinds) { root = vp_choice("root", 2) * 2; nent = 0; int p = vp_choice("pattern", 4); std::list<boost::filesystem::path> l; bool t = glob(p, l); if (root == 0) vp_assert(!t && l.size() == 1 && l.front().s == "d", "a file stands for itself"); else vp_assert(t && l.empty(), "a missing path is refused"); }
// ---- calibration files
static void fresh() { for (int i = 0; i < 2; i++) { vp_files[i].n = vp_files[i].r = 0; vp_files[i].bad = -1; vp_files[i].exists = vp_files[i].binary = false; } vp_denied = 0; }
static Vector<double, 3> v3() { return Vector<double, 3>(vp_real("x"), vp_real("y"), vp_real("z")); }
static bool same(const Vector<double, 3>& a, const Vector<double, 3>& b) { return a(0) == b(0) && a(1) == b(1) && a(2) == b(2); }
static Pose ps() { double q[4]; vp_unit(q, 4, "q"); return Pose(Quaternion(q[0], q[1], q[2], q[3]), v3()); }
static bool same(const Pose& a, const Pose& b) { return same(a.translation(), b.translation()) && a.rotation().x() == b.rotation().x() && a.rotation().y() == b.rotation().y() && a.rotation().z() == b.rotation().z() && a.rotation().w() == b.rotation().w(); }
template <class T> static void writeF(bool bin, const char* n, const T& v) { if (bin) UU::writeBinaryCalibFile(n, v); else UU::writeCalibFile(n, v); }
template <class T> static void readF(bool bin, const char* n, T& v) { if (bin) UU::readBinaryCalibFile(n, v); else UU::readCalibFile(n, v); }
template <class T> static void keeps(bool bin, const T& a, const T& b) { fresh(); T r, s; writeF(bin, "one", a); writeF(bin, "two", b); readF(bin, "one", r); readF(bin, "two", s); vp_assert(same(r, a), "a file gives back what was written"); vp_assert(same(s, b), "a file gives back what was written"); writeF(bin, "one", b); readF(bin, "one", r); vp_assert(same(r, b), "writing replaces the file"); vp_assert_eq_u64(vp_files[0].n, vp_files[1].n, "writing replaces the file"); vp_assert(vp_files[0].mode == bin || !bin, "binary files are opened in binary mode"); }
VP_CASE(vector_text) { keeps(false, v3(), v3()); }
VP_CASE(vector_binary) { keeps(true, v3(), v3()); }
VP_CASE(pose_text) { keeps(false, ps(), ps()); }
VP_CASE(pose_binary) { keeps(true, ps(), ps()); }
VP_CASE(measurement) { fresh(); uint64_t t = vp_u64("t"); Pose p = ps(); MM::Pose m(t, p), r; UU::writeCalibFile("one", m); UU::readCalibFile("one", r); vp_assert(r.get() != 0, "the measurement has a value"); vp_assert_eq_u64(r.time(), t, "the time stamp is kept"); vp_assert(same(*r, p), "the value is kept"); Pose d; UU::readCalibFileDropMeasurement("one", d); vp_assert(same(d, p), "the value is read without its time stamp"); }
template <class F> static int attempt(F f) { try { f(); } catch (const UEx&) { return 1; } catch (const std::exception&) { return 2; } return 0; }
struct RV { bool bin; void operator()() const { Vector<double, 3> v; readF(bin, "one", v); } }; struct RM { void operator()() const { MM::Position m; UU::readCalibFile("one", m); } }; struct RD { void operator()() const { Vector<double, 3> v; UU::readCalibFileDropMeasurement("one", v); } }; struct WV { bool bin; Vector<double, 3> v; void operator()() const { writeF(bin, "one", v); } };
static int reading(int way) { RV a = {false}, b = {true}; return way == 0 ? attempt(a) : way == 1 ? attempt(b) : way == 2 ? attempt(RM()) : attempt(RD()); }
static void store(int way) { Vector<double, 3> v = v3(); uint64_t t = vp_u64("t"); if (way < 2) writeF(way == 1, "one", v); else UU::writeCalibFile("one", MM::Position(t, v)); }
VP_CASE(missing) { fresh(); int w = vp_choice("reader", 4); if (vp_choice("denied", 2)) { store(w); vp_denied = 1; } vp_assert(reading(w) == 1, "a file that cannot be opened is refused"); }
VP_CASE(unwritable) { fresh(); vp_denied = 1; WV w = {vp_choice("binary", 2) == 1, v3()}; vp_assert(attempt(w) == 1, "a file that cannot be written is refused"); vp_assert(!vp_files[0].exists, "nothing is written"); }
VP_CASE(damaged) { fresh(); int w = vp_choice("reader", 4); store(w); int n = vp_files[0].n, at = vp_choice("at", 6); vp_assume(at <= n); vp_files[0].bad = at; vp_assert(reading(w) == 1, "a damaged file is refused with an exception of the library"); vp_files[0].bad = -1; vp_assert(reading(w) == 0, "an intact file is read"); }
VP_CASE(cut_off) { fresh(); int w = vp_choice("reader", 4); store(w); int n = vp_choice("length", 5); vp_assume(n < vp_files[0].n); vp_files[0].n = n; vp_assert(reading(w) == 1, "a file that is cut off is refused with an exception of the library"); }
VP_CASE(wrong_format) { fresh(); int w = vp_choice("reader", 4); store(w); vp_files[0].binary = !vp_files[0].binary; vp_assert(reading(w) == 1, "a file of the other format is refused with an exception of the library"); }

H = '#include <cstdio>\n#include <cmath>\n#include <vector>\n#include <algorithm>\n'
S.append(dict(id='b25_sign_mixed', property='P25', edits=[('src/utAlgorithm/OnlineRotHec.cpp', 'kalmanMeasurement.value( 1 ) = r.y() * nr - q.y() * nq;', 'kalmanMeasurement.value( 1 ) = ( r.y() - q.y() ) * nr;')],
 needs='a movement whose two quaternions have scalar parts of different sign', breaks='the measured difference of the axes mixes the two signs',
 demo=H + '''#include <utAlgorithm/OnlineRotHec.h>
using namespace Ubitrack; using Math::Quaternion;
int main() { Quaternion x(0.1, -0.2, 0.3, 0.9); x.normalize(); for (int flip = 0; flip < 2; flip++) { Algorithm::OnlineRotHec h; for (int i = 0; i < 60; i++) { double t = 0.3 + 0.02 * i; Quaternion b(sin(t) * sin(i), sin(t) * cos(i), sin(t) * 0.5 * sin(3 * i), cos(t)); b.normalize(); Quaternion a = x * b * ~x; if (flip && i % 2) a = Quaternion(-a.x(), -a.y(), -a.z(), -a.w()); h.addMeasurement(a, b); }
  Quaternion r = h.computeResult(); double d = fabs(r.x() * x.x() + r.y() * x.y() + r.z() * x.z() + r.w() * x.w()); if (!(d > 1 - 1e-6)) { printf("flip %d: |<r,x>| = %.9f\\n", flip, d); return 1; } } return 0; }
'''))
S.append(dict(id='b26_half_circle', property='P26', edits=[('src/utMath/Random/Rotation.h', 'const T piz2 = 2 * z * M_PI;', 'const T piz2 = z * M_PI;')],
 needs='looking at the range of the z component of many random rotations', breaks='random rotations never have a negative z component, so half of all rotations are never drawn as intended',
 demo=H + '''#include <utMath/Random/Rotation.h>
using namespace Ubitrack::Math;
int main() { Random::Quaternion<double>::Uniform u; int neg = 0, pos = 0; for (int i = 0; i < 2000; i++) { Quaternion q = u(); (q.z() < 0 ? neg : pos)++; } if (neg < 500 || pos < 500) { printf("%d negative, %d positive\\n", neg, pos); return 1; } return 0; }
'''))
S.append(dict(id='b27_restore_settings', property='P27', edits=[('src/utUtil/SerialPort.cpp', 'if ( tcsetattr( m_fileDescriptor, TCSANOW, &m_termiosOriginal ) < 0 )', 'if ( tcsetattr( m_fileDescriptor, TCSANOW, &m_termiosCurrent ) < 0 )')],
 needs='looking at the settings of the device after the port was closed', breaks='closing leaves the device in raw mode',
 demo=H + '''#include <stdlib.h>
#include <fcntl.h>
#include <unistd.h>
#include <termios.h>
#include <string>
#include <utUtil/SerialPort.h>
int main() { int m = posix_openpt(O_RDWR | O_NOCTTY); if (m < 0 || grantpt(m) || unlockpt(m)) { printf("no pseudo terminal\\n"); return 0; } std::string name = ptsname(m); int s = ::open(name.c_str(), O_RDWR | O_NOCTTY); if (s < 0) return 0; struct termios a, b; if (tcgetattr(s, &a)) return 0;
  { Ubitrack::Util::SerialPort p(name, 9600); p.open(); p.close(); } tcgetattr(s, &b); if (a.c_lflag != b.c_lflag || a.c_iflag != b.c_iflag || a.c_oflag != b.c_oflag) { printf("the settings were not restored\\n"); return 1; } return 0; }
'''))
S.append(dict(id='b28_norms_pile_up', property='P28', edits=[('src/utMath/Stochastic/expectation_maximization.h', '		std::fill( norms.begin(), norms.end(), 0 );', '		std::fill( norms.begin(), norms.begin() + k_cluster, 0 );')],
 needs='more points than distributions and a second iteration', breaks='the densities of earlier iterations pile up for all but the first points, so the responsibilities no longer sum to one',
 demo=H + '''#include <numeric>
#include <iterator>
#include <cassert>
#include <iostream>
#include <utMath/Matrix.h>
#include <utMath/Vector.h>
#include <utMath/Functors/MatrixFunctors.h>
#include <utMath/Stochastic/Gaussian.h>
#include <utMath/Stochastic/Weighted.h>
#include <utMath/Stochastic/expectation_maximization.h>
using namespace Ubitrack::Math;
int main() { std::vector<Vector<double, 2> > p; for (int i = 0; i < 40; i++) p.push_back(Vector<double, 2>((i % 2 ? 4 : 0) + sin(i * 1.7), cos(i * 2.3) + 0.1 * (i % 5))); std::vector<Stochastic::Weighted<Stochastic::Gaussian<double, 2>, double> > w(2);
  for (int k = 0; k < 2; k++) { w[k].weight = 0.5; w[k].mean[0] = 1.5 + k; w[k].mean[1] = 0; w[k].covariance[0] = w[k].covariance[3] = 1; w[k].covariance[1] = w[k].covariance[2] = 0; } Stochastic::expectation_maximization(p.begin(), p.end(), w.begin(), w.end());
  double s = w[0].weight + w[1].weight; if (!(fabs(s - 1) < 1e-6)) { printf("the weights sum to %g\\n", s); return 1; } return 0; }
'''))

//@ property P19
//@ sources utMath/Quaternion.cpp utMath/Pose.cpp utMath/ErrorPose.cpp
//@ models std
//@ bounds lists of 0 to 3 elements; dynamic vectors of 0 to 3 elements; matrices 2x3, 3x2, 3x4 and square up to 6x6; arrays with up to two elements too few or too many
//@ assume the byte encoding inside msgpack and the Boost archives (library code) is replaced by a recorder that keeps the sequence of values handed over and hands the same sequence back
#include "hmath.h"
#include <string.h>
#include <deque>
#include <msgpack.hpp>
// The recorder: a msgpack stream and a Boost archive which keep every value as it is given to them.
struct Tok { int k; uint64_t u; double d; }; // 0 nil, 1 unsigned, 2 signed, 3 double, 4 array of u elements, 5 float
struct Rec { Tok t[128]; int n, r; Rec() : n(0), r(0) {} void put(int k, uint64_t u, double d) { if (n < 128) { t[n].k = k; t[n].u = u; t[n].d = d; n++; } } void write(const char*, size_t) {} };
namespace msgpack { MSGPACK_API_VERSION_NAMESPACE(v1) {
template <> class packer<Rec> { Rec* s; public: packer(Rec* p) : s(p) {} packer(Rec& p) : s(&p) {} typedef packer<Rec>& R;
  template <class T> R pack(const T& v) { msgpack::operator<<(*this, v); return *this; }
  R pack_array(uint32_t n) { s->put(4, n, 0); return *this; } R pack_nil() { s->put(0, 0, 0); return *this; } R pack_double(double d) { s->put(3, 0, d); return *this; } R pack_float(float d) { s->put(5, 0, d); return *this; }
#define VU(f, T) R f(T v) { s->put(1, v, 0); return *this; }
#define VS(f, T) R f(T v) { s->put(2, (uint64_t)(int64_t)v, 0); return *this; }
  VU(pack_unsigned_char, unsigned char) VU(pack_unsigned_short, unsigned short) VU(pack_unsigned_int, unsigned) VU(pack_unsigned_long, unsigned long) VU(pack_unsigned_long_long, unsigned long long) VU(pack_uint8, uint8_t) VU(pack_uint16, uint16_t) VU(pack_uint32, uint32_t) VU(pack_uint64, uint64_t)
  VS(pack_signed_char, signed char) VS(pack_char, char) VS(pack_short, short) VS(pack_int, int) VS(pack_long, long) VS(pack_long_long, long long) VS(pack_int8, int8_t) VS(pack_int16, int16_t) VS(pack_int32, int32_t) VS(pack_int64, int64_t) };
} }
#include <utSerialization/MsgpackSerializer.h>
#include <utSerialization/BaseSerializer.h>
#include <boost/mpl/bool.hpp>
#include <boost/type_traits.hpp>
#include <boost/serialization/serialization.hpp>
#include <boost/serialization/nvp.hpp>
#include <boost/serialization/vector.hpp>
#include <boost/serialization/string.hpp>
#include <utSerialization/BoostArchiveSerializer.h>
using namespace Math; namespace MM = Ubitrack::Measurement; namespace US = Ubitrack::Serialization;
struct Unp { Rec* r; msgpack::zone* z; Unp(Rec& a, msgpack::zone& b) : r(&a), z(&b) {}
  msgpack::object get() { msgpack::object o; if (r->r >= r->n) { o.type = msgpack::type::NIL; return o; } Tok t = r->t[r->r++]; switch (t.k) { case 0: o.type = msgpack::type::NIL; break; case 1: o.type = msgpack::type::POSITIVE_INTEGER; o.via.u64 = t.u; break;
      case 2: if ((int64_t)t.u < 0) { o.type = msgpack::type::NEGATIVE_INTEGER; o.via.i64 = (int64_t)t.u; } else { o.type = msgpack::type::POSITIVE_INTEGER; o.via.u64 = t.u; } break;
      case 3: o.type = msgpack::type::FLOAT64; o.via.f64 = t.d; break; case 5: o.type = msgpack::type::FLOAT32; o.via.f64 = t.d; break;
      default: { msgpack::object* p = static_cast<msgpack::object*>(z->allocate_align(sizeof(msgpack::object) * (t.u + 1))); for (uint64_t i = 0; i < t.u; i++) p[i] = get(); o.type = msgpack::type::ARRAY; o.via.array.size = (uint32_t)t.u; o.via.array.ptr = p; } } return o; }
  bool next(msgpack::object_handle& h) { if (r->r >= r->n) return false; h.set(get()); return true; } };
struct OutAr { typedef boost::mpl::bool_<true> is_saving; typedef boost::mpl::bool_<false> is_loading; Rec* s; OutAr(Rec& r) : s(&r) {} unsigned get_library_version() const { return 19; } template <class T> void register_type(T* = 0) {} template <class T> struct Invoke {};
  void prim(double d) { s->put(3, 0, d); } void prim(float d) { s->put(5, 0, d); } template <class T> void prim(T v) { s->put(1, (uint64_t)v, 0); }
  template <class T> void put(const T& t, boost::true_type) { prim(t); } template <class T> void put(const T& t, boost::false_type) { boost::serialization::serialize_adl(*this, const_cast<T&>(t), 0u); }
  void put(const boost::serialization::collection_size_type& t, boost::false_type) { s->put(1, (std::size_t)t, 0); } void put(const boost::serialization::item_version_type& t, boost::false_type) { s->put(1, (unsigned)t, 0); }
  template <class T> void put(const boost::serialization::nvp<T>& t, boost::false_type) { *this << t.const_value(); }
  template <class T> OutAr& operator<<(const T& t) { put(t, boost::integral_constant<bool, boost::is_arithmetic<T>::value>()); return *this; } template <class T> OutAr& operator&(const T& t) { return *this << t; } };
struct InAr { typedef boost::mpl::bool_<false> is_saving; typedef boost::mpl::bool_<true> is_loading; Rec* s; InAr(Rec& r) : s(&r) {} boost::archive::library_version_type get_library_version() const { return boost::archive::library_version_type(19); } template <class T> void register_type(T* = 0) {} void reset_object_address(const void*, const void*) {}
  Tok next() { Tok t = {0, 0, 0}; if (s->r < s->n) t = s->t[s->r++]; return t; }
  void prim(double& d) { d = next().d; } void prim(float& d) { d = (float)next().d; } template <class T> void prim(T& v) { v = (T)next().u; }
  template <class T> void get(T& t, boost::true_type) { prim(t); } template <class T> void get(T& t, boost::false_type) { boost::serialization::serialize_adl(*this, t, 0u); }
  void get(boost::serialization::collection_size_type& t, boost::false_type) { t = boost::serialization::collection_size_type((std::size_t)next().u); } void get(boost::serialization::item_version_type& t, boost::false_type) { t = boost::serialization::item_version_type((unsigned)next().u); }
  template <class T> void get(const boost::serialization::nvp<T>& t, boost::false_type) { *this >> t.value(); }
  template <class T> InAr& operator>>(T& t) { get(t, boost::integral_constant<bool, boost::is_arithmetic<T>::value>()); return *this; } template <class T> InAr& operator>>(const boost::serialization::nvp<T>& t) { return *this >> t.value(); }
  template <class T> InAr& operator&(T& t) { return *this >> t; } template <class T> InAr& operator&(const boost::serialization::nvp<T>& t) { return *this >> t.value(); } };
// four ways there and back
enum { PACK, ZONE, AS, BOOST };
static double D(const char* n) { return vp_bits64(n); }
template <class T> static void throughM(int way, const T& a, T& b) { Rec r;
  msgpack::zone z; if (way == ZONE) { msgpack::object o(a, z); o.convert(b); return; }
  msgpack::packer<Rec> p(r); US::MsgpackArchive::serialize(p, a); Unp u(r, z); if (way == AS) { b = u.get().template as<T>(); } else US::MsgpackArchive::deserialize(u, b); vp_assert_eq_u64(r.r, r.n, "everything written is read"); }
template <class T> static void through(int way, const T& a, T& b) { if (way != BOOST) { throughM(way, a, b); return; } Rec r; OutAr o(r); US::BoostArchive::serialize(o, a); int n = r.n; InAr i(r); US::BoostArchive::deserialize(i, b); vp_assert_eq_u64(r.r, n, "everything written is read"); }
template <std::size_t N> static void inV(Vector<double, N>& v) { for (unsigned i = 0; i < N; i++) v(i) = D("v"); }
template <std::size_t N> static void sameV(const Vector<double, N>& a, const Vector<double, N>& b, const char* l) { for (unsigned i = 0; i < N; i++) vp_assert_same(a(i), b(i), l); }
template <std::size_t M, std::size_t N> static void inM(Matrix<double, M, N>& v) { for (unsigned i = 0; i < M; i++) for (unsigned j = 0; j < N; j++) v(i, j) = D("m"); }
template <std::size_t M, std::size_t N> static void sameM(const Matrix<double, M, N>& a, const Matrix<double, M, N>& b, const char* l) { for (unsigned i = 0; i < M; i++) for (unsigned j = 0; j < N; j++) vp_assert_same(a(i, j), b(i, j), l); }
static Quaternion inQuat() { double x = D("x"), y = D("y"), z = D("z"), w = D("w"); return Quaternion(x, y, z, w); }
static void sameQ(const Quaternion& a, const Quaternion& b, const char* l) { vp_assert_same(a.x(), b.x(), l); vp_assert_same(a.y(), b.y(), l); vp_assert_same(a.z(), b.z(), l); vp_assert_same(a.w(), b.w(), l); }
static V3 in3() { V3 v; inV(v); return v; }
template <std::size_t N> static void vec(int w) { Vector<double, N> a, b; inV(a); for (unsigned i = 0; i < N; i++) b(i) = 7; through(w, a, b); sameV(a, b, "vector"); }
template <std::size_t M, std::size_t N> static void mat(int w) { Matrix<double, M, N> a, b; inM(a); for (unsigned i = 0; i < M; i++) for (unsigned j = 0; j < N; j++) b(i, j) = 7; through(w, a, b); sameM(a, b, "matrix"); }
static void scalars(int w) { Scalar<double> a(D("s")), b(7.); through(w, a, b); vp_assert_same(a.m_value, b.m_value, "scalar"); Scalar<int> c((int)vp_u32("i")), d(7); through(w, c, d); vp_assert_eq_u64((uint32_t)c.m_value, (uint32_t)d.m_value, "integer"); Scalar<unsigned long> e(vp_u64("u")), f(7ul); through(w, e, f); vp_assert_eq_u64(e.m_value, f.m_value, "identifier"); }
static void rotations(int w) { Quaternion a = inQuat(), b; through(w, a, b); sameQ(a, b, "quaternion"); V3 v = in3(); RotationVelocity c(v), d; through(w, c, d); for (int i = 0; i < 3; i++) vp_assert_same(c(i), d(i), "rotation velocity"); }
static void poses(int w) { Pose a(inQuat(), in3()), b; through(w, a, b); sameQ(a.rotation(), b.rotation(), "pose rotation"); sameV(a.translation(), b.translation(), "pose translation"); }
static void errors(int w) { Matrix<double, 6, 6> C; inM(C); ErrorPose a(inQuat(), in3(), C), b; through(w, a, b); sameQ(a.rotation(), b.rotation(), "error pose rotation"); sameV(a.translation(), b.translation(), "error pose translation"); sameM(a.covariance(), b.covariance(), "error pose covariance"); }
template <std::size_t N> static void errvec(int w) { Vector<double, N> v; inV(v); Matrix<double, N, N> c; inM(c); ErrorVector<double, N> a(v, c), b; through(w, a, b); sameV(a.value, b.value, "error vector value"); sameM(a.covariance, b.covariance, "error vector covariance"); }
static void camera(int w) { Matrix<double, 3, 3> m; inM(m); int k = vp_choice("model", 4); Vector<double, 2> r2, t; Vector<double, 3> r3; Vector<double, 4> r4; Vector<double, 6> r6; inV(t); inV(r2); inV(r3); inV(r4); inV(r6); uint64_t x = vp_u64("width"), y = vp_u64("height"); typedef CameraIntrinsics<double> CI; CI a = k == 0 ? CI(m, r2, t, x, y) : k == 1 ? CI(m, r3, t, x, y) : k == 2 ? CI(m, r6, t, x, y) : CI(m, r4, x, y), b; through(w, a, b);
  vp_assert_eq_u64(a.calib_type, b.calib_type, "distortion model"); vp_assert_eq_u64(a.dimension(0), b.dimension(0), "width"); vp_assert_eq_u64(a.dimension(1), b.dimension(1), "height"); sameM(a.matrix, b.matrix, "intrinsic matrix"); vp_assert_eq_u64(a.radial_size, b.radial_size, "number of radial parameters"); sameV(a.radial_params, b.radial_params, "radial parameters"); sameV(a.tangential_params, b.tangential_params, "tangential parameters"); }
static void lists(int w) { int n = vp_choice("n", 4); std::vector<V3> a, b; for (int i = 0; i < n; i++) a.push_back(in3()); through(w, a, b); vp_assert_eq_u64(b.size(), n, "length of a list"); for (int i = 0; i < n; i++) sameV(a[i], b[i], "list element"); std::vector<Pose> c, d; for (int i = 0; i < n; i++) c.push_back(Pose(inQuat(), in3())); through(w, c, d); vp_assert_eq_u64(d.size(), n, "length of a list"); for (int i = 0; i < n; i++) { sameQ(c[i].rotation(), d[i].rotation(), "list element"); sameV(c[i].translation(), d[i].translation(), "list element"); } }
static void measurements(int w) { uint64_t t = vp_u64("t"); MM::Position a(t, in3()), b(7, V3(7, 7, 7)); through(w, a, b); vp_assert_eq_u64(b.time(), t, "time of a measurement"); vp_assert(b.get() != 0, "measurement has a value"); sameV(*a, *b, "value of a measurement"); MM::Pose c(t, Pose(inQuat(), in3())), d(0, Pose()); through(w, c, d); vp_assert_eq_u64(d.time(), t, "time of a measurement"); sameQ(c->rotation(), d->rotation(), "value of a measurement"); sameV(c->translation(), d->translation(), "value of a measurement"); MM::Button e(t, Scalar<int>((int)vp_u32("i"))), f(0, Scalar<int>(7)); through(w, e, f); vp_assert_eq_u64(f.time(), t, "time of a measurement"); vp_assert_eq_u64((uint32_t)e->m_value, (uint32_t)f->m_value, "value of a measurement"); }
static void mlists(int w) { int n = vp_choice("n", 3); uint64_t t = vp_u64("t"); std::vector<V3> l; for (int i = 0; i < n; i++) l.push_back(in3()); MM::PositionList a(t, l), b(0, std::vector<V3>()); through(w, a, b); vp_assert_eq_u64(b.time(), t, "time of a list"); vp_assert_eq_u64(b->size(), n, "length of a list"); for (int i = 0; i < n; i++) sameV(l[i], (*b)[i], "list element"); }
VP_CASE(pack_scalars) { scalars(PACK); }
//@ case pack_scalars mode=ieee
VP_CASE(pack_vectors) { vec<2>(PACK); vec<3>(PACK); vec<4>(PACK); vec<8>(PACK); }
//@ case pack_vectors mode=ieee
VP_CASE(pack_matrices) { mat<3, 3>(PACK); mat<4, 4>(PACK); mat<6, 6>(PACK); }
//@ case pack_matrices mode=ieee
VP_CASE(pack_rectangles) { mat<3, 4>(PACK); mat<2, 3>(PACK); mat<3, 2>(PACK); }
//@ case pack_rectangles mode=ieee
VP_CASE(pack_rotations) { rotations(PACK); }
//@ case pack_rotations mode=ieee
VP_CASE(pack_poses) { poses(PACK); }
//@ case pack_poses mode=ieee
VP_CASE(pack_errors) { errors(PACK); errvec<2>(PACK); errvec<3>(PACK); }
//@ case pack_errors mode=ieee
VP_CASE(pack_camera) { camera(PACK); }
//@ case pack_camera mode=ieee
VP_CASE(pack_lists) { lists(PACK); }
//@ case pack_lists mode=ieee
VP_CASE(pack_measurements) { measurements(PACK); }
//@ case pack_measurements mode=ieee
VP_CASE(pack_mlists) { mlists(PACK); }
//@ case pack_mlists mode=ieee
VP_CASE(zone_scalars) { scalars(ZONE); }
//@ case zone_scalars mode=ieee
VP_CASE(zone_vectors) { vec<2>(ZONE); vec<3>(ZONE); vec<4>(ZONE); vec<8>(ZONE); }
//@ case zone_vectors mode=ieee
VP_CASE(zone_matrices) { mat<3, 3>(ZONE); mat<4, 4>(ZONE); mat<6, 6>(ZONE); }
//@ case zone_matrices mode=ieee
VP_CASE(zone_rectangles) { mat<3, 4>(ZONE); mat<2, 3>(ZONE); mat<3, 2>(ZONE); }
//@ case zone_rectangles mode=ieee
VP_CASE(zone_rotations) { rotations(ZONE); }
//@ case zone_rotations mode=ieee
VP_CASE(zone_poses) { poses(ZONE); }
//@ case zone_poses mode=ieee
VP_CASE(zone_errors) { errors(ZONE); errvec<2>(ZONE); errvec<3>(ZONE); }
//@ case zone_errors mode=ieee
VP_CASE(zone_camera) { camera(ZONE); }
//@ case zone_camera mode=ieee
VP_CASE(zone_lists) { lists(ZONE); }
//@ case zone_lists mode=ieee
VP_CASE(zone_measurements) { measurements(ZONE); }
//@ case zone_measurements mode=ieee
VP_CASE(zone_mlists) { mlists(ZONE); }
//@ case zone_mlists mode=ieee
VP_CASE(as_scalars) { scalars(AS); }
//@ case as_scalars mode=ieee
VP_CASE(as_vectors) { vec<2>(AS); vec<3>(AS); vec<4>(AS); vec<8>(AS); }
//@ case as_vectors mode=ieee
VP_CASE(as_matrices) { mat<3, 3>(AS); mat<4, 4>(AS); mat<6, 6>(AS); }
//@ case as_matrices mode=ieee
VP_CASE(as_rectangles) { mat<3, 4>(AS); mat<2, 3>(AS); mat<3, 2>(AS); }
//@ case as_rectangles mode=ieee
VP_CASE(as_rotations) { rotations(AS); }
//@ case as_rotations mode=ieee
VP_CASE(as_poses) { poses(AS); }
//@ case as_poses mode=ieee
VP_CASE(as_errors) { errors(AS); errvec<2>(AS); errvec<3>(AS); }
//@ case as_errors mode=ieee
VP_CASE(as_camera) { camera(AS); }
//@ case as_camera mode=ieee
VP_CASE(as_lists) { lists(AS); }
//@ case as_lists mode=ieee
VP_CASE(as_measurements) { measurements(AS); }
//@ case as_measurements mode=ieee
VP_CASE(as_mlists) { mlists(AS); }
//@ case as_mlists mode=ieee
VP_CASE(boost_scalars) { scalars(BOOST); }
//@ case boost_scalars mode=ieee
VP_CASE(boost_vectors) { vec<2>(BOOST); vec<3>(BOOST); vec<4>(BOOST); vec<8>(BOOST); }
//@ case boost_vectors mode=ieee
VP_CASE(boost_matrices) { mat<3, 3>(BOOST); mat<4, 4>(BOOST); mat<6, 6>(BOOST); }
//@ case boost_matrices mode=ieee
VP_CASE(boost_rectangles) { mat<3, 4>(BOOST); mat<2, 3>(BOOST); mat<3, 2>(BOOST); }
//@ case boost_rectangles mode=ieee
VP_CASE(boost_rotations) { rotations(BOOST); }
//@ case boost_rotations mode=ieee
VP_CASE(boost_poses) { poses(BOOST); }
//@ case boost_poses mode=ieee
VP_CASE(boost_errors) { errors(BOOST); errvec<2>(BOOST); errvec<3>(BOOST); }
//@ case boost_errors mode=ieee
VP_CASE(boost_camera) { camera(BOOST); }
//@ case boost_camera mode=ieee
VP_CASE(boost_lists) { lists(BOOST); }
//@ case boost_lists mode=ieee
VP_CASE(boost_measurements) { measurements(BOOST); }
//@ case boost_measurements mode=ieee
VP_CASE(boost_mlists) { mlists(BOOST); }
//@ case boost_mlists mode=ieee
VP_CASE(dynamic) { int n = vp_choice("n", 4), w = vp_choice("way", 3); Vector<double> a(n), b; for (int i = 0; i < n; i++) a(i) = D("v"); if (vp_choice("presized", 2)) b = Vector<double>::zeros(2); throughM(w, a, b); vp_assert_eq_u64(b.size(), n, "size of a dynamic vector"); for (int i = 0; i < n; i++) vp_assert_same(a(i), b(i), "dynamic vector"); }
//@ case dynamic mode=ieee
VP_CASE(empty_measurement) { int w = vp_choice("way", 3); uint64_t t = vp_u64("t"); MM::Position a(t), b(7, in3()); through(w, a, b); vp_assert(b.invalid(), "a measurement without value arrives as invalid"); vp_assert(!b.get(), "a measurement without value arrives without"); }
//@ case empty_measurement mode=ieee
template <class T> static void refuse(const msgpack::object& o, bool as, const char* l) { bool thrown = false; T t = T(); try { if (as) t = o.as<T>(); else o.convert(t); } catch (const msgpack::type_error&) { thrown = true; } vp_assert(thrown, l); }
VP_CASE(refused) { msgpack::zone z; int n = vp_choice("n", 6); bool as = vp_choice("as", 2); std::vector<double> v; for (int i = 0; i < n; i++) v.push_back(D("v")); msgpack::object o(v, z); if (n != 3) refuse<V3>(o, as, "wrong number of elements"); if (n != 4) { refuse<Quaternion>(o, as, "wrong number of quaternion elements"); refuse<Matrix<double, 2, 2> >(o, as, "wrong number of matrix elements"); } refuse<Pose>(o, as, "not a pose"); refuse<ErrorPose>(o, as, "not an error pose"); refuse<CameraIntrinsics<double> >(o, as, "not camera intrinsics"); msgpack::object s(1.5, z); refuse<V3>(s, as, "a number is not a vector"); refuse<Matrix<double, 2, 2> >(s, as, "a number is not a matrix"); refuse<Pose>(s, as, "a number is not a pose"); refuse<MM::Pose>(o, as, "not a measurement"); refuse<MM::Position>(o, as, "not a measurement"); }
//@ case refused mode=ieee
VP_CASE(in_sequence) { Rec r; msgpack::packer<Rec> p(r); msgpack::zone z; V3 a = in3(), a2; Quaternion q = inQuat(), q2; Matrix<double, 3, 4> m, m2; inM(m); uint64_t t = vp_u64("t"); MM::Position x(t, a), x2; US::MsgpackArchive::serialize(p, a); US::MsgpackArchive::serialize(p, q); US::MsgpackArchive::serialize(p, m); US::MsgpackArchive::serialize(p, x); Unp u(r, z); US::MsgpackArchive::deserialize(u, a2); US::MsgpackArchive::deserialize(u, q2); US::MsgpackArchive::deserialize(u, m2); US::MsgpackArchive::deserialize(u, x2); sameV(a, a2, "first"); sameQ(q, q2, "second"); sameM(m, m2, "third"); vp_assert_eq_u64(x2.time(), t, "fourth"); sameV(*x2, a, "fourth"); }
//@ case in_sequence mode=ieee

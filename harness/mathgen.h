// Random values of every measurement type and their comparison, element by element.
#pragma once
#include "sim.h"
#include "os.h"
#include <utMeasurement/Measurement.h>
#include <utMath/ErrorVector.h>
#include <utUtil/Exception.h>
#include <math.h>
#include <string.h>
#include <limits>
#include <vector>
namespace mg {
using namespace Ubitrack;
namespace um = Ubitrack::Math;
struct Opt { bool special; Opt() : special(false) {} };      // special: infinities and NaN allowed
inline double real(const Opt& o) {
    switch (sim::wl(o.special ? 9 : 8)) {
    case 0: return 0.0;
    case 1: return (double)sim::range(sim::WL, -5, 5);
    case 2: return sim::uniform(sim::WL, -1, 1) + sim::uniform(sim::WL, 0, 1) * 1e-9;
    case 3: return sim::uniform(sim::WL, -1, 1) * 1e6;
    case 4: { uint64_t b = (uint64_t)sim::wl(0x10000) << 48 | (uint64_t)sim::wl(0x1000000) << 24 | sim::wl(0x1000000); double d; memcpy(&d, &b, 8); if (d != d || d == HUGE_VAL || d == -HUGE_VAL) d = 1.0 / 3; return d; }
    case 5: { static const double e[] = {-0.0, 1.7976931348623157e308, 2.2250738585072014e-308, 4.9406564584124654e-324, 0.1, 1e22, 9007199254740993.0, -1.0 / 3, 4294967296.0, 1.8446744073709552e19, -9.2233720368547758e18}; return e[sim::wl(11)]; }
    case 6: return M_PI * sim::uniform(sim::WL, -4, 4);
    case 7: return sim::gauss(sim::WL);
    default: { static const double e[] = {HUGE_VAL, -HUGE_VAL, NAN}; return e[sim::wl(3)]; }
    }
}
template<class T> struct G;
template<> struct G<um::Scalar<double> > { static um::Scalar<double> gen(const Opt& o) { return real(o); } static void flat(const um::Scalar<double>& v, std::vector<double>& f) { f.push_back(v.m_value); } static const char* name() { return "distance"; } };
template<> struct G<um::Scalar<int> > { static um::Scalar<int> gen(const Opt&) { static const int e[] = {0, 1, -1, 2147483647, -2147483647 - 1, 127, 128, 255, 256, -32, -33, 65536, 65535}; return sim::wl(3) ? e[sim::wl(13)] : (int)sim::wl(0x7fffffff); } static void flat(const um::Scalar<int>& v, std::vector<double>& f) { f.push_back(v.m_value); } static const char* name() { return "button"; } };
template<> struct G<um::Scalar<unsigned long> > { static um::Scalar<unsigned long> gen(const Opt&) { static const unsigned long e[] = {0, 1, 127, 128, 255, 256, 65535, 65536, 0xffffffffUL, 0x100000000UL, 0xffffffffffffffffUL, 0x7fffffffffffffffUL}; return e[sim::wl(12)]; } static void flat(const um::Scalar<unsigned long>& v, std::vector<double>& f) { f.push_back((double)(v.m_value >> 32)); f.push_back((double)(v.m_value & 0xffffffffUL)); } static const char* name() { return "id"; } };
template<std::size_t N> struct G<um::Vector<double, N> > { static um::Vector<double, N> gen(const Opt& o) { um::Vector<double, N> v; for (size_t i = 0; i < N; i++) v(i) = real(o); return v; } static void flat(const um::Vector<double, N>& v, std::vector<double>& f) { for (size_t i = 0; i < N; i++) f.push_back(v(i)); } static const char* name() { return "vector"; } };
template<std::size_t M, std::size_t N> struct G<um::Matrix<double, M, N> > { static um::Matrix<double, M, N> gen(const Opt& o) { um::Matrix<double, M, N> m; for (size_t i = 0; i < M; i++) for (size_t j = 0; j < N; j++) m(i, j) = real(o); return m; } static void flat(const um::Matrix<double, M, N>& m, std::vector<double>& f) { for (size_t i = 0; i < M; i++) for (size_t j = 0; j < N; j++) f.push_back(m(i, j)); } static const char* name() { return M == 3 ? N == 3 ? "matrix3x3" : "matrix3x4" : "matrix"; } };
template<> struct G<um::Quaternion> { static um::Quaternion gen(const Opt& o) { double x = real(o), y = real(o), z = real(o), w = real(o); if (sim::wl(3) == 1) { x = sim::gauss(sim::WL), y = sim::gauss(sim::WL), z = sim::gauss(sim::WL), w = sim::gauss(sim::WL); double n = sqrt(x * x + y * y + z * z + w * w) + 1e-30; if (sim::wl(2)) n *= 1 + sim::wl(4); x /= n; y /= n; z /= n; w /= n; } return um::Quaternion(x, y, z, w); } static void flat(const um::Quaternion& q, std::vector<double>& f) { f.push_back(q.x()); f.push_back(q.y()); f.push_back(q.z()); f.push_back(q.w()); } static const char* name() { return "rotation"; } };
template<> struct G<um::RotationVelocity> { static um::RotationVelocity gen(const Opt& o) { double x = real(o), y = real(o), z = real(o); return um::RotationVelocity(x, y, z); } static void flat(const um::RotationVelocity& v, std::vector<double>& f) { for (int i = 0; i < 3; i++) f.push_back(v(i)); } static const char* name() { return "rotation velocity"; } };
template<> struct G<um::Pose> { static um::Pose gen(const Opt& o) { um::Quaternion q = G<um::Quaternion>::gen(o); return um::Pose(q, G<um::Vector<double, 3> >::gen(o)); } static void flat(const um::Pose& p, std::vector<double>& f) { G<um::Quaternion>::flat(p.rotation(), f); G<um::Vector<double, 3> >::flat(p.translation(), f); } static const char* name() { return "pose"; } };
template<> struct G<um::ErrorPose> { static um::ErrorPose gen(const Opt& o) { um::Pose p = G<um::Pose>::gen(o); return um::ErrorPose(p, G<um::Matrix<double, 6, 6> >::gen(o)); } static void flat(const um::ErrorPose& p, std::vector<double>& f) { G<um::Pose>::flat(p, f); G<um::Matrix<double, 6, 6> >::flat(p.covariance(), f); } static const char* name() { return "error pose"; } };
template<std::size_t N> struct G<um::ErrorVector<double, N> > { static um::ErrorVector<double, N> gen(const Opt& o) { um::Vector<double, N> v = G<um::Vector<double, N> >::gen(o); return um::ErrorVector<double, N>(v, G<um::Matrix<double, N, N> >::gen(o)); } static void flat(const um::ErrorVector<double, N>& p, std::vector<double>& f) { G<um::Vector<double, N> >::flat(p.value, f); G<um::Matrix<double, N, N> >::flat(p.covariance, f); } static const char* name() { return "error position"; } };
template<> struct G<um::CameraIntrinsics<double> > {
    typedef um::CameraIntrinsics<double> C;
    static C gen(const Opt& o) {
        um::Matrix<double, 3, 3> m = G<um::Matrix<double, 3, 3> >::gen(o); um::Vector<double, 2> t = G<um::Vector<double, 2> >::gen(o); size_t w = sim::wl(5000), h = sim::wl(5000);
        switch (sim::wl(5)) { case 0: return C(m, G<um::Vector<double, 2> >::gen(o), t, w, h); case 1: return C(m, G<um::Vector<double, 3> >::gen(o), t, w, h); case 2: return C(m, G<um::Vector<double, 6> >::gen(o), t, w, h); case 3: return C(m, G<um::Vector<double, 4> >::gen(o), w, h); default: return C(); }
    }
    static void flat(const C& c, std::vector<double>& f) { G<um::Matrix<double, 3, 3> >::flat(c.matrix, f); f.push_back(c.dimension(0)); f.push_back(c.dimension(1)); f.push_back(c.calib_type); size_t n = (int)c.calib_type >= 0 && (int)c.calib_type < 5 ? C::radial(c.calib_type) : 0; for (size_t i = 0; i < n; i++) f.push_back(c.radial_params(i)); f.push_back(c.tangential_params(0)); f.push_back(c.tangential_params(1)); }
    static const char* name() { return "camera intrinsics"; }
};
template<class T> struct G<std::vector<T> > { static std::vector<T> gen(const Opt& o) { std::vector<T> v; uint32_t n = sim::wl(6) == 1 ? sim::wl(200) : sim::wl(6); for (uint32_t i = 0; i < n; i++) v.push_back(G<T>::gen(o)); return v; } static void flat(const std::vector<T>& v, std::vector<double>& f) { f.push_back((double)v.size()); for (auto& x : v) G<T>::flat(x, f); } static const char* name() { return "list"; } };
// bits: the same bits; otherwise the same number (any NaN equals any NaN)
template<class T> bool same(const T& a, const T& b, bool bits) {
    sim::Rt r; std::vector<double> x, y; G<T>::flat(a, x); G<T>::flat(b, y); if (x.size() != y.size()) return false;
    for (size_t i = 0; i < x.size(); i++) if (bits ? memcmp(&x[i], &y[i], 8) != 0 : !(x[i] == y[i] || (x[i] != x[i] && y[i] != y[i]))) return false;
    return true;
}
// calls f.template run<T>() for the chosen type
template<class F> void dispatch(int k, F& f) {
    switch (k) {
    default:
    case 0: f.template run<um::Pose>(); break;
    case 1: f.template run<um::Scalar<double> >(); break;
    case 2: f.template run<um::Scalar<int> >(); break;
    case 3: f.template run<um::Vector<double, 2> >(); break;
    case 4: f.template run<um::Vector<double, 3> >(); break;
    case 5: f.template run<um::Vector<double, 4> >(); break;
    case 6: f.template run<um::Vector<double, 8> >(); break;
    case 7: f.template run<um::Quaternion>(); break;
    case 8: f.template run<um::Matrix<double, 3, 3> >(); break;
    case 9: f.template run<um::Matrix<double, 3, 4> >(); break;
    case 10: f.template run<um::Matrix<double, 4, 4> >(); break;
    case 11: f.template run<um::ErrorPose>(); break;
    case 12: f.template run<um::ErrorVector<double, 3> >(); break;
    case 13: f.template run<um::RotationVelocity>(); break;
    case 14: f.template run<um::CameraIntrinsics<double> >(); break;
    case 15: f.template run<std::vector<um::Scalar<unsigned long> > >(); break;
    case 16: f.template run<std::vector<um::Pose> >(); break;
    case 17: f.template run<std::vector<um::Vector<double, 3> > >(); break;
    case 18: f.template run<std::vector<um::ErrorVector<double, 3> > >(); break;
    case 19: f.template run<std::vector<um::Scalar<int> > >(); break;
    }
}
static const int NTYPES = 20;
}

// A catalogue of calibration and estimation jobs: input drawn from the workload, delivered through faults, with the true result.
#pragma once
#include "sim.h"
#include "os.h"
#undef VT1
#include <utMath/Pose.h>
#include <utMath/ErrorPose.h>
#include <utMath/Vector.h>
#include <utMath/Matrix.h>
#include <utMath/Quaternion.h>
#include <utMath/CameraIntrinsics.h>
#include <utMath/Graph/Munkres.h>
#include <utAlgorithm/PoseEstimation3D3D/AbsoluteOrientation.h>
#include <utAlgorithm/PoseEstimation3D3D/Optimization.h>
#include <utAlgorithm/PoseEstimation3D3D/CovarianceEstimation.h>
#include <utAlgorithm/ToolTip/Optimization.h>
#include <utAlgorithm/PoseEstimation2D3D/PlanarPoseEstimation.h>
#include <utAlgorithm/PoseEstimation2D3D/NonPlanarPoseEstimation.h>
#include <utAlgorithm/PoseEstimation6D6D/DualQuaternion.h>
#include <utAlgorithm/PoseEstimation6D6D/TsaiLenz.h>
#include <utAlgorithm/ToolTip/TipCalibration.h>
#include <utAlgorithm/Homography.h>
#include <utAlgorithm/FundamentalMatrix.h>
#include <utAlgorithm/Projection.h>
#include <utAlgorithm/3DPointReconstruction.h>
#include <utAlgorithm/LensDistortion.h>
#include <utAlgorithm/CameraLens/Correction.h>
#include <utAlgorithm/Correlation.h>
#include <utAlgorithm/BundleAdjustment.h>
#include <utAlgorithm/MultipleCameraPoseOptimization.h>
#include <math.h>
#include <string.h>
#include <memory>
#include <algorithm>
namespace cat {
using namespace Ubitrack;
namespace um = Ubitrack::Math;
namespace ua = Ubitrack::Algorithm;
typedef um::Quaternion Q;
typedef um::Vector<double, 3> V3;
typedef um::Vector<double, 2> V2;
typedef um::Matrix<double, 3, 3> M3;
typedef um::Matrix<double, 3, 4> M34;
enum Kind { PLAIN, HOMOGENEOUS, POSE, ROTATION, NOTRUTH };
struct Job { const char* name; std::function<std::vector<double>()> run; std::vector<double> truth; double tol; Kind kind; bool mayfail; size_t n; Job() : name(""), tol(0), kind(PLAIN), mayfail(false), n(0) {} };
// ---- geometry of our own
inline Q axisangle(double x, double y, double z, double a) { double l = sqrt(x * x + y * y + z * z); return Q(x / l * sin(a / 2), y / l * sin(a / 2), z / l * sin(a / 2), cos(a / 2)); }
// drawn numbers are shifted by fixed scattered amounts, so that even the simplest tape gives scattered data
static thread_local unsigned turn = 0;
inline double scatter(uint64_t k) { k += 0x9e3779b97f4a7c15ull * k; k = (k ^ (k >> 30)) * 0xbf58476d1ce4e5b9ull; k = (k ^ (k >> 27)) * 0x94d049bb133111ebull; return (double)((k ^ (k >> 31)) >> 11) / 9007199254740992.0; }
inline double uni(double lo, double hi) { double u = sim::unit(sim::WL) + scatter(++turn); return lo + (hi - lo) * (u - floor(u)); }
inline Q rrot(double lo, double hi) { double z = uni(-1, 1), p = uni(0, 2 * M_PI), r = sqrt(1 - z * z) + 1e-9; return axisangle(r * cos(p), r * sin(p), z, uni(lo, hi)); }
inline Q neg(const Q& q) { return Q(-q.x(), -q.y(), -q.z(), -q.w()); }
inline V3 rvec(double s) { double x = uni(-s, s), y = uni(-s, s), z = uni(-s, s); return V3(x, y, z); }
inline void rot(const Q& q, double R[3][3]) { double x = q.x(), y = q.y(), z = q.z(), w = q.w(); double r[3][3] = {{1 - 2 * (y * y + z * z), 2 * (x * y - z * w), 2 * (x * z + y * w)}, {2 * (x * y + z * w), 1 - 2 * (x * x + z * z), 2 * (y * z - x * w)}, {2 * (x * z - y * w), 2 * (y * z + x * w), 1 - 2 * (x * x + y * y)}}; memcpy(R, r, sizeof r); }
inline V3 app(const Q& q, const V3& t, const V3& p) { double R[3][3]; rot(q, R); V3 r; for (int i = 0; i < 3; i++) r(i) = R[i][0] * p(0) + R[i][1] * p(1) + R[i][2] * p(2) + t(i); return r; }
struct P { Q q; V3 t; um::Pose pose() const { return um::Pose(q, t); } V3 operator()(const V3& p) const { return app(q, t, p); } };
inline Q mul(const Q& a, const Q& b) { return Q(a.w() * b.x() + a.x() * b.w() + a.y() * b.z() - a.z() * b.y(), a.w() * b.y() - a.x() * b.z() + a.y() * b.w() + a.z() * b.x(), a.w() * b.z() + a.x() * b.y() - a.y() * b.x() + a.z() * b.w(), a.w() * b.w() - a.x() * b.x() - a.y() * b.y() - a.z() * b.z()); }
inline P mul(const P& a, const P& b) { P r; r.q = mul(a.q, b.q); r.t = a(b.t); return r; }
inline P inv(const P& a) { P r; r.q = Q(-a.q.x(), -a.q.y(), -a.q.z(), a.q.w()); V3 z(0, 0, 0); V3 m = app(r.q, z, a.t); r.t = V3(-m(0), -m(1), -m(2)); return r; }
inline P rpose(double s) { P p; p.q = rrot(0, 3.1); p.t = rvec(s); return p; }
inline M34 proj(const M3& K, const P& p) { double R[3][3]; rot(p.q, R); M34 m; for (int i = 0; i < 3; i++) for (int j = 0; j < 4; j++) { m(i, j) = 0; for (int k = 0; k < 3; k++) m(i, j) += K(i, k) * (j < 3 ? R[k][j] : p.t(k)); } return m; }
inline V2 image(const M34& m, const V3& p) { double v[3]; for (int i = 0; i < 3; i++) v[i] = m(i, 0) * p(0) + m(i, 1) * p(1) + m(i, 2) * p(2) + m(i, 3); return V2(v[0] / v[2], v[1] / v[2]); }
inline M3 camera(int sign) { M3 K; for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) K(i, j) = 0; K(0, 0) = uni( 300, 800); K(1, 1) = uni( 300, 800); K(0, 2) = sign * 320; K(1, 2) = sign * 240; K(2, 2) = sign; return K; }
// a camera looking at the origin from some distance, along +z (sign 1) or -z (sign -1)
inline P view(int sign, double lo, double hi, double tilt) { P p; p.q = rrot(0, tilt); double a = uni( -0.4, 0.4), b = uni( -0.4, 0.4); p.t = V3(a, b, sign * uni( lo, hi)); return p; }
// sometimes the camera is turned round by exactly (or all but) half a turn: upside down, or looking at the other side
inline void halfturn(P& c, double tilt) { if (sim::wl(5) != 1) return; double a = uni(0, tilt / 2), f = uni(0, 2 * M_PI), g = sim::wl(2) ? sin(a) : cos(a), e = sim::wl(3) == 1 ? pow(10, -2.0 - sim::wl(15)) : 0, l = sqrt(1 - e * e), h = sqrt(1 - g * g); c.q = Q(h * cos(f) * l, h * sin(f) * l, g * l, e); sim::probe("turned round"); }
inline void put(std::vector<double>& v, const V3& p) { for (int i = 0; i < 3; i++) v.push_back(p(i)); }
inline void put(std::vector<double>& v, const Q& q) { v.push_back(q.x()); v.push_back(q.y()); v.push_back(q.z()); v.push_back(q.w()); }
inline void put(std::vector<double>& v, const um::Pose& p) { put(v, p.rotation()); put(v, V3(p.translation())); }
template<class T, size_t A, size_t B> void put(std::vector<double>& v, const um::Matrix<T, A, B>& m) { for (size_t i = 0; i < A; i++) for (size_t j = 0; j < B; j++) v.push_back(m(i, j)); }
inline std::vector<double> flat(const P& p) { std::vector<double> v; put(v, p.q); put(v, p.t); return v; }
// ---- delivery of n observations: which arrive, in which order, how often
inline std::vector<int> deliver(int n, int keep) {
    std::vector<int> v; bool lose = sim::wl(2), dup = sim::wl(2), ord = sim::wl(2); int left = n;
    for (int i = 0; i < n; i++) { if (lose && left > keep && sim::chance(sim::FA, 1, 4)) { left--; sim::fault("message-lost"); continue; } v.push_back(i); if (dup && sim::chance(sim::FA, 1, 6)) { v.push_back(i); sim::fault("message-duplicated"); } }
    if (ord) for (size_t i = 1; i < v.size(); i++) if (sim::chance(sim::FA, 1, 2)) { std::swap(v[i], v[sim::draw(sim::FA, (uint32_t)i + 1)]); sim::fault("messages-reordered"); }
    return v;
}
template<class T> std::vector<T> sel(const std::vector<T>& a, const std::vector<int>& ix) { std::vector<T> r; for (size_t i = 0; i < ix.size(); i++) r.push_back(a[ix[i]]); return r; }
inline std::vector<um::Vector<float, 3> > fl(const std::vector<V3>& v) { std::vector<um::Vector<float, 3> > r; for (auto& p : v) r.push_back(um::Vector<float, 3>((float)p(0), (float)p(1), (float)p(2))); return r; }
inline std::vector<um::Vector<float, 2> > fl(const std::vector<V2>& v) { std::vector<um::Vector<float, 2> > r; for (auto& p : v) r.push_back(um::Vector<float, 2>((float)p(0), (float)p(1))); return r; }
struct Fail {};                                          // the function reported that it found nothing
inline bool spread(const std::vector<V3>& v, double lo) {   // no three quarters of a plane: smallest axis of the point cloud
    double c[3] = {0, 0, 0}, S[3][3] = {{0}}; for (auto& p : v) for (int i = 0; i < 3; i++) c[i] += p(i) / v.size(); for (auto& p : v) for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) S[i][j] += (p(i) - c[i]) * (p(j) - c[j]) / v.size();
    double det = S[0][0] * (S[1][1] * S[2][2] - S[1][2] * S[2][1]) - S[0][1] * (S[1][0] * S[2][2] - S[1][2] * S[2][0]) + S[0][2] * (S[1][0] * S[2][1] - S[1][1] * S[2][0]); return det > lo;
}
inline std::vector<V3> cloud(int n, double s) { std::vector<V3> v; for (int i = 0; i < n; i++) v.push_back(rvec(s)); return v; }
// ---- the jobs
inline Job orientation() {
    Job j; j.name = "absolute orientation"; int n = 5 + sim::wl(20); P p = rpose(5); halfturn(p, 3.1); std::vector<V3> a = cloud(n, 1), b; for (auto& x : a) b.push_back(p(x)); std::vector<int> d = deliver(n, 5); auto A = std::make_shared<std::vector<V3> >(sel(a, d)), B = std::make_shared<std::vector<V3> >(sel(b, d)); if (!spread(*A, 1e-4)) j.tol = 1; j.n = d.size(); j.truth = flat(p); j.kind = POSE; int how = sim::wl(6); if (!j.tol) j.tol = how > 3 ? 5e-3 : how == 2 ? 1e-3 : 1e-7; if (how > 3 && !spread(*A, 2e-3)) j.tol = 1;
    if (how == 0) j.run = [A, B]() { std::vector<double> r; put(r, ua::PoseEstimation3D3D::calculateAbsoluteOrientation(*A, *B)); return r; };
    else if (how == 1) j.run = [A, B]() { um::Pose q; if (!ua::PoseEstimation3D3D::estimatePose6D_3D3D(*B, q, *A)) throw Fail(); std::vector<double> r; put(r, q); return r; };
    else if (how == 2) j.run = [A, B]() { um::Pose q; std::vector<um::Vector<float, 3> > fa = fl(*A), fb = fl(*B); if (!ua::PoseEstimation3D3D::estimatePose6D_3D3D(fb, q, fa)) throw Fail(); std::vector<double> r; put(r, q); return r; };
    else if (how > 3) { j.name = "absolute orientation, refined"; P s = p; s.q = mul(p.q, rrot(0, 0.2)); if (sim::wl(4) == 1) s.q = neg(s.q); V3 dt = rvec(0.3); for (int i = 0; i < 3; i++) s.t(i) += dt(i); um::Pose start = s.pose(); bool flt = how == 5; if (flt) j.tol = std::max(j.tol, 1.5e-2);
        j.run = [A, B, start, flt]() { um::Pose q = start; um::Optimization::OptTerminate crit(200, 1e-12); bool ok; if (flt) { std::vector<um::Vector<float, 3> > fa = fl(*A), fb = fl(*B); ok = ua::PoseEstimation3D3D::estimatePose6D_3D3D(fb, q, fa, crit); } else ok = ua::PoseEstimation3D3D::estimatePose6D_3D3D(*B, q, *A, crit); if (!ok) throw Fail(); std::vector<double> r; put(r, q); return r; }; }
    else { j.name = "rotation from points"; j.kind = ROTATION; j.truth.resize(4); j.run = [A, B]() { Q q; if (!ua::PoseEstimation3D3D::estimateRotation_3D3D(*B, q, *A)) throw Fail(); std::vector<double> r; put(r, q); return r; }; }
    return j;
}
inline Job scale() { Job j; j.name = "scale"; int n = 5 + sim::wl(20); P p = rpose(5); double s = uni( 0.2, 4); std::vector<V3> a = cloud(n, 1), b; for (auto& x : a) { V3 y = p(x); b.push_back(V3(y(0) * s, y(1) * s, y(2) * s)); } std::vector<int> d = deliver(n, 5); auto A = std::make_shared<std::vector<V3> >(sel(a, d)), B = std::make_shared<std::vector<V3> >(sel(b, d)); j.n = d.size(); j.truth.push_back(1 / s); j.tol = 1e-9; j.run = [A, B]() { return std::vector<double>(1, ua::PoseEstimation3D3D::estimateScale_3D3D(*A, *B)); }; return j; }
inline Job tooltip() {
    Job j; j.name = "tool tip"; int n = 6 + sim::wl(15); V3 pm = rvec(0.5), pw = rvec(3); std::vector<um::Pose> v; for (int i = 0; i < n; i++) { P p; p.q = rrot(0.3, 3.1); V3 z(0, 0, 0), m = app(p.q, z, pm); p.t = V3(pw(0) - m(0), pw(1) - m(1), pw(2) - m(2)); if (sim::wl(4) == 1) p.q = neg(p.q); v.push_back(p.pose()); }
    std::vector<int> d = deliver(n, 6); auto A = std::make_shared<std::vector<um::Pose> >(sel(v, d)); j.n = d.size(); put(j.truth, pm); put(j.truth, pw); j.tol = 1e-6; int how = sim::wl(5);
    if (how == 3) { j.name = "tool tip, refined"; j.tol = 1e-5; j.run = [A]() { V3 m, w; if (!ua::ToolTip::estimatePosition3D_6D(w, *A, m, um::Optimization::OptTerminate(20, 1e-6))) throw Fail(); std::vector<double> r; put(r, m); put(r, w); return r; }; }
    else if (how == 4) { j.tol = 2e-3; bool ref = sim::wl(2); j.run = [A, ref]() { um::Vector<float, 3> m, w; if (!(ref ? ua::ToolTip::estimatePosition3D_6D(w, *A, m, um::Optimization::OptTerminate(20, 1e-6)) : ua::ToolTip::estimatePosition3D_6D(w, *A, m))) throw Fail(); std::vector<double> r; put(r, V3(m(0), m(1), m(2))); put(r, V3(w(0), w(1), w(2))); return r; }; }
    else if (how == 0) j.run = [A]() { V3 m, w; ua::ToolTip::tipCalibration(*A, m, w); std::vector<double> r; put(r, m); put(r, w); return r; };
    else if (how == 1) j.run = [A]() { V3 m, w; if (!ua::ToolTip::estimatePosition3D_6D(w, *A, m)) throw Fail(); std::vector<double> r; put(r, m); put(r, w); return r; };
    else { j.truth.push_back(0); j.truth.push_back(0); j.run = [A]() { V3 m, w; if (!ua::ToolTip::estimatePosition3D_6D(w, *A, m)) throw Fail(); std::pair<double, double> e = ua::ToolTip::estimatePosition3DError_6D(w, *A, m); std::vector<double> r; put(r, m); put(r, w); r.push_back(e.first); r.push_back(e.second); return r; }; }
    return j;
}
inline Job handeye() {
    Job j; int how = sim::wl(4), few = how ? 3 : 5, n = few + sim::wl(8); P x = rpose(2), base = rpose(2); x.q = rrot(0, 2.5); std::vector<um::Pose> e, h; 
    for (int i = 0; i < n; i++) { P p = rpose(2); P l = how == 0 ? inv(mul(x, p)) : mul(mul(base, inv(p)), inv(x)); (void)l; P hand = p, eye = how == 0 ? inv(mul(x, p)) : mul(inv(mul(p, x)), base); if (sim::wl(4) == 1) hand.q = neg(hand.q); if (sim::wl(4) == 1) eye.q = neg(eye.q); h.push_back(hand.pose()); e.push_back(eye.pose()); }
    std::vector<int> d = deliver(n, few); auto E = std::make_shared<std::vector<um::Pose> >(sel(e, d)), H = std::make_shared<std::vector<um::Pose> >(sel(h, d)); j.n = d.size(); j.truth = flat(x); j.kind = POSE; j.tol = 1e-5;
    if (how == 0) { j.name = "hand-eye, dual quaternions"; j.mayfail = true; j.run = [E, H]() { um::Pose p; if (!ua::PoseEstimation6D6D::estimatePose6D_6D6D(*E, p, *H)) throw Fail(); std::vector<double> r; put(r, p); return r; }; }
    else if (how == 3) { j.name = "hand-eye, Tsai-Lenz from matrices"; bool all = sim::wl(2); typedef um::Matrix<double, 4, 4> M4; j.run = [E, H, all]() { std::vector<M4> e, h; for (auto& p : *E) e.push_back(M4(p)); for (auto& p : *H) h.push_back(M4(p)); std::vector<double> r; put(r, ua::PoseEstimation6D6D::performHandEyeCalibration(h, e, all)); return r; }; }
    else { j.name = "hand-eye, Tsai-Lenz"; bool all = how == 1; j.run = [E, H, all]() { std::vector<double> r; put(r, ua::PoseEstimation6D6D::performHandEyeCalibration(*H, *E, all)); return r; }; }
    return j;
}
inline std::vector<V2> plane(int n) { std::vector<V2> v; while ((int)v.size() < n) { double x = uni( -1, 1), y = uni( -1, 1); v.push_back(V2(x, y)); } v[0] = V2(-1, -1); v[1] = V2(1, -1); v[2] = V2(1, 1); v[3] = V2(-1, 1); return v; }
inline Job homography() {
    Job j; j.name = "homography"; int n = 4 + sim::wl(20); std::vector<V2> a = plane(n), b; double H[3][3]; for (int i = 0; i < 3; i++) for (int k = 0; k < 3; k++) H[i][k] = (i == k) + uni( -0.25, 0.25); int how = sim::wl(3); if (how == 2) { a.resize(4); n = 4; }
    // the square homography maps the unit square (-0.5..0.5)
    double m = how == 2 ? 0.5 : 1; for (auto& p : a) { double x = p(0) * m, y = p(1) * m, w = H[2][0] * x + H[2][1] * y + H[2][2]; b.push_back(V2((H[0][0] * x + H[0][1] * y + H[0][2]) / w, (H[1][0] * x + H[1][1] * y + H[1][2]) / w)); }
    for (int i = 0; i < 3; i++) for (int k = 0; k < 3; k++) j.truth.push_back(H[i][k]); j.kind = HOMOGENEOUS; j.tol = how == 1 ? 2e-3 : 1e-6;
    if (how == 2) { j.name = "homography of a square"; std::vector<V2> c; c.push_back(b[3]); c.push_back(b[0]); c.push_back(b[1]); c.push_back(b[2]); auto B = std::make_shared<std::vector<V2> >(c); j.n = 4; j.run = [B]() { std::vector<double> r; put(r, ua::squareHomography(*B)); return r; }; return j; }
    std::vector<int> d; if (n > 4) { std::vector<int> dd = deliver(n - 4, 0); for (int i = 0; i < 4; i++) d.push_back(i); for (int i : dd) d.push_back(i + 4); for (size_t i = d.size() - 1; i > 0; i--) if (sim::chance(sim::FA, 1, 2)) std::swap(d[i], d[sim::draw(sim::FA, (uint32_t)i + 1)]); } else for (int i = 0; i < 4; i++) d.push_back(i);
    auto A = std::make_shared<std::vector<V2> >(sel(a, d)), B = std::make_shared<std::vector<V2> >(sel(b, d)); j.n = d.size();
    if (how == 0) j.run = [A, B]() { std::vector<double> r; put(r, ua::homographyDLT(*A, *B)); return r; }; else j.run = [A, B]() { std::vector<double> r; std::vector<um::Vector<float, 2> > fa = fl(*A), fb = fl(*B); put(r, ua::homographyDLT(fa, fb)); return r; };
    return j;
}
inline Job fundamental() {
    Job j; int n = 20 + sim::wl(20); M3 K1 = camera(1), K2 = camera(1); P c1 = view(1, 4, 6, 0.8), c2 = view(1, 4, 6, 0.8); c2.t(0) += c2.t(0) > 0 ? 1 : -1; for (int k = 0; k < 4; k++) { V3 u = inv(c1).t, v = inv(c2).t; if ((u(0) - v(0)) * (u(0) - v(0)) + (u(1) - v(1)) * (u(1) - v(1)) + (u(2) - v(2)) * (u(2) - v(2)) < 2) c2.q = mul(c2.q, axisangle(0, 1, 0.3, 0.5)); } std::vector<V3> x = cloud(n, 1.5); j.mayfail = false; M34 P1 = proj(K1, c1), P2 = proj(K2, c2); std::vector<V2> a, b; for (auto& p : x) { a.push_back(image(P1, p)); b.push_back(image(P2, p)); }
    std::vector<int> d = deliver(n, 16); auto A = std::make_shared<std::vector<V2> >(sel(a, d)), B = std::make_shared<std::vector<V2> >(sel(b, d)); auto T = std::make_shared<std::vector<V2> >(b), S = std::make_shared<std::vector<V2> >(a); j.n = d.size(); bool poses = sim::wl(3) == 1; um::Pose p1 = c1.pose(), p2 = c2.pose();
    // judged by the distance (in pixels) of every point to the epipolar line of its partner
    auto dist = [S, T](const M3& F) { std::vector<double> r; double s = 0; for (int i = 0; i < 9; i++) s += fabs(F(i / 3, i % 3)); for (size_t i = 0; i < S->size(); i++) { double u[3] = {(*S)[i](0), (*S)[i](1), 1}, v[3] = {(*T)[i](0), (*T)[i](1), 1}, l[3]; for (int k = 0; k < 3; k++) l[k] = F(k, 0) * u[0] + F(k, 1) * u[1] + F(k, 2) * u[2]; r.push_back((v[0] * l[0] + v[1] * l[1] + v[2] * l[2]) / sqrt(l[0] * l[0] + l[1] * l[1])); } if (!(s > 0)) r[0] = 1e9; return r; };
    if (sim::wl(4) == 1) {   // the relative pose, up to the length of the translation; cameras look along -z
        M3 k1 = camera(-1), k2 = camera(-1); P d1 = view(-1, 4, 6, 0.8), d2 = view(-1, 4, 6, 0.8); d2.t(0) += d2.t(0) > 0 ? 1 : -1; { P h; h.q = Q(0, 0, 0, 1); halfturn(h, 0.6); if (fabs(h.q.z()) > 0.5) d2.q = mul(h.q, d1.q); } V3 x0 = rvec(0.5); V2 i1 = image(proj(k1, d1), x0), i2 = image(proj(k2, d2), x0); P rel = mul(d2, inv(d1)); double l = sqrt(rel.t(0) * rel.t(0) + rel.t(1) * rel.t(1) + rel.t(2) * rel.t(2)); P t = rel; for (int k = 0; k < 3; k++) t.t(k) /= l; j.truth = flat(t); j.kind = POSE; j.tol = 1e-5; j.name = "camera pose from fundamental matrix"; um::Pose p1 = d1.pose(), p2 = d2.pose();
        j.run = [p1, p2, k1, k2, i1, i2]() { std::vector<double> r; put(r, ua::poseFromFundamentalMatrix(ua::fundamentalMatrixFromPoses(p1, p2, k1, k2), i1, i2, k1, k2)); return r; }; return j; }
    j.truth.assign(a.size(), 0); j.tol = 1e-2; j.name = poses ? "fundamental matrix from poses" : "fundamental matrix"; if (poses) j.run = [p1, p2, K1, K2, dist]() { return dist(ua::fundamentalMatrixFromPoses(p1, p2, K1, K2)); }; else j.run = [A, B, dist]() { return dist(ua::getFundamentalMatrix(*A, *B)); };
    return j;
}
inline Job projection() {
    Job j; int n = 15 + sim::wl(15); int sign = sim::wl(2) ? 1 : -1; M3 K = camera(sign); P c = view(sign, 3, 6, 3.1); halfturn(c, 3.1); std::vector<V3> x = cloud(n, 1.2); M34 m = proj(K, c); std::vector<V2> a; for (auto& p : x) a.push_back(image(m, p)); std::vector<int> d = deliver(n, 12); auto A = std::make_shared<std::vector<V3> >(sel(x, d)); auto B = std::make_shared<std::vector<V2> >(sel(a, d)); j.n = d.size(); j.tol = 1e-5;
    if (sim::wl(2)) { j.name = "projection matrix"; put(j.truth, m); j.kind = HOMOGENEOUS; j.run = [A, B]() { std::vector<double> r; put(r, ua::projectionDLT(*A, *B)); return r; }; return j; }
    // the decomposition assumes the bottom-up convention: K(2,2) is -1
    K = camera(-1); c = view(-1, 3, 6, 3.1); halfturn(c, 3.1); m = proj(K, c); j.name = "projection decomposed"; put(j.truth, K); double R[3][3]; rot(c.q, R); for (int i = 0; i < 9; i++) j.truth.push_back(R[i / 3][i % 3]); put(j.truth, c.t); { double f = uni(0.2, 3) * (sim::wl(2) ? 1 : -1); for (int i = 0; i < 12; i++) m(i / 4, i % 4) *= f; } j.run = [m]() { M3 k, r; V3 t; ua::decomposeProjection(k, r, t, m); std::vector<double> v; put(v, k); put(v, r); put(v, t); return v; }; j.tol = 1e-6;
    return j;
}
inline Job pose2d3d() {
    Job j; int how = sim::wl(4), n = 8 + sim::wl(15); j.kind = POSE; int sign = how == 0 ? 1 : -1; M3 K = camera(-1); P c = view(sign, 3, 6, how == 0 ? 3.1 : 0.9); halfturn(c, how == 0 ? 3.1 : 0.9); std::vector<V3> x = cloud(n, 1); if (how == 1 || how == 3) { std::vector<V2> pl = plane(n); x.clear(); for (auto& p : pl) x.push_back(V3(p(0), p(1), 0)); }
    M3 I; for (int i = 0; i < 9; i++) I(i / 3, i % 3) = i % 4 == 0; M34 m = proj(how == 0 ? I : K, c); std::vector<V2> a; for (auto& p : x) a.push_back(image(m, p)); std::vector<int> d; if (how == 1 || how == 3) { for (int i = 0; i < 4; i++) d.push_back(i); std::vector<int> dd = deliver(n - 4, 0); for (int i : dd) d.push_back(i + 4); for (size_t i = d.size() - 1; i > 0; i--) if (sim::chance(sim::FA, 1, 2)) std::swap(d[i], d[sim::draw(sim::FA, (uint32_t)i + 1)]); } else d = deliver(n, 8);
    auto X = std::make_shared<std::vector<V3> >(sel(x, d)); auto B = std::make_shared<std::vector<V2> >(sel(a, d)); j.n = d.size(); j.truth = flat(c);
    if (how == 0) { j.name = "camera pose, orthogonal iteration"; j.tol = 2e-2; j.mayfail = true; j.run = [X, B]() { um::Pose p; size_t it = 200; double e = 1e-9; if (!ua::PoseEstimation2D3D::estimatePose6D_2D3D(*B, p, *X, it, e)) throw Fail(); std::vector<double> r; put(r, p); return r; }; }
    else if (how == 1) { j.name = "camera pose, planar"; j.tol = 1e-4; j.run = [X, B, K]() { std::vector<double> r; double res = -1; put(r, ua::PoseEstimation2D3D::computePose(*B, *X, K, res, true, ua::PoseEstimation2D3D::PLANAR_HOMOGRAPHY)); return r; }; }
    else if (how == 2) { j.name = "camera pose, from projection"; j.tol = 1e-4; j.run = [X, B, K]() { std::vector<double> r; double res = -1; put(r, ua::PoseEstimation2D3D::computePose(*B, *X, K, res, true, ua::PoseEstimation2D3D::NONPLANAR_PROJECTION)); return r; }; }
    else { j.name = "camera pose, refined"; j.tol = 1e-3; P s = c; s.q = mul(c.q, rrot(0, 0.1)); V3 dt = rvec(0.1); for (int i = 0; i < 3; i++) s.t(i) += dt(i); um::Pose start = s.pose(); j.run = [X, B, K, start]() { um::Pose p = start; ua::PoseEstimation2D3D::optimizePose(p, *B, *X, K, 20); std::vector<double> r; put(r, p); return r; }; }
    return j;
}
inline Job poseerror() { Job j; j.name = "camera pose covariance"; j.kind = NOTRUTH; int n = 6 + sim::wl(10); M3 K = camera(-1); P c = view(-1, 3, 6, 0.9); auto X = std::make_shared<std::vector<V3> >(cloud(n, 1)); um::Pose p = c.pose(); j.n = n; j.run = [X, K, p]() { std::vector<double> r; put(r, ua::PoseEstimation2D3D::singleCameraPoseError(p, *X, K, 0.5)); return r; }; return j; }
inline Job points() {
    Job j; int how = sim::wl(3), nc = how == 1 ? 2 + sim::wl(6) : 2; auto Ps = std::make_shared<std::vector<M34> >(); for (int i = 0; i < nc; i++) { M3 K = camera(1); P c = view(1, 4, 6, 0.7); if (i == 0) c.q = axisangle(0, 1, 0, 0.4); if (i == 1) c.q = axisangle(0, 1, 0.2, -0.5); Ps->push_back(proj(K, c)); }
    if (how < 2) { V3 x = rvec(1); auto B = std::make_shared<std::vector<V2> >(); for (auto& m : *Ps) B->push_back(image(m, x)); put(j.truth, x); j.tol = 1e-6; j.n = nc; j.name = how ? "point from many cameras" : "point from two cameras"; std::vector<int> d = deliver(nc, nc); Ps = std::make_shared<std::vector<M34> >(sel(*Ps, d)); B = std::make_shared<std::vector<V2> >(sel(*B, d)); size_t flag = sim::wl(2); if (flag) j.tol = 1e-5; if (how) j.run = [Ps, B, flag]() { std::vector<double> r; put(r, ua::get3DPosition(*Ps, *B, flag)); return r; }; else { std::vector<V2> bb; M34 m1 = (*Ps)[0], m2 = (*Ps)[1]; V2 b1 = (*B)[0], b2 = (*B)[1]; size_t k = 1; while (k < Ps->size() && d[k] == d[0]) k++; if (k < Ps->size()) { m2 = (*Ps)[k]; b2 = (*B)[k]; } j.run = [m1, m2, b1, b2]() { std::vector<double> r; put(r, ua::get3DPosition(m1, m2, b1, b2)); return r; }; } return j; }
    // matching: the second camera sees the points in another order; the result is the set of points, in the order of the first
    M3 K1 = camera(1), K2 = camera(1); P c1 = view(1, 4, 6, 0.1), c2 = view(1, 4, 6, 0.1); c1.q = axisangle(0, 1, 0, 0.4); c2.q = axisangle(0, 1, 0.1, -0.5); M34 P1 = proj(K1, c1), P2 = proj(K2, c2); int n = 2 + sim::wl(6); std::vector<V3> x; for (int i = 0; i < n; i++) x.push_back(V3(uni( -1, 1), -1.2 + 2.4 * i / n + uni( 0, 0.1), uni( -1, 1)));
    auto A = std::make_shared<std::vector<V2> >(), B = std::make_shared<std::vector<V2> >(); std::vector<int> o; int hidden = sim::wl(3); std::vector<char> gone(n, 0); if (hidden) { int left = n; for (int i = 0; i < n; i++) if (left > 1 && sim::chance(sim::FA, 1, 3)) { gone[i] = 1; left--; sim::fault("message-lost"); } }   // one of the two cameras (1: the second, 2: the first) misses some points
    for (int i = 0; i < n; i++) { if (!(hidden == 1 && gone[i])) o.push_back(i); if (!(hidden == 2 && gone[i])) A->push_back(image(P1, x[i])); if (!gone[i]) put(j.truth, x[i]); } for (int i = (int)o.size() - 1; i > 0; i--) { std::swap(o[i], o[sim::draw(sim::FA, i + 1)]); sim::fault("messages-reordered"); } for (int i : o) B->push_back(image(P2, x[i]));
    um::Pose p1 = c1.pose(), p2 = c2.pose(); M3 F = ua::fundamentalMatrixFromPoses(p1, p2, K1, K2); j.name = "points matched between cameras"; j.tol = 1e-5; j.n = n; j.run = [A, B, P1, P2, F]() { std::vector<double> r; std::vector<V3> v = ua::reconstruct3DPoints(*A, *B, P1, P2, F); for (auto& p : v) put(r, p); return r; }; return j;
}
inline Job lens() {
    Job j; int n = 3 + sim::wl(10); std::vector<V2> a; for (int i = 0; i < n; i++) { double x = uni( 60, 580), y = uni( 60, 420); a.push_back(V2(x, y)); } M3 K = camera(sim::wl(2) ? 1 : -1); K(0, 0) = uni( 500, 800); K(1, 1) = uni( 500, 800); auto A = std::make_shared<std::vector<V2> >(a); j.n = n; for (auto& p : a) { j.truth.push_back(p(0)); j.truth.push_back(p(1)); } j.tol = 0.05;
    double k1 = uni( -0.1, 0.1), k2 = uni( -0.02, 0.02), t1 = uni( -0.002, 0.002), t2 = uni( -0.002, 0.002);
    if (sim::wl(2)) { j.name = "lens distortion and back"; um::Vector<double, 4> d(k1, k2, t1, t2); j.run = [A, K, d]() { std::vector<double> r; for (auto& p : *A) { V2 u = ua::lensUnDistort(ua::lensDistort(p, d, K), d, K); r.push_back(u(0)); r.push_back(u(1)); } return r; }; return j; }
    j.name = "camera lens correction and back"; um::Vector<double, 2> rad(k1, k2), tan(t1, t2); um::Vector<double, 3> rad3(k1, k2, k2 / 10); bool three = sim::wl(2); um::CameraIntrinsics<double> c = three ? um::CameraIntrinsics<double>(K, rad3, tan) : um::CameraIntrinsics<double>(K, rad, tan); bool list = sim::wl(2);
    j.run = [A, c, list]() { std::vector<double> r; if (list) { std::vector<V2> d(A->size()), u(A->size()); ua::CameraLens::distort(c, *A, d); ua::CameraLens::undistort(c, d, u); for (auto& p : u) { r.push_back(p(0)); r.push_back(p(1)); } } else for (auto& p : *A) { V2 d, u; ua::CameraLens::distort(c, p, d); ua::CameraLens::undistort(c, d, u); r.push_back(u(0)); r.push_back(u(1)); } return r; }; return j;
}
inline Job correlation() { Job j; j.name = "correlation"; int n = 3 + sim::wl(20); double s = uni( 0.2, 3) * (sim::wl(2) ? 1 : -1), o = uni( -5, 5); auto A = std::make_shared<std::vector<double> >(), B = std::make_shared<std::vector<double> >(); std::vector<double> a; for (int i = 0; i < n; i++) a.push_back(i + uni( 0, 0.5)); std::vector<int> d = deliver(n, 3); for (int i : d) { A->push_back(a[i]); B->push_back(a[i] * s + o); } j.n = d.size(); j.truth.push_back(s > 0 ? 1 : -1); j.tol = 1e-9; j.run = [A, B]() { return std::vector<double>(1, ua::computeCorrelation(*A, *B)); }; return j; }
inline Job bundle() {
    Job j; j.name = "bundle adjustment"; int n = 10 + sim::wl(6), nc = 3; auto X = std::make_shared<std::vector<V3> >(cloud(n, 1)); auto C = std::make_shared<std::vector<um::Pose> >(); auto O = std::make_shared<std::vector<std::vector<V2> > >(); M3 I; for (int i = 0; i < 9; i++) I(i / 3, i % 3) = i % 4 == 0;
    for (int i = 0; i < nc; i++) { P c = view(1, 4, 6, 1); M34 m = proj(I, c); std::vector<V2> o; for (auto& p : *X) o.push_back(image(m, p)); O->push_back(o); P s = c; V3 dt = rvec(0.02); for (int k = 0; k < 3; k++) s.t(k) += dt(k); s.q = mul(c.q, rrot(0, 0.02)); C->push_back(s.pose()); } for (auto& p : *X) { V3 dt = rvec(0.02); for (int k = 0; k < 3; k++) p(k) += dt(k); }
    j.n = n; j.truth.assign(1, 0); j.tol = 3e-3; j.run = [X, C, O]() { std::vector<V3> x = *X; std::vector<um::Pose> c = *C; ua::simpleBundleAdjustment(*O, c, x); std::vector<double> r; for (size_t i = 0; i < c.size(); i++) for (size_t k = 0; k < x.size(); k++) { V3 p = app(c[i].rotation(), V3(c[i].translation()), x[k]); r.push_back(p(0) / p(2) - (*O)[i][k](0)); r.push_back(p(1) / p(2) - (*O)[i][k](1)); } double q = 0; for (double e : r) q += e * e / r.size(); return std::vector<double>(1, sqrt(q)); }; return j;
}
inline Job multicam() {
    Job j; j.name = "pose from many cameras"; int n = 6 + sim::wl(10), nc = 1 + sim::wl(3); std::vector<V2> pl = plane(n); auto X = std::make_shared<std::vector<V3> >(); for (auto& p : pl) X->push_back(V3(p(0), p(1), 0)); P body = rpose(0.2); body.q = rrot(0, 0.5); auto W = std::make_shared<std::vector<std::vector<um::Scalar<double> > > >(); auto O = std::make_shared<std::vector<std::vector<V2> > >(); auto C = std::make_shared<std::vector<um::Pose> >(); auto Ks = std::make_shared<std::vector<M3> >();
    for (int i = 0; i < nc; i++) { M3 K = camera(-1); P c = view(-1, 4, 6, 0.4); M34 m = proj(K, c); std::vector<V2> o; std::vector<um::Scalar<double> > w; for (int k = 0; k < n; k++) { bool seen = !(k >= 4 && sim::chance(sim::FA, 1, 4)); if (!seen) sim::fault("message-lost"); o.push_back(seen ? image(m, body((*X)[k])) : V2(-1e3, 1e5)); w.push_back(um::Scalar<double>(seen ? 1 : 0)); } O->push_back(o); W->push_back(w); C->push_back(c.pose()); Ks->push_back(K); }
    j.n = n; j.truth = flat(body); j.kind = POSE; j.tol = 1e-3; bool init = sim::wl(2); P s = body; s.q = mul(body.q, rrot(0, 0.1)); V3 dt = rvec(0.1); for (int k = 0; k < 3; k++) s.t(k) += dt(k); um::Pose start = s.pose(); j.run = [X, W, O, C, Ks, init, start]() { um::ErrorPose e; um::Scalar<double> w(-1); if (init) ua::multipleCameraPoseEstimation(*X, *O, *W, *C, *Ks, 4, e, w, true, start); else ua::multipleCameraPoseEstimation(*X, *O, *W, *C, *Ks, 4, e, w); if (w.m_value < 0) throw Fail(); std::vector<double> r; put(r, e); return r; }; return j;
}
inline Job bundles() {   // several bodies seen by the same cameras
    Job j; j.name = "poses of several bodies"; int nb = 1 + sim::wl(3), nc = 1 + sim::wl(3); auto X = std::make_shared<std::vector<V3> >(); auto S = std::make_shared<std::vector<um::Scalar<int> > >(); std::vector<P> body; std::vector<int> of; for (int b = 0; b < nb; b++) { int n = 5 + sim::wl(5); std::vector<V2> pl = plane(n); for (auto& p : pl) { X->push_back(V3(p(0), p(1), 0)); of.push_back(b); } P p = rpose(0.5); p.q = rrot(0, 0.5); body.push_back(p); S->push_back(um::Scalar<int>(n)); }
    auto W = std::make_shared<std::vector<std::vector<um::Scalar<double> > > >(); auto O = std::make_shared<std::vector<std::vector<V2> > >(); auto C = std::make_shared<std::vector<um::Pose> >(); auto Ks = std::make_shared<std::vector<M3> >(); int first = 0; std::vector<int> nr; for (size_t k = 0; k < of.size(); k++) { if (k && of[k] != of[k - 1]) first = (int)k; nr.push_back((int)k - first); }
    for (int i = 0; i < nc; i++) { M3 K = camera(-1); P c = view(-1, 4, 6, 0.4); M34 m = proj(K, c); std::vector<V2> o; std::vector<um::Scalar<double> > w; for (size_t k = 0; k < X->size(); k++) { bool seen = !(nr[k] >= 4 && sim::chance(sim::FA, 1, 4)); if (!seen) sim::fault("message-lost"); o.push_back(seen ? image(m, body[of[k]]((*X)[k])) : V2(-1e3, 1e5)); w.push_back(um::Scalar<double>(seen ? 1 : 0)); } O->push_back(o); W->push_back(w); C->push_back(c.pose()); Ks->push_back(K); }
    j.n = X->size(); for (auto& p : body) { double R[3][3]; rot(p.q, R); for (int i = 0; i < 9; i++) j.truth.push_back(R[i / 3][i % 3]); put(j.truth, p.t); } j.tol = 1e-3;
    j.run = [X, W, O, C, Ks, S]() { std::vector<um::ErrorPose> e; std::vector<um::Scalar<double> > w; ua::multipleCameraPoseEstimationWithLocalBundles(*X, *O, *W, *C, *Ks, 4, e, w, *S); std::vector<double> r; for (size_t b = 0; b < e.size(); b++) { if (w[b].m_value < 0) throw Fail(); double R[3][3]; rot(e[b].rotation(), R); for (int i = 0; i < 9; i++) r.push_back(R[i / 3][i % 3]); put(r, V3(e[b].translation())); } return r; }; return j;
}
inline Job matching() {
    Job j; j.name = "assignment"; int a = 1 + sim::wl(6), b = 1 + sim::wl(6); std::vector<std::vector<double> > c(a, std::vector<double>(b)); bool ints = sim::wl(2); for (auto& r : c) for (auto& x : r) x = ints ? (double)sim::wl(6) : uni( 0, 10); int m = std::max(a, b); std::vector<int> p; for (int i = 0; i < m; i++) p.push_back(i); double best = 1e300; do { double s = 0; for (int i = 0; i < a; i++) if (p[i] < b) s += c[i][p[i]]; best = std::min(best, s); } while (std::next_permutation(p.begin(), p.end()));
    auto C = std::make_shared<std::vector<std::vector<double> > >(c); j.n = a; j.truth.push_back(best); j.truth.push_back(std::min(a, b)); j.truth.push_back(0); j.tol = 1e-9; j.run = [C, a, b]() { um::Matrix<double, 0, 0> m(a, b); for (int i = 0; i < a; i++) for (int k = 0; k < b; k++) m(i, k) = (*C)[i][k]; um::Graph::Munkres<double> g(m); g.solve(); std::vector<size_t> r = g.getRowMatchList(), cl = g.getColMatchList(); double s = 0, cnt = 0, bad = 0; std::vector<int> used(b, 0); for (int i = 0; i < a; i++) if (r[i] < (size_t)b) { s += (*C)[i][r[i]]; cnt++; if (used[r[i]]++) bad = 1; if (cl[r[i]] != (size_t)i) bad = 2; } std::vector<double> v; v.push_back(s); v.push_back(cnt); v.push_back(bad); return v; }; return j;
}
typedef Job (*Gen)();
static const Gen gens[] = {orientation, scale, tooltip, handeye, homography, fundamental, projection, pose2d3d, poseerror, points, lens, correlation, bundle, multicam, bundles, matching};
static const int NG = sizeof gens / sizeof *gens;
inline Job draw(int k) { sim::Rt r; turn = 0; return gens[k](); }
// how far a result is from the truth, in units of the tolerance
inline double off(const Job& j, const std::vector<double>& r) {
    if (j.kind == NOTRUTH) return 0; if (r.size() != j.truth.size()) return HUGE_VAL; size_t n = r.size(); double d = 0;
    if (j.kind == HOMOGENEOUS) { double a = 0, b = 0, dot = 0; for (size_t i = 0; i < n; i++) { a += r[i] * r[i]; b += j.truth[i] * j.truth[i]; dot += r[i] * j.truth[i]; } a = sqrt(a); b = sqrt(b); if (!(a > 0)) return HUGE_VAL; double s = dot < 0 ? -1 : 1; for (size_t i = 0; i < n; i++) d = std::max(d, fabs(s * r[i] / a - j.truth[i] / b)); if (d != d) return HUGE_VAL; for (size_t i = 0; i < n; i++) if (r[i] != r[i]) return HUGE_VAL; return d / j.tol; }
    size_t k = j.kind == POSE || j.kind == ROTATION ? 4 : 0; if (k) { double s = 0, t = 0; for (size_t i = 0; i < 4; i++) { s += (r[i] - j.truth[i]) * (r[i] - j.truth[i]); t += (r[i] + j.truth[i]) * (r[i] + j.truth[i]); } d = sqrt(std::min(s, t)); if (s != s) return HUGE_VAL; }
    for (; k < n; k++) { double e = fabs(r[k] - j.truth[k]) / (1 + fabs(j.truth[k])); if (!(e == e)) return HUGE_VAL; d = std::max(d, e); } return d / j.tol;
}
inline std::string str(const std::vector<double>& v) { std::string s; for (size_t i = 0; i < v.size() && i < 12; i++) s += sim::fmt(i ? " %.6g" : "%.6g", v[i]); if (v.size() > 12) s += " ..."; return s; }
}

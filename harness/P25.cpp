// P25: estimates from noisy measurements use every one of them equally, whatever their order, and are the best fit where that is promised.
#include "catalog.h"
#include <utMath/Stochastic/Average.h>
#include <utMath/Stochastic/Correlation.h>
#include <utMath/ErrorVector.h>
#include <list>
namespace {
using namespace cat;
typedef std::vector<int> IX;
typedef std::vector<double> R;
// an estimation over n measurements: run(indices) estimates from these; cost(result, indices) is what the estimate promises to minimise, step moves a result along parameter k
struct Task { const char* name; int n, keep; std::function<R(const IX&)> run; std::function<double(const R&, const IX&)> cost; std::function<R(const R&, int, double)> step; int dims; double tol, flat; Kind kind; bool twice, sens, order; size_t quat; double slack; std::function<R(const IX&)> exact; Task() : name(""), n(0), keep(0), dims(0), tol(1e-6), flat(1e-3), kind(PLAIN), twice(true), sens(true), order(true), quat(0), slack(1e-7) {} };
double noise(double s) { return s * (uni(-1, 1) + uni(-1, 1) + uni(-1, 1)); }
V3 shake(const V3& p, double s) { double a = noise(s), b = noise(s), c = noise(s); return V3(p(0) + a, p(1) + b, p(2) + c); }
V2 shake(const V2& p, double s) { double a = noise(s), b = noise(s); return V2(p(0) + a, p(1) + b); }
Q tilt(const Q& q, double s) { return mul(q, rrot(0, s)); }
template<class T> std::vector<T> pick(const std::vector<T>& a, const IX& ix) { return sel(a, ix); }
double sq3(const V3& a, const V3& b) { double s = 0; for (int i = 0; i < 3; i++) s += (a(i) - b(i)) * (a(i) - b(i)); return s; }
double sq2(const V2& a, const V2& b) { return (a(0) - b(0)) * (a(0) - b(0)) + (a(1) - b(1)) * (a(1) - b(1)); }
Q asq(const R& r) { double l = sqrt(r[0] * r[0] + r[1] * r[1] + r[2] * r[2] + r[3] * r[3]); return Q(r[0] / l, r[1] / l, r[2] / l, r[3] / l); }
P asp(const R& r) { P p; p.q = asq(r); p.t = V3(r[4], r[5], r[6]); return p; }
R stepq(const R& r, int k, double h) { R o = r; Q q = mul(axisangle(k == 0, k == 1, k == 2, h), asq(r)); o[0] = q.x(); o[1] = q.y(); o[2] = q.z(); o[3] = q.w(); return o; }
R stepp(const R& r, int k, double h) { if (k < 3) return stepq(r, k, h); R o = r; o[k + 1] += h; return o; }
R stepv(const R& r, int k, double h) { R o = r; o[k] += h; return o; }
Task t_orientation() {
    Task t; t.n = 5 + sim::wl(12); t.keep = 4; P p = rpose(5); double s = uni(0.001, 0.05); std::vector<V3> a = cloud(t.n, 1), b; for (auto& x : a) b.push_back(shake(p(x), s)); int how = sim::wl(4); t.kind = POSE; t.dims = 6; t.step = stepp;
    if (how == 3) { t.name = "rotation from points"; t.kind = ROTATION; t.dims = 3; t.step = stepq; b.clear(); for (auto& x : a) b.push_back(shake(app(p.q, V3(0, 0, 0), x), s)); t.run = [a, b](const IX& ix) { Q q; if (!ua::PoseEstimation3D3D::estimateRotation_3D3D(pick(b, ix), q, pick(a, ix))) throw Fail(); R r; put(r, q); return r; }; t.cost = [a, b](const R& r, const IX& ix) { V3 m(0, 0, 0), k(0, 0, 0); for (int i : ix) for (int d = 0; d < 3; d++) { m(d) += a[i](d) / ix.size(); k(d) += b[i](d) / ix.size(); } double c = 0; for (int i : ix) c += sq3(V3(b[i](0) - k(0), b[i](1) - k(1), b[i](2) - k(2)), app(asq(r), V3(0, 0, 0), V3(a[i](0) - m(0), a[i](1) - m(1), a[i](2) - m(2)))); return c; }; return t; }
    t.name = "absolute orientation"; t.cost = [a, b](const R& r, const IX& ix) { P p = asp(r); double c = 0; for (int i : ix) c += sq3(b[i], p(a[i])); return c; };
    if (how == 0) t.run = [a, b](const IX& ix) { R r; put(r, ua::PoseEstimation3D3D::calculateAbsoluteOrientation(pick(a, ix), pick(b, ix))); return r; };
    else if (how == 1) t.run = [a, b](const IX& ix) { um::Pose q; if (!ua::PoseEstimation3D3D::estimatePose6D_3D3D(pick(b, ix), q, pick(a, ix))) throw Fail(); R r; put(r, q); return r; };
    else { t.name = "absolute orientation, refined"; t.tol = 1e-3; t.flat = 0.02; t.run = [a, b, p](const IX& ix) { um::Pose q = p.pose(); um::Optimization::OptTerminate crit(200, 1e-12); if (!ua::PoseEstimation3D3D::estimatePose6D_3D3D(pick(b, ix), q, pick(a, ix), crit)) throw Fail(); R r; put(r, q); return r; }; }
    return t;
}
Task t_scale() { Task t; t.name = "scale"; t.n = 5 + sim::wl(12); t.keep = 4; double f = uni(0.2, 4), s = uni(0.001, 0.05); P p = rpose(5); std::vector<V3> a = cloud(t.n, 1), b; for (auto& x : a) { V3 y = p(x); b.push_back(shake(V3(y(0) * f, y(1) * f, y(2) * f), s)); } t.run = [a, b](const IX& ix) { return R(1, ua::PoseEstimation3D3D::estimateScale_3D3D(pick(a, ix), pick(b, ix))); };
    t.exact = [a, b](const IX& ix) { long double s[2]; for (int w = 0; w < 2; w++) { const std::vector<V3>& v = w ? b : a; long double m[3] = {0, 0, 0}; s[w] = 0; for (int i : ix) for (int k = 0; k < 3; k++) m[k] += v[i](k) / ix.size(); for (int i : ix) for (int k = 0; k < 3; k++) s[w] += (v[i](k) - m[k]) * (v[i](k) - m[k]); } return R(1, (double)sqrtl(s[0] / s[1])); }; return t; }
Task t_residual() { Task t; t.name = "pose residual and covariance"; t.n = 5 + sim::wl(12); t.keep = 4; t.twice = false; double s = uni(0.01, 0.05); P p = rpose(2); std::vector<V3> a = cloud(t.n, 1), b; for (auto& x : a) b.push_back(shake(p(x), s)); um::Pose q = p.pose(); t.tol = 1e-6;
    t.run = [a, b, q](const IX& ix) { std::vector<V3> A = pick(a, ix), B = pick(b, ix); um::Matrix<double, 6, 6> c; ua::PoseEstimation3D3D::estimatePose6DCovariance(B.begin(), B.end(), q, A.begin(), A.end(), c); R r(1, ua::PoseEstimation3D3D::estimatePose6DResidual<double>(B.begin(), B.end(), q, A.begin(), A.end())); put(r, c); return r; }; return t; }
Task t_tooltip() {
    Task t; t.n = 6 + sim::wl(12); t.keep = 5; V3 pm = rvec(0.5), pw = rvec(3); double s = uni(0.001, 0.03); std::vector<um::Pose> v; std::vector<P> w; for (int i = 0; i < t.n; i++) { P p; p.q = rrot(0.3, 3.1); V3 z(0, 0, 0), m = app(p.q, z, pm); p.t = shake(V3(pw(0) - m(0), pw(1) - m(1), pw(2) - m(2)), s); w.push_back(p); if (sim::wl(4) == 1) p.q = neg(p.q); v.push_back(p.pose()); }
    t.name = "tool tip"; t.dims = 6; t.step = stepv; t.cost = [w](const R& r, const IX& ix) { double c = 0; for (int i : ix) c += sq3(app(w[i].q, w[i].t, V3(r[0], r[1], r[2])), V3(r[3], r[4], r[5])); return c; }; int how = sim::wl(4);
    if (how == 0) t.run = [v](const IX& ix) { V3 m, w; ua::ToolTip::tipCalibration(pick(v, ix), m, w); R r; put(r, m); put(r, w); return r; };
    else if (how == 1) t.run = [v](const IX& ix) { V3 m, w; if (!ua::ToolTip::estimatePosition3D_6D(w, pick(v, ix), m)) throw Fail(); R r; put(r, m); put(r, w); return r; };
    else if (how == 2) { t.name = "tool tip, refined"; t.tol = 1e-3; t.flat = 0.02; t.run = [v](const IX& ix) { V3 m, w; if (!ua::ToolTip::estimatePosition3D_6D(w, pick(v, ix), m, um::Optimization::OptTerminate(50, 1e-9))) throw Fail(); R r; put(r, m); put(r, w); return r; }; }
    else { t.name = "tool tip error"; t.twice = false; t.cost = nullptr; V3 cm = shake(pm, 0.05), cw = shake(pw, 0.05); t.run = [v, cm, cw](const IX& ix) { std::pair<double, double> e = ua::ToolTip::estimatePosition3DError_6D(cw, pick(v, ix), cm); R r; r.push_back(e.first); r.push_back(e.second); return r; };
        t.exact = [w, cm, cw](const IX& ix) { long double m = 0, q = 0; for (int i : ix) m += sqrtl(sq3(w[i](cm), cw)) / ix.size(); for (int i : ix) { long double d = sqrtl(sq3(w[i](cm), cw)) - m; q += d * d; } R r; r.push_back((double)m); r.push_back((double)sqrtl(q / (ix.size() - 1))); return r; }; }
    return t;
}
P from(const um::Pose& p) { P r; r.q = Q(p.rotation().x(), p.rotation().y(), p.rotation().z(), p.rotation().w()); r.t = V3(p.translation()(0), p.translation()(1), p.translation()(2)); return r; }
Task t_handeye() {
    Task t; t.n = 5 + sim::wl(6); t.keep = 5; int how = sim::wl(3); P x = rpose(2), base = rpose(2); x.q = rrot(0, 2.5); double s = uni(0.001, 0.01); std::vector<um::Pose> e, h; for (int i = 0; i < t.n; i++) { P p = rpose(2), hand = p, eye = how == 0 ? inv(mul(x, p)) : mul(inv(mul(p, x)), base); eye.q = tilt(eye.q, s); eye.t = shake(eye.t, s); if (sim::wl(4) == 1) hand.q = neg(hand.q); if (sim::wl(4) == 1) eye.q = neg(eye.q); h.push_back(hand.pose()); e.push_back(eye.pose()); }
    t.kind = POSE; t.tol = 1e-5; t.twice = false; if (how == 0) { t.name = "hand-eye, dual quaternions"; t.run = [e, h](const IX& ix) { um::Pose p; if (!ua::PoseEstimation6D6D::estimatePose6D_6D6D(pick(e, ix), p, pick(h, ix))) throw Fail(); R r; put(r, p); return r; }; }
    else {
        bool mat = how == 2, all = sim::wl(3) > 0; int part = sim::wl(3); t.name = part == 0 ? "hand-eye, Tsai-Lenz" : part == 1 ? "hand-eye rotation, Tsai-Lenz" : "hand-eye translation, Tsai-Lenz"; t.order = part == 1 && all; if (!all) t.keep = 6;
        auto run = [e, h, mat, all](const IX& ix) { R r; std::vector<um::Pose> E = pick(e, ix), H = pick(h, ix); if (!mat) put(r, ua::PoseEstimation6D6D::performHandEyeCalibration(H, E, all)); else { typedef um::Matrix<double, 4, 4> M4; std::vector<M4> me, mh; for (auto& p : E) me.push_back(M4(p)); for (auto& p : H) mh.push_back(M4(p)); put(r, ua::PoseEstimation6D6D::performHandEyeCalibration(mh, me, all)); } return r; };
        std::vector<P> pe, ph; for (auto& p : e) pe.push_back(from(p)); for (auto& p : h) ph.push_back(from(p));
        auto pairs = [pe, ph, all](const IX& ix, const std::function<double(const P&, const P&)>& f) { double c = 0; for (size_t i = 0; i + 1 < ix.size(); i++) for (size_t k = i + 1; k < (all ? ix.size() : i + 2); k++) c += f(mul(inv(ph[ix[k]]), ph[ix[i]]), mul(pe[ix[k]], inv(pe[ix[i]]))); return c; };
        t.run = run; if (part == 1) { t.kind = ROTATION; t.run = [run](const IX& ix) { R r = run(ix); r.resize(4); return r; }; }
        // the two least-squares problems of the method: the rotation from the axes of all movements, then the translation
        t.dims = 3; t.flat = 1e-3;
        if (part == 1) { t.cost = [pairs](const R& r, const IX& ix) { V3 p(r[0] / r[3], r[1] / r[3], r[2] / r[3]); return pairs(ix, [p](const P& a, const P& b) { double g = a.q.w() < 0 ? -1 : 1, c = b.q.w() < 0 ? -1 : 1; V3 x(g * a.q.x(), g * a.q.y(), g * a.q.z()), y(c * b.q.x(), c * b.q.y(), c * b.q.z()), s(x(0) + y(0), x(1) + y(1), x(2) + y(2)); V3 l(s(1) * p(2) - s(2) * p(1), s(2) * p(0) - s(0) * p(2), s(0) * p(1) - s(1) * p(0)); return sq3(l, V3(y(0) - x(0), y(1) - x(1), y(2) - x(2))); }); };
            t.step = [](const R& r, int k, double h) { R p = r; p[k] += h * p[3]; return p; }; }
        else { t.cost = [pairs](const R& r, const IX& ix) { P x = asp(r); return pairs(ix, [x](const P& a, const P& b) { V3 u = app(a.q, V3(0, 0, 0), x.t), v = app(x.q, V3(0, 0, 0), b.t); return sq3(V3(u(0) - x.t(0), u(1) - x.t(1), u(2) - x.t(2)), V3(v(0) - a.t(0), v(1) - a.t(1), v(2) - a.t(2))); }); }; t.step = [](const R& r, int k, double h) { R p = r; p[4 + k] += h; return p; }; } }
    return t;
}
Task t_homography() { Task t; t.name = "homography"; t.n = 6 + sim::wl(14); t.keep = 5; std::vector<V2> a = plane(t.n), b; double H[3][3], s = uni(0.001, 0.02); for (int i = 0; i < 3; i++) for (int k = 0; k < 3; k++) H[i][k] = (i == k) + uni(-0.25, 0.25); for (auto& p : a) { double w = H[2][0] * p(0) + H[2][1] * p(1) + H[2][2]; b.push_back(shake(V2((H[0][0] * p(0) + H[0][1] * p(1) + H[0][2]) / w, (H[1][0] * p(0) + H[1][1] * p(1) + H[1][2]) / w), s)); } t.kind = HOMOGENEOUS; t.tol = 1e-6; t.run = [a, b](const IX& ix) { R r; put(r, ua::homographyDLT(pick(a, ix), pick(b, ix))); return r; }; return t; }
Task t_fundamental() { Task t; t.name = "fundamental matrix"; t.n = 12 + sim::wl(14); t.keep = 11; M3 K1 = camera(1), K2 = camera(1); P c1 = view(1, 4, 6, 0.1), c2 = view(1, 4, 6, 0.1); c1.q = axisangle(0, 1, 0, 0.3); c2.q = axisangle(0, 1, 0.2, -0.4); std::vector<V3> x = cloud(t.n, 1.5); M34 P1 = proj(K1, c1), P2 = proj(K2, c2); std::vector<V2> a, b; double s = uni(0.02, 0.3); for (auto& p : x) { a.push_back(shake(image(P1, p), s)); b.push_back(shake(image(P2, p), s)); } t.kind = HOMOGENEOUS; t.tol = 1e-5; t.run = [a, b](const IX& ix) { R r; put(r, ua::getFundamentalMatrix(pick(a, ix), pick(b, ix))); return r; }; return t; }
Task t_projection() { Task t; t.name = "projection matrix"; t.n = 9 + sim::wl(12); t.keep = 8; M3 K = camera(1); P c = view(1, 3, 6, 3.1); std::vector<V3> x = cloud(t.n, 1.2); M34 m = proj(K, c); double s = uni(0.02, 0.5); std::vector<V2> a; for (auto& p : x) a.push_back(shake(image(m, p), s)); t.kind = HOMOGENEOUS; t.tol = 1e-6; t.run = [x, a](const IX& ix) { R r; put(r, ua::projectionDLT(pick(x, ix), pick(a, ix))); return r; }; return t; }
Task t_camera() {
    Task t; int how = sim::wl(4); t.n = (how ? 8 : 14) + sim::wl(10); t.keep = 7; M3 K = camera(-1); P c = view(-1, 3, 6, 0.9); std::vector<V3> x = cloud(t.n, 1); if (how == 1 || how == 3) { std::vector<V2> pl = plane(t.n); x.clear(); for (auto& p : pl) x.push_back(V3(p(0), p(1), 0)); } M34 m = proj(K, c); double s = uni(0.02, how ? 0.4 : 0.1); std::vector<V2> a; for (auto& p : x) a.push_back(shake(image(m, p), s)); t.kind = POSE; t.dims = 6; t.step = stepp; t.tol = 2e-3; t.flat = 0.02; um::Pose start = c.pose();
    t.cost = [x, a, K](const R& r, const IX& ix) { M34 m = proj(K, asp(r)); double c = 0; for (int i : ix) c += sq2(a[i], image(m, x[i])); return c; };
    if (how == 0) { t.name = "camera pose, from projection"; t.run = [x, a, K](const IX& ix) { R r; double res = -1; put(r, ua::PoseEstimation2D3D::computePose(pick(a, ix), pick(x, ix), K, res, true, ua::PoseEstimation2D3D::NONPLANAR_PROJECTION)); return r; }; }
    else if (how == 1) { t.name = "camera pose, planar"; t.run = [x, a, K](const IX& ix) { R r; double res = -1; put(r, ua::PoseEstimation2D3D::computePose(pick(a, ix), pick(x, ix), K, res, true, ua::PoseEstimation2D3D::PLANAR_HOMOGRAPHY)); return r; }; }
    else { t.name = "camera pose, refined"; t.run = [x, a, K, start](const IX& ix) { um::Pose p = start; ua::PoseEstimation2D3D::optimizePose(p, pick(a, ix), pick(x, ix), K, 30); R r; put(r, p); return r; }; }
    return t;
}
Task t_point() {
    Task t; t.name = "point from many cameras"; t.n = 3 + sim::wl(5); t.keep = 2; std::vector<M34> Ps; std::vector<V2> b; V3 x = rvec(1); double s = uni(0.0002, 0.005); for (int i = 0; i < t.n; i++) { M3 K; for (int k = 0; k < 9; k++) K(k / 3, k % 3) = k % 4 == 0; P c = view(1, 4, 6, 0.1); c.q = axisangle(uni(-0.3, 0.3), 1, 0, -0.6 + 1.2 * i / t.n); M34 m = proj(K, c); Ps.push_back(m); b.push_back(shake(image(m, x), s)); } bool opt = sim::wl(2); t.tol = opt ? 1e-4 : 1e-7;
    if (opt) { t.name = "point from many cameras, refined"; t.flat = 0.01; t.dims = 3; t.step = stepv; t.cost = [Ps, b](const R& r, const IX& ix) { double c = 0; for (int i : ix) c += sq2(b[i], image(Ps[i], V3(r[0], r[1], r[2]))); return c; }; }
    t.run = [Ps, b, opt](const IX& ix) { R r; put(r, ua::get3DPosition(pick(Ps, ix), pick(b, ix), opt ? 1 : 0)); return r; }; return t;
}
Task t_correlation() { Task t; t.name = "correlation"; t.n = 4 + sim::wl(20); t.keep = 3; std::vector<double> a, b; double f = uni(-3, 3), o = uni(-5, 5), s = uni(0.1, 3); for (int i = 0; i < t.n; i++) { a.push_back(uni(-3, 3)); b.push_back(a[i] * f + o + noise(s)); } bool st = sim::wl(2); t.tol = 1e-9; t.run = [a, b, st](const IX& ix) { R A = pick(a, ix), B = pick(b, ix); return R(1, st ? um::Stochastic::correlation(A.begin(), A.end(), B.begin(), B.end()) : ua::computeCorrelation(A, B)); };
    t.exact = [a, b](const IX& ix) { long double m = 0, k = 0, x = 0, y = 0, z = 0; for (int i : ix) m += a[i], k += b[i]; m /= ix.size(); k /= ix.size(); for (int i : ix) x += (a[i] - m) * (b[i] - k), y += (a[i] - m) * (a[i] - m), z += (b[i] - k) * (b[i] - k); return R(1, (double)(x / sqrtl(y * z))); }; return t; }
template<class A, class C> A fold(const C& c) { A a; return std::for_each(c.begin(), c.end(), a); }
Task t_average() {
    Task t; t.n = 2 + sim::wl(20); t.keep = 1; int how = sim::wl(6); t.tol = 1e-9; double s = uni(0.01, 2);
    if (how == 0) { t.name = "average of numbers"; R a; for (int i = 0; i < t.n; i++) a.push_back(noise(s) + 3); t.run = [a](const IX& ix) { return R(1, fold<um::Stochastic::Average<double> >(pick(a, ix)).getAverage()); }; t.exact = [a](const IX& ix) { long double m = 0; for (int i : ix) m += a[i]; return R(1, (double)(m / ix.size())); }; return t; }
    if (how < 3) { std::vector<V3> a; for (int i = 0; i < t.n; i++) a.push_back(shake(V3(1, -2, 3), s)); bool cov = how == 2; t.name = cov ? "average of positions with covariance" : "average of positions"; t.run = [a, cov](const IX& ix) { R r; if (cov) { um::ErrorVector<double, 3> e = fold<um::Stochastic::Average<um::ErrorVector<double, 3> > >(pick(a, ix)).getAverage(); put(r, V3(e.value)); put(r, e.covariance); } else put(r, V3(fold<um::Stochastic::Average<V3> >(pick(a, ix)).getAverage())); return r; };
        t.exact = [a, cov](const IX& ix) { long double m[3] = {0, 0, 0}; for (int i : ix) for (int k = 0; k < 3; k++) m[k] += a[i](k) / ix.size(); R r; for (int k = 0; k < 3; k++) r.push_back((double)m[k]); if (cov) for (int k = 0; k < 9; k++) { long double c = 0; for (int i : ix) c += (a[i](k / 3) - m[k / 3]) * (a[i](k % 3) - m[k % 3]); r.push_back((double)(c / ix.size())); } return r; }; return t; }
    s = uni(0.01, 0.3); std::vector<P> p; std::vector<um::Pose> v; std::vector<Q> qs; P c; c.q = rrot(0, 3.1); halfturn(c, 3.1); c.t = rvec(3); for (int i = 0; i < t.n; i++) { P x; x.q = tilt(c.q, s); x.t = shake(c.t, s); p.push_back(x); if (sim::wl(3) == 1) { x.q = neg(x.q); sim::fault("quaternion-sign"); } v.push_back(x.pose()); qs.push_back(x.q); }
    auto side = [p](int i) { const Q &a = p[0].q, &b = p[i].q; return a.x() * b.x() + a.y() * b.y() + a.z() * b.z() + a.w() * b.w() < 0 ? -1. : 1.; };
    auto mean = [p, side](const IX& ix) { long double m[4] = {0, 0, 0, 0}, l = 0; for (int i : ix) { double g = side(i); m[0] += g * p[i].q.x(); m[1] += g * p[i].q.y(); m[2] += g * p[i].q.z(); m[3] += g * p[i].q.w(); } for (auto x : m) l += x * x; R r; for (auto x : m) r.push_back((double)(x / sqrtl(l))); return r; };
    auto pos = [p](const IX& ix) { long double m[3] = {0, 0, 0}; for (int i : ix) for (int k = 0; k < 3; k++) m[k] += p[i].t(k) / ix.size(); R r; for (auto x : m) r.push_back((double)x); return r; };
    if (how == 3) { t.name = "average of rotations"; t.kind = ROTATION; t.run = [qs](const IX& ix) { R r; put(r, Q(fold<um::Stochastic::Average<um::Quaternion> >(pick(qs, ix)).getAverage())); return r; }; t.exact = mean; return t; }
    t.kind = POSE; bool cov = how == 5; t.name = cov ? "average of poses with covariance" : "average of poses"; t.run = [v, cov](const IX& ix) { R r; if (cov) { um::ErrorPose e = fold<um::Stochastic::Average<um::ErrorPose> >(pick(v, ix)).getAverage(); put(r, um::Pose(e)); put(r, e.covariance()); } else put(r, fold<um::Stochastic::Average<um::Pose> >(pick(v, ix)).getAverage()); return r; }; t.exact = [p, mean, pos, side, cov](const IX& ix) { R r = mean(ix), q = pos(ix); r.insert(r.end(), q.begin(), q.end()); if (!cov) return r; Q m(r[0], r[1], r[2], r[3]); long double c[36] = {0}; for (int i : ix) { Q e = mul(conj(m), p[i].q); double g = e.w() < 0 ? -1 : 1, d[6] = {p[i].t(0) - q[0], p[i].t(1) - q[1], p[i].t(2) - q[2], g * e.x(), g * e.y(), g * e.z()}; for (int k = 0; k < 36; k++) c[k] += d[k / 6] * d[k % 6]; } for (auto x : c) r.push_back((double)(x / ix.size())); return r; }; return t;
}
// distance of two results
double apart(const Task& t, const R& a, const R& b, const IX* ix = 0) { if (ix && t.cost && t.flat > 5e-3) { double c = t.cost(a, *ix), d = t.cost(b, *ix); if (fabs(c - d) <= 1e-3 * std::max(c, d)) return 0; } Job j; j.truth = a; j.kind = t.kind; j.tol = 1; return off(j, b); }
R attempt(const Task& t, const IX& ix, const char* what) {
    std::unique_ptr<R> o; std::string err; bool none = false; try { R x = t.run(ix); o.reset(new R(x)); } catch (const Fail&) { none = true; } catch (const std::exception& e) { sim::Rt r; err = e.what(); } sim::Rt r; SIM_CHECK(err.empty(), "error", "%s from %zu measurements, %s: %s", t.name, ix.size(), what, err.c_str()); if (none) throw Fail(); for (double x : *o) SIM_CHECK(x == x, "not-a-number", "%s from %zu measurements, %s: (%s)", t.name, ix.size(), what, str(*o).c_str()); return *o;
}
void best(const Task& t, const R& r, const IX& ix, const char* what) {
    if (!t.cost) return; double c = t.cost(r, ix); for (int k = 0; k < t.dims; k++) for (int s = -1; s <= 1; s += 2) { double h = s * t.flat, d = t.cost(t.step(r, k, h), ix); SIM_CHECK(d >= c * (1 - t.slack) - 1e-12, "not-best", "%s from %zu measurements, %s, leaves %.9g; moving it by %g along parameter %d leaves %.9g", t.name, ix.size(), what, c, h, k, d); } sim::probe("best-fit");
}
void judge(const Task& t) {
    IX all; for (int i = 0; i < t.n; i++) all.push_back(i); bool permute = t.order && sim::wl(4) != 3, twice = t.twice && sim::wl(2), lose = t.n > t.keep && sim::wl(2); { sim::Rt r; sim::sample(sim::fmt("%s, %d measurements%s%s%s", t.name, t.n, permute ? ", reordered" : "", twice ? ", twice" : "", lose ? ", one lost" : "")); sim::probe(t.name); }
    R a; try { a = attempt(t, all, "in order"); } catch (const Fail&) { sim::Rt r; sim::probe("reported-failure"); return; }
    sim::mix(sim::fnv(&a[0], 8 * a.size())); { sim::Rt r; best(t, a, all, "in order"); if (t.exact) { double d = apart(t, t.exact(all), a); SIM_CHECK(d <= t.tol, "wrong", "%s from %d measurements is (%s) instead of (%s)", t.name, t.n, str(a).c_str(), str(t.exact(all)).c_str()); sim::probe("exact"); } }
    try {
        if (permute) { IX p = all; { sim::Rt r; for (int i = t.n - 1; i > 0; i--) std::swap(p[i], p[sim::draw(sim::FA, i + 1)]); sim::fault("messages-reordered"); } R b = attempt(t, p, "reordered"); sim::Rt r; double d = apart(t, a, b, &all); SIM_CHECK(d <= t.tol, "order", "%s from %d measurements depends on their order: (%s) and (%s), %g apart", t.name, t.n, str(a).c_str(), str(b).c_str(), d); sim::probe("any-order"); }
        if (twice) { IX p = all; { sim::Rt r; p.insert(p.end(), all.begin(), all.end()); if (sim::wl(2)) for (size_t i = p.size() - 1; i > 0; i--) std::swap(p[i], p[sim::draw(sim::FA, (uint32_t)i + 1)]); sim::fault("message-duplicated"); } R b = attempt(t, p, "all delivered twice"); sim::Rt r; double d = apart(t, a, b, &all); SIM_CHECK(d <= t.tol, "twice", "%s changes when all %d measurements are delivered twice: (%s) and (%s), %g apart", t.name, t.n, str(a).c_str(), str(b).c_str(), d); sim::probe("twice"); }
        if (lose) { IX p = all; int k; { sim::Rt r; k = sim::draw(sim::FA, t.n); p.erase(p.begin() + k); sim::fault("message-lost"); } R b = attempt(t, p, "one lost"); sim::Rt r; best(t, b, p, "one lost"); double d = apart(t, a, b); SIM_CHECK(d > 1e-13, "unused", "%s from %d measurements is the same without measurement %d: (%s)", t.name, t.n, k, str(a).c_str()); if (t.exact) { double e = apart(t, t.exact(p), b); SIM_CHECK(e <= t.tol, "wrong", "%s from %zu measurements is (%s) instead of (%s)", t.name, p.size(), str(b).c_str(), str(t.exact(p)).c_str()); } sim::probe("every-one-counts"); }
    } catch (const Fail&) { sim::Rt r; SIM_CHECK(false, "not-found", "%s found from %d measurements in order, but not when they are reordered, repeated or one is lost", t.name, t.n); }
}
typedef Task (*TG)();
const TG tg[] = {t_orientation, t_scale, t_residual, t_tooltip, t_handeye, t_homography, t_fundamental, t_projection, t_camera, t_point, t_correlation, t_average};
const int NT = sizeof tg / sizeof *tg;
void one(TG g) { Task t; { sim::Rt r; turn = 0; t = g(); } judge(t); sim::nontrivial(); }
}
SCENARIO(frames, 4) { static const TG g[] = {t_orientation, t_scale, t_residual, t_tooltip, t_handeye}; one(g[sim::wl(5)]); }
SCENARIO(cameras, 4) { static const TG g[] = {t_homography, t_fundamental, t_projection, t_camera, t_point}; one(g[sim::wl(5)]); }
SCENARIO(averages, 2) { one(sim::wl(2) ? t_average : t_correlation); }
SCENARIO(parallel, 2) { sim::sched_random(); int n = 2 + sim::wl(2); for (int i = 0; i < n; i++) { Task* t = new Task; { sim::Rt r; turn = 100 * i; *t = tg[sim::wl(NT)](); } sim::spawn([t]() { judge(*t); }, t->name); } sim::join_all(); sim::nontrivial(); }

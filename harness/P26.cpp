// P26: reported uncertainties equal the scatter that noise on the inputs causes. Every simulated noise source is disturbed in turn, and what arrives at the end of the chain is compared with what the library propagated.
#include "catalog.h"
#include <utMath/ErrorVector.h>
#include <utMath/RotationVelocity.h>
#include <utMath/Stochastic/CovarianceTransform.h>
#include <utMath/Stochastic/BackwardPropagation.h>
#include <utMath/Stochastic/Kalman.h>
#include <utMath/Stochastic/Average.h>
#include <utMath/Optimization/Function/LinearFunction.h>


#include <utMath/Optimization/Function/VectorNormalize.h>
#include <utAlgorithm/Function/CameraIntrinsicsMultiplication.h>
#undef __UBITRACK_CALIBRATION_FUNCTION_DEHOMOGENIZATION_H_INCLUDED__   // two headers share this guard
#include <utAlgorithm/Function/Dehomogenization.h>
#undef __UBITRACK_CALIBRATION_FUNCTION_LIEROTATION_H_INCLUDED__
#include <utAlgorithm/Function/LieRotation.h>
#include <utAlgorithm/Function/MultipleCameraProjection.h>
#include <utAlgorithm/Function/MultiplePointProjection.h>
#include <utAlgorithm/Function/QuaternionRotation.h>
#include <utAlgorithm/Function/RadialDistortion.h>
#include <utAlgorithm/Function/RotHecFunction.h>
#include <utAlgorithm/Function/SinglePointMultiProjection.h>
#include <utAlgorithm/Function/MultipleCameraProjectionErrorART.h>
#include <utTracking/Function/LinearTimeUpdate.h>
#include <utTracking/Function/QuaternionTimeUpdate.h>
#include <utTracking/Function/PoseTimeUpdate.h>
#include <utTracking/Function/InsideOutPoseTimeUpdate.h>
#include <utTracking/Function/InvertRotationVelocity.h>
namespace {
using namespace cat;
typedef std::vector<double> R;
typedef std::vector<R> M;                                // rows
typedef std::function<R(const R&)> F;
namespace af = ua::Function;
namespace of = um::Optimization::Function;
namespace us = um::Stochastic;
namespace utr = Ubitrack::Tracking::Function;
M zero(size_t a, size_t b) { return M(a, R(b, 0.0)); }
M tr(const M& a) { M r = zero(a.empty() ? 0 : a[0].size(), a.size()); for (size_t i = 0; i < a.size(); i++) for (size_t k = 0; k < a[i].size(); k++) r[k][i] = a[i][k]; return r; }
M mulm(const M& a, const M& b) { M r = zero(a.size(), b[0].size()); for (size_t i = 0; i < a.size(); i++) for (size_t k = 0; k < b[0].size(); k++) { long double s = 0; for (size_t l = 0; l < b.size(); l++) s += (long double)a[i][l] * b[l][k]; r[i][k] = (double)s; } return r; }
M inverse(M a, double* cond) {
    size_t n = a.size(); M r = zero(n, n); R sc(n); for (size_t i = 0; i < n; i++) sc[i] = a[i][i] > 0 ? 1 / sqrt(a[i][i]) : 1; std::vector<std::vector<long double> > b(n, std::vector<long double>(2 * n, 0)); for (size_t i = 0; i < n; i++) { for (size_t k = 0; k < n; k++) b[i][k] = a[i][k] * sc[i] * sc[k]; b[i][n + i] = 1; }
    for (size_t c = 0; c < n; c++) { size_t p = c; for (size_t i = c; i < n; i++) if (fabsl(b[i][c]) > fabsl(b[p][c])) p = i; std::swap(b[c], b[p]); if (b[c][c] == 0) { *cond = 1e300; return r; } for (size_t i = 0; i < n; i++) if (i != c) { long double f = b[i][c] / b[c][c]; for (size_t k = c; k < 2 * n; k++) b[i][k] -= f * b[c][k]; } }
    *cond = 0; for (size_t i = 0; i < n; i++) for (size_t k = 0; k < n; k++) { double v = (double)(b[i][n + k] / b[i][i]); *cond = std::max(*cond, fabs(v)); r[i][k] = v * sc[i] * sc[k]; } return r;
}
template<class T, size_t A, size_t B> M mat(const um::Matrix<T, A, B>& m) { M r = zero(m.size1(), m.size2()); for (size_t i = 0; i < m.size1(); i++) for (size_t k = 0; k < m.size2(); k++) r[i][k] = m(i, k); return r; }
template<size_t N> um::Matrix<double, N, N> fix(const M& m) { um::Matrix<double, N, N> r; for (size_t i = 0; i < N; i++) for (size_t k = 0; k < N; k++) r(i, k) = m[i][k]; return r; }
um::Matrix<double> dyn(const M& m) { um::Matrix<double> r(m.size(), m[0].size()); for (size_t i = 0; i < m.size(); i++) for (size_t k = 0; k < m[0].size(); k++) r(i, k) = m[i][k]; return r; }
um::Vector<double> dyn(const R& v) { um::Vector<double> r(v.size()); for (size_t i = 0; i < v.size(); i++) r(i) = v[i]; return r; }
template<class V> R vec(const V& v, size_t n) { R r; for (size_t i = 0; i < n; i++) r.push_back(v(i)); return r; }
std::string str(const M& m) { std::string s; for (auto& r : m) { s += s.empty() ? "(" : "; "; for (size_t i = 0; i < r.size(); i++) s += sim::fmt("%s%.7g", i ? " " : "", r[i]); } return s + ")"; }
std::string str(const R& r) { return str(M(1, r)); }
// some covariance of n numbers: of full rank, of lower rank, diagonal, or none at all
M cov(int n, double s) { M a = zero(n, n); int kind = sim::wl(8), rank = kind == 1 ? 1 + sim::wl(n) : n; if (kind == 2) return a; for (int i = 0; i < n; i++) for (int k = 0; k < rank; k++) a[i][k] = kind == 3 ? (i == k) * uni(0.2, 1) * s : uni(-1, 1) * s; return mulm(a, tr(a)); }
M fullcov(int n, double s) { M a = zero(n, n); for (int i = 0; i < n; i++) for (int k = 0; k < n; k++) a[i][k] = uni(-0.5, 0.5) * s + (i == k) * s; return mulm(a, tr(a)); }
// what a disturbance of each of the n sources does to f
M disturb(const F& f, size_t n, double h = 1e-3) { M J; R d(n, 0.0); for (size_t i = 0; i < n; i++) { R v[4]; double st[4] = {-2 * h, -h, h, 2 * h}; for (int k = 0; k < 4; k++) { d[i] = st[k]; v[k] = f(d); } d[i] = 0; R c; for (size_t k = 0; k < v[0].size(); k++) c.push_back((8 * (v[2][k] - v[1][k]) - (v[3][k] - v[0][k])) / (12 * h)); J.push_back(c); sim::fault("noise"); } return tr(J); }
void same(const char* what, const M& got, const M& want, double tol, const std::string& more, bool whole = false) {
    sim::Rt r; double big = 0; for (size_t i = 0; i < want.size(); i++) for (size_t k = 0; k < want[i].size(); k++) big = std::max(big, fabs(want[i][k])); SIM_CHECK(got.size() == want.size() && (got.empty() || got[0].size() == want[0].size()), "size", "%s has the wrong size", what);
    bool ok = true; for (size_t i = 0; i < want.size(); i++) for (size_t k = 0; k < want[i].size(); k++) { double s = !whole && want.size() == want[0].size() ? sqrt(fabs(want[i][i] * want[k][k])) : big; if (!(fabs(got[i][k] - want[i][k]) <= tol * s + 1e-3 * tol * big + 1e-15)) ok = false; }
    SIM_CHECK(ok, "uncertainty", "%s: %s is reported, but the noise causes %s (%s)", what, str(got).c_str(), str(want).c_str(), more.c_str()); if (!got.empty()) sim::mix(sim::fnv(&got[0][0], 8 * got[0].size())); sim::probe("uncertainty-right");
}
double sq3(const V3& a, const um::Vector<double, 3>& b) { double s = 0; for (int i = 0; i < 3; i++) s += (a(i) - b(i)) * (a(i) - b(i)); return s; }
// ---- chains of poses
struct Src { int n; M c; };
struct Node { um::ErrorPose e; std::function<P(const R&)> f; std::string s; };
P tip(const P& p, const double* d) { P r; double l = sqrt(d[3] * d[3] + d[4] * d[4] + d[5] * d[5] + 1); r.q = mul(p.q, Q(d[3] / l, d[4] / l, d[5] / l, 1 / l)); r.t = V3(p.t(0) + d[0], p.t(1) + d[1], p.t(2) + d[2]); return r; }
R local(const P& o, const P& p) { R r; for (int i = 0; i < 3; i++) r.push_back(p.t(i) - o.t(i)); Q e = mul(inv(o).q, p.q); r.push_back(e.x() / e.w()); r.push_back(e.y() / e.w()); r.push_back(e.z() / e.w()); return r; }
struct Chain { std::vector<Src> src; std::vector<Node> pool; std::string what; };
M collect(const Chain& c, const F& f) { size_t n = 0; for (auto& s : c.src) n += s.n; M J = disturb(f, n), C = zero(n, n); size_t o = 0; for (auto& s : c.src) { for (int i = 0; i < s.n; i++) for (int k = 0; k < s.n; k++) C[o + i][o + k] = s.c[i][k]; o += s.n; } return mulm(mulm(J, C), tr(J)); }
Node leaf(Chain& c) { size_t o = 0; for (auto& s : c.src) o += s.n; P p = rpose(2); if (sim::wl(4) == 1) p.q = neg(p.q); Src s; s.n = 6; s.c = cov(6, 0.1); c.src.push_back(s); Node n; n.e = um::ErrorPose(p.pose(), fix<6>(s.c)); n.f = [p, o](const R& d) { return tip(p, &d[o]); }; n.s = sim::fmt("p%zu", c.src.size()); return n; }
void poses() {
    Chain c; { sim::Rt r; turn = 0; int n = 1 + sim::wl(4); for (int i = 0; i < n; i++) c.pool.push_back(leaf(c)); } int ops = 0;
    while (c.pool.size() > 1 || ops == 0 || (ops < 8 && sim::wl(3) == 0)) {
        ops++; int how = sim::wl(c.pool.size() > 1 ? 6 : 3); Node n;
        if (how < 3) { Node a; P p; { sim::Rt r; size_t i = sim::wl((uint32_t)c.pool.size()); a = c.pool[i]; c.pool.erase(c.pool.begin() + i); p = rpose(2); }
            um::Pose fixed = p.pose(); if (how == 0) n.e = ~a.e; else if (how == 1) n.e = a.e * fixed; else n.e = fixed * a.e;
            sim::Rt r; auto f = a.f; n.f = [how, f, p](const R& d) { P x = f(d); return how == 0 ? inv(x) : how == 1 ? mul(x, p) : mul(p, x); }; n.s = how == 0 ? "~(" + a.s + ")" : how == 1 ? "(" + a.s + " * fixed)" : "(fixed * " + a.s + ")"; sim::probe(how == 0 ? "inverted" : how == 1 ? "moved before" : "moved after");
        } else { Node a, b; { sim::Rt r; size_t i = sim::wl((uint32_t)c.pool.size()); a = c.pool[i]; c.pool.erase(c.pool.begin() + i); i = sim::wl((uint32_t)c.pool.size()); b = c.pool[i]; c.pool.erase(c.pool.begin() + i); }
            bool im = how == 5; n.e = im ? um::invertMultiply(a.e, b.e) : a.e * b.e; sim::Rt r; auto f = a.f, g = b.f; n.f = [im, f, g](const R& d) { return im ? mul(inv(f(d)), g(d)) : mul(f(d), g(d)); }; n.s = (im ? "(~" : "(") + a.s + " * " + b.s + ")"; sim::probe(im ? "inverted and combined" : "combined"); }
        { sim::Rt r; c.pool.push_back(n); }
        int extra = sim::wl(12); if (extra == 1) { Node& m = c.pool.back(); um::ErrorVector<double, 7> v; m.e.toAdditiveErrorVector(v); { sim::Rt r; P o; auto f = m.f; R z; for (auto& s : c.src) z.resize(z.size() + s.n, 0.0); o = f(z); Q q = m.e.rotation(); double g = o.q.x() * q.x() + o.q.y() * q.y() + o.q.z() * q.z() + o.q.w() * q.w() < 0 ? -1 : 1; M pr = zero(7, 7); double u[4] = {q.x(), q.y(), q.z(), q.w()}; for (int i = 0; i < 7; i++) for (int k = 0; k < 7; k++) pr[i][k] = (i == k) - (i > 2 && k > 2 ? u[i - 3] * u[k - 3] : 0);   // across the direction of the quaternion
                M want = collect(c, [f, g](const R& d) { P p = f(d); R r; put(r, p.t); r.push_back(g * p.q.x()); r.push_back(g * p.q.y()); r.push_back(g * p.q.z()); r.push_back(g * p.q.w()); return r; }); same("additive covariance", mulm(mulm(pr, mat(v.covariance)), pr), want, 1e-6, m.s); sim::probe("additive"); }
            m.e = um::ErrorPose::fromAdditiveErrorVector(v); }
    }
    Node n = c.pool[0]; { sim::Rt r; sim::sample(n.s); }
    R z; P o; M want; { sim::Rt r; for (auto& s : c.src) z.resize(z.size() + s.n, 0.0); o = n.f(z); auto f = n.f; Q g = n.e.rotation(); double off = 0; for (int i = 0; i < 3; i++) off = std::max(off, fabs(o.t(i) - n.e.translation()(i))); Q e = mul(inv(o).q, g); SIM_CHECK(off < 1e-9 && fabs(fabs(e.w()) - 1) < 1e-9, "value", "%s is wrong", n.s.c_str()); want = collect(c, [f, o](const R& d) { return local(o, f(d)); }); }
    same("covariance of a pose", mat(n.e.covariance()), want, 1e-6, n.s);
    V3 v; M vc; { sim::Rt r; v = rvec(2); vc = cov(3, 0.1); } um::ErrorVector<double, 3> y = n.e * v, yy = n.e * um::ErrorVector<double, 3>(v, fix<3>(vc)); sim::Rt r; auto f = n.f; want = collect(c, [f, v](const R& d) { V3 p = f(d)(v); R r; put(r, p); return r; }); V3 t = o(v); SIM_CHECK(sq3(t, y.value) < 1e-18 && sq3(t, yy.value) < 1e-18, "value", "point moved by %s is wrong", n.s.c_str()); same("covariance of a point", mat(y.covariance), want, 1e-6, n.s); double Rm[3][3]; rot(o.q, Rm); M q = zero(3, 3); for (int i = 0; i < 3; i++) for (int k = 0; k < 3; k++) q[i][k] = Rm[i][k]; M add = mulm(mulm(q, vc), tr(q)); for (int i = 0; i < 3; i++) for (int k = 0; k < 3; k++) add[i][k] += want[i][k]; same("covariance of an uncertain point", mat(yy.covariance), add, 1e-6, n.s); sim::probe("point moved");
}

// ---- functions of noisy numbers
M numeric(const F& f, const M& c) { M J = disturb(f, c.size()); return mulm(mulm(J, c), tr(J)); }
template<class Fn> F value(const Fn& f, const R& x, size_t out) { return [f, x, out](const R& d) { R y; um::Vector<double> in(x.size()), r(out); um::Matrix<double> J(out, x.size()); for (size_t i = 0; i < x.size(); i++) in(i) = x[i] + d[i]; f.evaluateWithJacobian(r, in, J); for (size_t i = 0; i < out; i++) y.push_back(r(i)); return y; }; }
void across(M& c, const R& x, int from, int at) { M p = zero(c.size(), c.size()); for (int i = 0; i < (int)c.size(); i++) for (int k = 0; k < (int)c.size(); k++) p[i][k] = (i == k) - (i >= at && i < at + 4 && k >= at && k < at + 4 ? x[from + i - at] * x[from + k - at] : 0); c = mulm(mulm(p, c), p); }
template<size_t O, size_t I, class Fn> void unary(const char* name, const Fn& f, const R& x, double scale, double tol, int quat = -1, bool whole = false) {   // quat: where a unit quaternion starts, uncertain only across its direction; whole: judged by the largest number, where the library approximates
    M c; R st; size_t lo, hi, at; { sim::Rt r; c = cov(I, scale); if (quat >= 0) across(c, x, quat, quat); } M want; { sim::Rt r; want = numeric(value(f, x, O), c); sim::sample(name); }
    int how = sim::wl(3);
    if (how == 0) { um::ErrorVector<double, I> in; { sim::Rt r; for (size_t i = 0; i < I; i++) in.value(i) = x[i]; in.covariance = fix<I>(c); } um::ErrorVector<double, O> out = us::transformWithCovariance<O, I>(f, in); same(name, mat(out.covariance), want, tol, "at " + str(x), whole); }
    else if (how == 1) { um::Vector<double> in(dyn(x)), out(O); um::Matrix<double> ic(dyn(c)), oc(O, O); us::transformWithCovariance(f, out, oc, in, ic); same(name, mat(oc), want, tol, "at " + str(x), whole); }
    else {   // within a larger state, in place: the result takes the place [at, at + O) or [lo, lo + I) of the numbers
        M C; size_t n; { sim::Rt r; size_t a = sim::wl(3), b = sim::wl(3); lo = a; hi = a + I; n = std::max(hi, a + O) + b; at = O <= I ? lo + sim::wl((uint32_t)(I - O + 1)) : lo; for (size_t i = 0; i < n; i++) st.push_back(i >= lo && i < hi ? x[i - lo] : uni(-1, 1)); C = cov((int)n, scale); if (quat >= 0) across(C, x, quat, (int)lo + quat); }
        um::Vector<double> v(dyn(st)); um::Matrix<double> vc(dyn(C)); us::transformRangeInternalWithCovariance(f, v, vc, (unsigned)at, (unsigned)(at + O), (unsigned)lo, (unsigned)hi);
        sim::Rt r; F g = value(f, x, O); size_t I_ = hi - lo; M w = numeric([&](const R& d) { R y = st; for (size_t i = 0; i < y.size(); i++) y[i] += d[i]; R z = g(R(d.begin() + lo, d.begin() + lo + I_)); for (size_t i = 0; i < z.size(); i++) y[at + i] = z[i]; return y; }, C); same(name, mat(vc), w, tol, sim::fmt("part %zu..%zu of %zu replaced, at ", at, at + O, st.size()) + str(st), whole); sim::probe("part of a state"); }
    sim::probe(name);
}
R unitq() { Q q = rrot(0, 3.1); R r; put(r, q); return r; }
R join(R a, const R& b) { a.insert(a.end(), b.begin(), b.end()); return a; }
R rv(const V3& v) { R r; put(r, v); return r; }
R some(int n, double s) { R r; for (int i = 0; i < n; i++) r.push_back(uni(-s, s)); return r; }
// the first n numbers of what f gives
template<class Fn> struct Head { Fn f; size_t all, n; unsigned size() const { return (unsigned)n; } template<class V, class X, class J> void evaluateWithJacobian(V& r, const X& x, J& j) const { um::Vector<double> y(all); um::Matrix<double> k(all, x.size()); f.evaluateWithJacobian(y, x, k); for (size_t i = 0; i < n; i++) { r(i) = y(i); for (size_t c = 0; c < x.size(); c++) j(i, c) = k(i, c); } } };
template<class Fn> Head<Fn> head(const Fn& f, size_t all, size_t n) { Head<Fn> h = {f, all, n}; return h; }
void functions() {
    R a, b; V3 v; V2 w; M A; { sim::Rt r; turn = 0; v = rvec(1); w = V2(uni(-1, 1), uni(-1, 1)); } int how = sim::wl(21);
    switch (how) {
    case 0: { af::CameraIntrinsicsMultiplication<double> f(w); { sim::Rt r; a = some(5, 3); } unary<2, 5>("camera matrix", f, a, 0.1, 1e-6); break; }
    case 1: { { sim::Rt r; a = some(3, 1); a[2] += a[2] > 0 ? 1 : -1; } unary<2, 3>("dehomogenization", af::Dehomogenization<3>(), a, 0.1, 1e-6); break; }
    case 2: { af::QuaternionRotation<double> f(v); { sim::Rt r; a = unitq(); } unary<3, 4>("rotated vector", f, a, 0.1, 1e-6, 0); break; }
    case 3: { um::Vector<double, 4> d; { sim::Rt r; d = um::Vector<double, 4>(uni(-.2, .2), uni(-.2, .2), uni(-.1, .1), uni(-.1, .1)); a = some(2, 1); } af::RadialDistortionWrtP<double> f(d); unary<2, 2>("lens distortion of an uncertain point", f, a, 0.1, 1e-6); break; }
    case 4: { af::RadialDistortionWrtD<double> f(w); { sim::Rt r; a = some(4, 0.2); } unary<2, 4>("uncertain lens distortion", f, a, 0.1, 1e-6); break; }
    case 5: { um::Matrix<double, 3, 4> L; { sim::Rt r; for (int i = 0; i < 12; i++) L(i / 4, i % 4) = uni(-2, 2); a = some(4, 2); } of::LinearFunction<3, 4, double> f(L); unary<3, 4>("linear function", f, a, 1, 1e-6); break; }
    case 6: { double dt; { sim::Rt r; dt = uni(0.002, 0.02); a = some(3, 3); } of::RotationVelocityIntegration f(dt); unary<4, 3>("integrated rotation velocity", f, a, 0.1, 5e-3, -1, true); break; }
    case 7: { { sim::Rt r; a = some(4, 1); a[3] += a[3] > 0 ? 1 : -1; } of::VectorNormalize f(4); unary<4, 4>("normalised vector", f, a, 0.1, 1e-6); break; }
    case 8: { double dt; { sim::Rt r; dt = uni(0.005, 0.5); a = join(join(some(9, 2), unitq()), R(3, 0.0)); }   // first order in the time step: exact where nothing turns
        utr::PoseTimeUpdate f(dt, 2, 1); unary<16, 16>("moving pose", f, a, 0.1, 1e-5, 9); break; }
    case 9: { { sim::Rt r; a = unitq(); b = some(3, 2); } um::ErrorVector<double, 4> q; um::ErrorVector<double, 3> x; M c, d; { sim::Rt r; c = cov(4, 0.1); across(c, a, 0, 0); d = cov(3, 0.1); for (int i = 0; i < 4; i++) q.value(i) = a[i]; for (int i = 0; i < 3; i++) x.value(i) = b[i]; q.covariance = fix<4>(c); x.covariance = fix<3>(d); } um::ErrorVector<double, 3> y = us::binarytransformWithCovariance<3, 4, 3>(of::QuaternionVectorRotation(), q, x);
        sim::Rt r; R ab = join(a, b); M C = zero(7, 7); for (int i = 0; i < 7; i++) for (int k = 0; k < 7; k++) C[i][k] = i < 4 && k < 4 ? c[i][k] : i > 3 && k > 3 ? d[i - 4][k - 4] : 0; M want = numeric([ab](const R& e) { R x = ab; for (int i = 0; i < 7; i++) x[i] += e[i]; um::Vector<double, 4> q(x[0], x[1], x[2], x[3]); um::Vector<double, 3> p(x[4], x[5], x[6]), y; of::QuaternionVectorRotation().evaluate(y, q, p); return vec(y, 3); }, C); same("uncertain rotation of an uncertain vector", mat(y.covariance), want, 1e-6, str(ab)); sim::probe("uncertain rotation of an uncertain vector"); break; }
    case 10: { af::LieRotation<double> f(v); double tol = 1e-6; { sim::Rt r; a = some(3, 1.5); if (sim::wl(3) == 1) { int i = sim::wl(3); for (int k = 0; k < 3; k++) if (k != i) a[k] = 0; } if (sim::wl(3) == 1) { double e = sim::wl(4) == 1 ? 0 : pow(10, -0.5 * sim::wl(32)); for (auto& x : a) x *= e; tol = 1e-5; sim::probe("hardly rotated"); } } unary<3, 3>("vector rotated by an uncertain rotation vector", f, a, 0.1, tol, -1, tol > 1e-6); break; }
    case 11: { std::vector<M34> c; { sim::Rt r; int n = 1 + sim::wl(4); for (int i = 0; i < n; i++) { M3 K = camera(1); for (int k = 0; k < 9; k++) K(k / 3, k % 3) = k == 8 ? 1 : K(k / 3, k % 3) / 500; c.push_back(proj(K, view(1, 4, 7, 0.9))); } a = some(3, 1); } af::SinglePointMultiProjection<double, std::vector<M34>::const_iterator> f(c.begin(), c.end()); size_t n = c.size(); um::Vector<double> in(dyn(a)), out(2 * n); M k; { sim::Rt r; k = cov(3, 0.05); } um::Matrix<double> ic(dyn(k)), oc(2 * n, 2 * n); us::transformWithCovariance(f, out, oc, in, ic); sim::Rt r; same("uncertain point in several images", mat(oc), numeric(value(f, a, 2 * n), k), 1e-6, str(a)); sim::probe("uncertain point in several images"); break; }
    case 12: { Q x, y; { sim::Rt r; x = rrot(0, 3.1); y = rrot(0, 3.1); a = some(4, 1); } af::RotHecMeasurement f(x, y); unary<4, 4>("hand-eye equation of a rotation", f, a, 0.1, 1e-6); break; }
    case 13: { Q x; M c, d; { sim::Rt r; x = rrot(0, 3.1); a = unitq(); b = unitq(); c = cov(4, 0.1); d = cov(4, 0.1); } um::Vector<double, 4> va(a[0], a[1], a[2], a[3]), vb(b[0], b[1], b[2], b[3]); um::Matrix<double, 4, 4> ja, jb; af::RotHecCombine(x).jacobian(va, vb, ja, jb); sim::Rt r; M A = mulm(mulm(mat(ja), c), tr(mat(ja))), B = mulm(mulm(mat(jb), d), tr(mat(jb))), w1 = numeric([a, b, x](const R& e) { R y; Q p = mul(Q(a[0] + e[0], a[1] + e[1], a[2] + e[2], a[3] + e[3]), x); y.push_back(p.x()); y.push_back(p.y()); y.push_back(p.z()); y.push_back(p.w()); return y; }, c), w2 = numeric([a, b, x](const R& e) { R y; Q p = mul(x, Q(b[0] + e[0], b[1] + e[1], b[2] + e[2], b[3] + e[3])); y.push_back(p.x()); y.push_back(p.y()); y.push_back(p.z()); y.push_back(p.w()); return y; }, d);
        same("hand-eye equation, of the hand", A, w1, 1e-6, str(a)); same("hand-eye equation, of the eye", B, w2, 1e-6, str(b)); sim::probe("hand-eye equation"); break; }
    case 14: { double dt; int order; { sim::Rt r; dt = uni(0.005, 2); order = 1 + sim::wl(3); a = some(12, 2); } if (order == 1) unary<3, 6>("moving point", utr::LinearTimeUpdate(dt, 3, 1), R(a.begin(), a.begin() + 6), 0.1, 1e-6); else if (order == 2) unary<3, 9>("moving point", utr::LinearTimeUpdate(dt, 3, 2), R(a.begin(), a.begin() + 9), 0.1, 1e-6); else unary<3, 12>("moving point", utr::LinearTimeUpdate(dt, 3, 3), a, 0.1, 1e-6); break; }
    case 15: { double dt; { sim::Rt r; dt = uni(0.005, 0.3); a = join(unitq(), R(3, 0.0)); } unary<4, 7>("turning quaternion", utr::QuaternionTimeUpdate(dt, 1), a, 0.1, 1e-5, 0); break; }
    case 16: { { sim::Rt r; a = join(unitq(), some(3, 2)); } unary<3, 7>("inverted rotation velocity", utr::InvertRotationVelocity(), a, 0.1, 1e-6, 0); break; }
    case 17: {  // the composed function of the pose of a body seen by calibrated cameras
        int n, nc; std::vector<V3> X, t; std::vector<M3> Rs, K; std::vector<std::pair<size_t, size_t> > vis; { sim::Rt r; n = 1 + sim::wl(4); nc = 1 + sim::wl(3); X = cloud(n, 1); for (int i = 0; i < nc; i++) { P c = view(1, 4, 7, 0.9); double m[3][3]; rot(c.q, m); M3 q; for (int k = 0; k < 9; k++) q(k / 3, k % 3) = m[k / 3][k % 3]; Rs.push_back(q); t.push_back(c.t); M3 k = camera(1); for (int j = 0; j < 9; j++) k(j / 3, j % 3) = j == 8 ? 1 : k(j / 3, j % 3) / 500; K.push_back(k); } for (int i = 0; i < nc; i++) for (int k = 0; k < n; k++) if (vis.empty() || sim::wl(4)) vis.push_back(std::make_pair((size_t)k, (size_t)i)); a = join(some(3, 0.3), some(3, 1.2)); if (sim::wl(4) == 1) a[3] = a[4] = a[5] = 0; }
        ua::ObjectiveFunction<double> f(X, Rs, t, K, vis); size_t m = f.size(); um::Vector<double> in(dyn(a)), out(m); M c; { sim::Rt r; c = cov(6, 0.02); } um::Matrix<double> ic(dyn(c)), oc(m, m); us::transformWithCovariance(f, out, oc, in, ic); sim::Rt r; same("images of an uncertain body", mat(oc), numeric(value(f, a, m), c), 1e-6, str(a)); R y = value(f, a, m)(R(6, 0.0)); for (size_t i = 0; i < vis.size(); i++) { double om = sqrt(a[3] * a[3] + a[4] * a[4] + a[5] * a[5]), g = om > 0 ? sin(om / 2) / om : 0.5; P b; b.q = Q(a[3] * g, a[4] * g, a[5] * g, cos(om / 2)); b.t = V3(a[0], a[1], a[2]); V3 w = b(X[vis[i].first]); const M3& q = Rs[vis[i].second]; const M3& k = K[vis[i].second]; double v[3], u[3]; for (int j = 0; j < 3; j++) v[j] = q(j, 0) * w(0) + q(j, 1) * w(1) + q(j, 2) * w(2) + t[vis[i].second](j); for (int j = 0; j < 3; j++) u[j] = k(j, 0) * v[0] + k(j, 1) * v[1] + k(j, 2) * v[2]; SIM_CHECK(fabs(u[0] / u[2] - y[2 * i]) < 1e-9 && fabs(u[1] / u[2] - y[2 * i + 1]) < 1e-9, "value", "image %zu of a body is wrong", i); } sim::probe("images of an uncertain body"); break; }
    case 19: { double dt; bool o1; { sim::Rt r; dt = uni(0.002, 0.02); o1 = sim::wl(2); a = join(join(some(o1 ? 6 : 3, 2), unitq()), some(3, 3)); }   // the turning itself is of first order only: judged is what moves with it
        utr::InsideOutPoseTimeUpdate f(dt, o1); if (o1) unary<6, 13>("turning camera", head(f, 13, 6), a, 0.1, 5e-3, 6, true); else unary<3, 10>("turning camera", head(f, 10, 3), a, 0.1, 5e-3, 3, true); break; }
    case 20: { double dt; int po, ro; { sim::Rt r; dt = uni(0.002, 0.5); po = sim::wl(3); ro = sim::wl(3); a = join(join(some(3 + 3 * po, 2), unitq()), R(3 * ro, 0.0)); }
        utr::PoseTimeUpdate f(dt, po, ro); const char* w = "pose moving by its derivatives"; const double e = 1e-5; int q = 3 + 3 * po;
        switch (3 * po + ro) { case 0: unary<7, 7>(w, f, a, 0.1, e, q); break; case 1: unary<10, 10>(w, f, a, 0.1, e, q); break; case 2: unary<13, 13>(w, f, a, 0.1, e, q); break; case 3: unary<10, 10>(w, f, a, 0.1, e, q); break; case 4: unary<13, 13>(w, f, a, 0.1, e, q); break;
            case 5: unary<16, 16>(w, f, a, 0.1, e, q); break; case 6: unary<13, 13>(w, f, a, 0.1, e, q); break; case 7: unary<16, 16>(w, f, a, 0.1, e, q); break; default: unary<19, 19>(w, f, a, 0.1, e, q); } break; }
    default: {   // several points seen by one camera, of an uncertain pose
        int n = 1 + sim::wl(4); auto X = std::make_shared<std::vector<V3> >(); auto K = std::make_shared<M3>(); P p; { sim::Rt r; *X = cloud(n, 1); *K = camera(1); for (int i = 0; i < 9; i++) (*K)(i / 3, i % 3) = i % 4 == 0 ? (i == 8 ? 1 : (*K)(i / 3, i % 3) / 500) : 0; p = view(1, 3, 6, 3.1); R t; put(t, p.t); a = join(t, [&]() { R q; put(q, p.q); return q; }()); }
        af::MultiplePointProjection<double> f(*X, *K); um::Vector<double> in(dyn(a)), out(2 * n); M c; { sim::Rt r; c = cov(7, 0.02); across(c, a, 3, 3); } um::Matrix<double> ic(dyn(c)), oc(2 * n, 2 * n); us::transformWithCovariance(f, out, oc, in, ic); sim::Rt r; same("projected points", mat(oc), numeric(value(f, a, 2 * n), c), 1e-6, str(a)); sim::probe("projected points"); }
    }
}
// ---- an unknown state and what is measured of it
M sub(const M& a, size_t i0, size_t i1, size_t k0, size_t k1) { M r; for (size_t i = i0; i < i1; i++) r.push_back(R(a[i].begin() + k0, a[i].begin() + k1)); return r; }
struct Fn { M A; R c; void evaluateInto(const R& x, R& y, M& J) const { y.clear(); J = A; for (size_t i = 0; i < A.size(); i++) { double s = 0; for (size_t k = 0; k < x.size(); k++) { s += A[i][k] * x[k] + c[i] * x[k] * x[k] / 2; J[i][k] += c[i] * x[k]; } y.push_back(s); } }
    unsigned size() const { return (unsigned)A.size(); }
    template<class V, class X, class J> void evaluateWithJacobian(V& r, const X& x, J& j) const { R xx, y; M jj; sim::Rt q; for (size_t i = 0; i < A[0].size(); i++) xx.push_back(x(i)); evaluateInto(xx, y, jj); for (size_t i = 0; i < y.size(); i++) { r(i) = y[i]; for (size_t k = 0; k < xx.size(); k++) j(i, k) = jj[i][k]; } }
    template<class X, class J> void jacobian(const X& x, J& j) const { um::Vector<double> r(A.size()); evaluateWithJacobian(r, x, j); } };
void update() {
    size_t n, m, lo, hi; M Pm; R x; int steps; { sim::Rt r; turn = 0; n = 1 + sim::wl(7); Pm = fullcov((int)n, 0.5); x = some((int)n, 1); steps = 1 + sim::wl(5); }
    um::Vector<double> st(dyn(x)); um::Matrix<double> sc(dyn(Pm)); std::string log;
    for (int s = 0; s < steps; s++) {
        Fn f; R z; M Rm; bool id; { sim::Rt r; lo = sim::wl((uint32_t)n); hi = lo + 1 + sim::wl((uint32_t)(n - lo)); id = sim::wl(2); m = id ? hi - lo : 1 + sim::wl(4); f.A = zero(m, hi - lo); f.c = R(m, 0.0); for (auto& q : f.A) for (auto& e : q) e = uni(-1, 1); if (id) for (size_t i = 0; i < m; i++) for (size_t k = 0; k < m; k++) f.A[i][k] = i == k; else if (sim::wl(2)) f.c = some((int)m, 0.5); z = some((int)m, 2); Rm = fullcov((int)m, uni(0.05, 1)); if (sim::chance(sim::FA, 1, 6)) { sim::fault("message-lost"); continue; } log += sim::fmt(" [%zu..%zu of %zu measured as %zu]", lo, hi, n, m); }
        int rep = sim::chance(sim::FA, 1, 6) ? 2 : 1; if (rep == 2) sim::fault("message-duplicated");
        for (int k = 0; k < rep; k++) {
            um::Vector<double> mz(dyn(z)); um::Matrix<double> mr(dyn(Rm));
            if (id && k == 0) us::kalmanMeasurementUpdateIdentity(st, sc, mz, mr, lo, hi); else us::kalmanMeasurementUpdate(st, sc, f, mz, mr, lo, hi);
            sim::Rt r; R y; M J, H = zero(m, n); f.evaluateInto(R(x.begin() + lo, x.begin() + hi), y, J); for (size_t i = 0; i < m; i++) for (size_t q = lo; q < hi; q++) H[i][q] = J[i][q - lo];
            M S = mulm(mulm(H, Pm), tr(H)); for (size_t i = 0; i < m; i++) for (size_t q = 0; q < m; q++) S[i][q] += Rm[i][q]; double cond; M G = mulm(mulm(Pm, tr(H)), inverse(S, &cond)); for (size_t i = 0; i < n; i++) for (size_t q = 0; q < m; q++) x[i] += G[i][q] * (z[q] - y[q]); M d = mulm(G, mulm(H, Pm)); for (size_t i = 0; i < n; i++) for (size_t q = 0; q < n; q++) Pm[i][q] -= d[i][q];
            for (size_t i = 0; i < n; i++) SIM_CHECK(fabs(st(i) - x[i]) <= 1e-7 * (1 + fabs(x[i])), "state", "after%s the state is %s instead of %s", log.c_str(), str(vec(st, n)).c_str(), str(x).c_str()); same("covariance of the state", mat(sc), Pm, 1e-6, log); sim::probe(id && k == 0 ? "part of the state measured" : "function of the state measured");
        }
    }
}
// ---- the way back: how well measurements determine what they depend on
void backward() {
    Fn f; R x, e; double s; size_t n, m; { sim::Rt r; turn = 0; n = 1 + sim::wl(6); m = n + sim::wl(6); f.A = zero(m, n); for (size_t i = 0; i < m; i++) for (size_t k = 0; k < n; k++) f.A[i][k] = uni(-0.4, 0.4) + (i % n == k); f.c = sim::wl(2) ? some((int)m, 0.2) : R(m, 0.0); x = some((int)n, 1); s = uni(0.1, 2); for (size_t i = 0; i < m; i++) e.push_back(uni(0.05, 2)); }
    int how = sim::wl(3); M E; { sim::Rt r; if (how == 2) E = fullcov((int)m, 0.5); else { E = zero(m, m); for (size_t i = 0; i < m; i++) E[i][i] = how ? e[i] : s; } } um::Matrix<double> res(n, n); um::Vector<double> xs(dyn(x)), es(dyn(e)); if (how == 0) us::backwardPropagationIdentity(res, s, f, xs); else if (how == 1) us::backwardPropagationDiagonal(res, es, f, xs); else { um::Matrix<double> in(dyn(E)); us::backwardPropagation(res, in, f, xs); }
    sim::Rt r; R y; M J; f.evaluateInto(x, y, J); double ce, cond; M Ei = inverse(E, &ce), want = inverse(mulm(tr(J), mulm(Ei, J)), &cond); const char* what[3] = {"parameters of equally good measurements", "parameters of measurements of different quality", "parameters of correlated measurements"}, *pr[3] = {"propagated back, equal", "propagated back, different", "propagated back, correlated"}; if (cond < 1e4 && ce < 1e4) { same(what[how], mat(res), want, 1e-6, sim::fmt("%zu of %zu", n, m)); sim::probe(pr[how]); }
}
void cameras() {
    auto X = std::make_shared<std::vector<V3> >(); std::vector<um::Matrix<double, 3, 4> > cams; std::vector<std::pair<size_t, size_t> > seen; P p; M3 K; double s; bool one; { sim::Rt r; turn = 0; int n = 4 + sim::wl(8); *X = cloud(n, 1); s = uni(0.1, 2); one = sim::wl(2); K = camera(-1); p = one ? view(-1, 4, 6, 3.1) : rpose(0.3); int nc = one ? 1 : 1 + sim::wl(3); for (int i = 0; i < nc; i++) { cams.push_back(proj(one ? K : camera(-1), view(-1, 5, 7, 0.7))); for (int k = 0; k < n; k++) if (i == 0 || !sim::chance(sim::FA, 1, 4)) seen.push_back(std::make_pair((size_t)k, (size_t)i)); else sim::fault("message-lost"); } if (sim::wl(4) == 1) p.q = neg(p.q); }
    um::Pose q = p.pose(); um::Matrix<double, 6, 6> c = one ? ua::PoseEstimation2D3D::singleCameraPoseError(q, *X, K, s) : ua::PoseEstimation2D3D::multipleCameraPoseError(q, *X, cams, seen, s);
    sim::Rt r; M34 m1 = proj(K, P()); M J = disturb([&](const R& d) { P t = tip(p, &d[0]); R y; if (one) { M34 m = proj(K, t); for (auto& v : *X) { V2 i = image(m, v); y.push_back(i(0)); y.push_back(i(1)); } } else for (auto& o : seen) { V2 i = image(cams[o.second], t((*X)[o.first])); y.push_back(i(0)); y.push_back(i(1)); } return y; }, 6); (void)m1; M W = mulm(tr(J), J); for (auto& a : W) for (auto& b : a) b /= s; double cond; M want = inverse(W, &cond); if (cond < 1e6) { same(one ? "covariance of a pose seen by one camera" : "covariance of a pose seen by several cameras", mat(c), want, 1e-4, sim::fmt("%zu points", X->size())); sim::probe(one ? "seen by one camera" : "seen by several cameras"); }
}
// ---- covariances that estimators report with their results, given the scatter of what was measured
void estimated() {
    int how = sim::wl(3); std::vector<V3> X; { sim::Rt r; turn = 0; X = cloud(8 + sim::wl(12), 1); } double noise; { sim::Rt r; noise = uni(0.001, 0.02); } M J, W; double v = 0;
    if (how == 0) { std::vector<V3> A; P p; { sim::Rt r; p = rpose(2); for (auto& x : X) { V3 y = p(x); A.push_back(V3(y(0) + noise * uni(-1, 1), y(1) + noise * uni(-1, 1), y(2) + noise * uni(-1, 1))); } } um::Pose e; bool ok = ua::PoseEstimation3D3D::estimatePose6D_3D3D(A, e, X); um::Matrix<double, 6, 6> c; ok = ok && ua::PoseEstimation3D3D::estimatePose6DCovariance(A.begin(), A.end(), e, X.begin(), X.end(), c); sim::Rt r; SIM_CHECK(ok, "failed", "no pose of %zu points", X.size()); P o; o.q = e.rotation(); o.t = V3(e.translation());
        for (size_t i = 0; i < X.size(); i++) v += sq3(A[i], o(X[i])) / (3 * X.size()); J = disturb([&](const R& d) { P t = tip(o, &d[0]); R y; for (auto& x : X) put(y, t(x)); return y; }, 6); W = mulm(tr(J), J); for (auto& a : W) for (auto& b : a) b /= v; double cond; M want = inverse(W, &cond); if (cond < 1e5) { same("covariance of a pose of measured points", mat(c), want, 1e-4, sim::fmt("%zu points", X.size())); sim::probe("pose of measured points"); } }
    else if (how == 1) { std::vector<V2> B; P p; M3 K; M34 m; { sim::Rt r; K = camera(-1); p = view(-1, 4, 6, 0.9); m = proj(K, p); for (auto& x : X) { V2 b = image(m, x); B.push_back(V2(b(0) + 50 * noise * uni(-1, 1), b(1) + 50 * noise * uni(-1, 1))); } } double res = -1; um::ErrorPose e; try { e = ua::PoseEstimation2D3D::computePose(B, X, K, res, true, ua::PoseEstimation2D3D::NONPLANAR_PROJECTION); } catch (const Ubitrack::Util::Exception&) { sim::Rt r; sim::probe("points too unevenly spread"); return; } sim::Rt r; P o; o.q = e.rotation(); o.t = V3(e.translation()); m = proj(K, o); for (size_t i = 0; i < X.size(); i++) { V2 b = image(m, X[i]); v += ((b(0) - B[i](0)) * (b(0) - B[i](0)) + (b(1) - B[i](1)) * (b(1) - B[i](1))) / (2 * X.size()); }
        SIM_CHECK(fabs(res - sqrt(v)) < 1e-5 * (1 + res), "residual", "the reprojection error is %.9g instead of %.9g", res, sqrt(v)); J = disturb([&](const R& d) { M34 n = proj(K, tip(o, &d[0])); R y; for (auto& x : X) { V2 b = image(n, x); y.push_back(b(0)); y.push_back(b(1)); } return y; }, 6); W = mulm(tr(J), J); for (auto& a : W) for (auto& b : a) b /= v; double cond; M want = inverse(W, &cond); if (cond < 1e5) { same("covariance of a pose of an image", mat(e.covariance()), want, 1e-4, sim::fmt("%zu points", X.size())); sim::probe("pose of an image"); } }
    else { std::vector<M34> cams; std::vector<std::pair<unsigned, unsigned> > seen; P p; double s; V3 g; R x; { sim::Rt r; p = rpose(0.3); s = uni(0.1, 2); int nc = 1 + sim::wl(3); for (int i = 0; i < nc; i++) { cams.push_back(proj(camera(-1), view(-1, 5, 7, 0.7))); for (size_t k = 0; k < X.size(); k++) if (i == 0 || !sim::chance(sim::FA, 1, 4)) seen.push_back(std::make_pair((unsigned)k, (unsigned)i)); else sim::fault("message-lost"); } g = rvec(0.5); x = join(rv(p.t), some(3, 1.2)); double om = sqrt(x[3] * x[3] + x[4] * x[4] + x[5] * x[5]), h = sin(om / 2) / om; p.q = Q(x[3] * h, x[4] * h, x[5] * h, cos(om / 2)); }
        af::MultipleCameraProjectionErrorART<double> f(X, cams, seen, g); um::Matrix<double, 6, 6> c; us::backwardPropagationIdentity(c, s, f, um::Vector<double>(dyn(x))); sim::Rt r; J = disturb([&](const R& d) { double om = sqrt(d[3] * d[3] + d[4] * d[4] + d[5] * d[5]), h = om > 0 ? sin(om / 2) / om : 0.5; P er; er.q = Q(d[3] * h, d[4] * h, d[5] * h, cos(om / 2)); er.t = V3(0, 0, 0); P only = p; only.t = V3(0, 0, 0); V3 rg = only(g); R y; for (auto& o : seen) { V3 a = X[o.first]; V3 w = er(only(V3(a(0) - g(0), a(1) - g(1), a(2) - g(2)))); V2 b = image(cams[o.second], V3(w(0) + rg(0) + p.t(0) + d[0], w(1) + rg(1) + p.t(1) + d[1], w(2) + rg(2) + p.t(2) + d[2])); y.push_back(b(0)); y.push_back(b(1)); } return y; }, 6); W = mulm(tr(J), J); for (auto& a : W) for (auto& b : a) b /= s; double cond; M want = inverse(W, &cond); if (cond < 1e5) { same("covariance of a body, by small rotations", mat(c), want, 1e-4, sim::fmt("%zu points", X.size())); sim::probe("body, by small rotations"); } }
}
void any() { switch (sim::wl(6)) { case 5: estimated(); break; case 0: poses(); break; case 1: functions(); break; case 2: update(); break; case 3: backward(); break; default: cameras(); } }
}
SCENARIO(chain, 4) { poses(); sim::nontrivial(); }
SCENARIO(function, 4) { functions(); sim::nontrivial(); }
SCENARIO(measure, 3) { update(); sim::nontrivial(); }
SCENARIO(backward, 2) { backward(); sim::nontrivial(); }
SCENARIO(camera, 3) { cameras(); sim::nontrivial(); }
SCENARIO(estimated, 3) { estimated(); sim::nontrivial(); }
SCENARIO(parallel, 2) { int n = 2 + sim::wl(2); sim::sched_random(); for (int i = 0; i < n; i++) sim::spawn([]() { any(); }, "propagation"); sim::join_all(); sim::probe("at once"); sim::nontrivial(); }

// P14: pose filter fed by sensors whose messages are delayed, lost, duplicated and reordered.
#include "sim.h"
#include "os.h"
#include <utTracking/PoseKalmanFilter.h>
#include <utUtil/Exception.h>
#include <math.h>
#include <string.h>
#include <memory>
using namespace Ubitrack; using namespace Ubitrack::Math;
namespace {
typedef long double L;
typedef Vector<double, 3> V3;
typedef Matrix<double, 6, 6> M6;
struct Cfg { int po, oo; bool io; std::vector<double> pn, on; double per; V3 p0, vel, acc, w; Quaternion q0; double noise; M6 cov; uint64_t start; };
Quaternion randq() { double a[4]; double n; do { n = 0; for (int i = 0; i < 4; i++) { a[i] = sim::uniform(sim::WL, -1, 1); n += a[i] * a[i]; } if (n == 0) { a[3] = 1; n = 1; } } while (n < 0.01); n = sqrt(n); return Quaternion(a[0] / n, a[1] / n, a[2] / n, a[3] / n); }
double lg(double a, double b) { return a * pow(b / a, sim::unit(sim::WL)); }
Cfg config(bool track) {
    Cfg c; c.io = sim::wl(3) == 0; c.po = c.io ? sim::wl(2) : sim::wl(4); c.oo = c.io ? 1 : sim::wl(3) == 0 ? 0 : 1; c.per = lg(0.01, c.io ? 0.1 : 0.5);
    for (int i = 0; i <= c.po; i++) c.pn.push_back(track ? lg(0.7, 1.5) : lg(0.3, 3)); for (int i = 0; i <= c.oo; i++) c.on.push_back(track ? lg(0.7, 1.5) : lg(0.3, 3));
    for (int k = 0; k < 3; k++) { c.p0(k) = sim::uniform(sim::WL, -2, 2); c.vel(k) = c.po >= 1 && !c.io ? sim::uniform(sim::WL, -1, 1) : 0; c.acc(k) = c.po >= 2 ? sim::uniform(sim::WL, -0.3, 0.3) : 0; c.w(k) = c.oo >= 1 ? sim::uniform(sim::WL, -0.5, 0.5) : 0; }
    c.q0 = randq(); if (sim::wl(4) == 1) { double n = sqrt(c.q0.x() * c.q0.x() + c.q0.y() * c.q0.y() + c.q0.z() * c.q0.z()), e = pow(10, -1.0 - sim::wl(8)) * (sim::wl(2) ? 1 : -1), l = sqrt(1 - e * e); if (n > 0.1) { c.q0 = Quaternion(c.q0.x() / n * l, c.q0.y() / n * l, c.q0.z() / n * l, e); sim::probe("turned round"); } } c.noise = track ? 0 : lg(1e-3, 0.1);
    c.cov = M6::zeros(); double a = lg(1e-6, 1e-2), b = lg(1e-6, 1e-2); for (int i = 0; i < 6; i++) c.cov(i, i) = (i < 3 ? a : b) * sim::uniform(sim::WL, 0.5, 2);
    if (sim::wl(2)) { double r = sim::uniform(sim::WL, -0.4, 0.4); for (int i = 0; i < 6; i++) for (int j = 0; j < i; j++) if (i / 3 == j / 3) c.cov(i, j) = c.cov(j, i) = r * sqrt(c.cov(i, i) * c.cov(j, j)); }
    c.start = sim::wl(2) ? 1700000000000000000ull : 1 + sim::wl(1000000000); return c;
}
struct Truth { V3 p; Quaternion q; };
Quaternion spin(const V3& w, double t) { double n = sqrt(w(0) * w(0) + w(1) * w(1) + w(2) * w(2)); double s = n * t == 0 ? t / 2 : sin(n * t / 2) / n; return Quaternion(w(0) * s, w(1) * s, w(2) * s, cos(n * t / 2)); }
Truth truth(const Cfg& c, double t) {
    Truth r; Quaternion d = spin(c.w, t); r.q = Quaternion(c.q0 * d);
    if (c.io) { Quaternion R(c.q0 * d * ~c.q0); r.p = R * c.p0; } else for (int k = 0; k < 3; k++) r.p(k) = c.p0(k) + t * c.vel(k) + t * t / 2 * c.acc(k);
    return r;
}
struct Msg { int kind; uint64_t ts; double t; V3 p; Quaternion q; V3 w; };
// the messages of a sensor suite as they arrive: delayed, lost, duplicated, reordered
std::vector<Msg> arrivals(const Cfg& c, int n, bool posesOnly, bool faults) {
    std::vector<Msg> out; std::vector<std::pair<double, Msg> > q; double t = 0.001; double loss = faults ? sim::uniform(sim::WL, 0, 0.4) : 0, dup = faults ? sim::uniform(sim::WL, 0, 0.3) : 0, late = faults ? sim::uniform(sim::WL, 0, 0.3) : 0, gap = faults ? sim::uniform(sim::WL, 0, 0.02) : 0; bool imu = !posesOnly && c.oo >= 1 && sim::wl(2), rot = !posesOnly && sim::wl(2);
    for (int i = 0; i < n; i++) {
        t += c.per * sim::uniform(sim::FA, 0.3, 1.7); if (i > 5 && i < n / 2 && sim::unit(sim::FA) < gap) { t += sim::uniform(sim::FA, 0, c.io ? 0.3 : 3); sim::fault("pause"); }
        Msg m; m.kind = i == 0 ? 0 : rot && sim::wl(3) == 0 ? 1 : imu && sim::wl(3) == 0 ? (c.io ? 3 : 2) : 0; m.ts = c.start + (uint64_t)(t * 1e9); m.t = (double)(m.ts - c.start) * 1e-9; Truth x = truth(c, m.t);
        m.p = x.p; m.q = x.q; m.w = m.kind == 3 ? V3(-(x.q * c.w)) : c.w;
        if (c.noise > 0) { for (int k = 0; k < 3; k++) { m.p(k) += c.noise * sim::gauss(sim::FA); m.w(k) += 0.1 * c.noise * sim::gauss(sim::FA); } V3 e; for (int k = 0; k < 3; k++) e(k) = c.noise * sim::gauss(sim::FA); m.q = Quaternion(m.q * spin(e, 1)); }
        if (sim::unit(sim::FA) < 0.5 && i > 0) m.q = Quaternion(-m.q.x(), -m.q.y(), -m.q.z(), -m.q.w());
        if (i > 3 && sim::unit(sim::FA) < loss) { sim::fault("message-lost"); continue; }
        double at = m.t; if (i > 3 && sim::unit(sim::FA) < late) { at += c.per * sim::uniform(sim::FA, 0, 4); sim::fault("message-delayed"); }
        q.push_back(std::make_pair(at, m)); if (i > 3 && m.kind != 3 && sim::unit(sim::FA) < dup) { q.push_back(std::make_pair(at + c.per * sim::uniform(sim::FA, 0, 3), m)); sim::fault("message-duplicated"); }
    }
    for (size_t i = 1; i < q.size(); i++) for (size_t j = i; j > 0 && q[j].first < q[j - 1].first; j--) std::swap(q[j], q[j - 1]);
    for (size_t i = 1; i < q.size(); i++) if (q[i].second.t < q[i - 1].second.t) sim::probe("out-of-order");
    for (auto& x : q) out.push_back(x.second);
    return out;
}
std::unique_ptr<Tracking::PoseKalmanFilter> make(const Cfg& c) {
    Tracking::LinearPoseMotionModel mm(c.po, c.oo); for (int i = 0; i <= c.po; i++) mm.setPosPN(i, c.pn[i]); for (int i = 0; i <= c.oo; i++) mm.setOriPN(i, c.on[i]);
    return std::unique_ptr<Tracking::PoseKalmanFilter>(new Tracking::PoseKalmanFilter(mm, c.io));
}
void feed(Tracking::PoseKalmanFilter& f, const Cfg& c, const Msg& m, uint64_t off = 0, bool flip = false) {
    uint64_t ts = m.ts + off; Quaternion q = flip ? Quaternion(-m.q.x(), -m.q.y(), -m.q.z(), -m.q.w()) : m.q;
    switch (m.kind) {
    case 0: f.addPoseMeasurement(Measurement::ErrorPose(ts, ErrorPose(q, m.p, c.cov))); break;
    case 1: f.addRotationMeasurement(Measurement::Rotation(ts, q)); break;
    case 2: f.addRotationVelocityMeasurement(Measurement::RotationVelocity(ts, RotationVelocity(m.w(0), m.w(1), m.w(2)))); break;
    default: f.addInverseRotationVelocityMeasurement(Measurement::RotationVelocity(ts, RotationVelocity(m.w(0), m.w(1), m.w(2)))); break;
    }
}
double angle(const Quaternion& a, const Quaternion& b) { double d = 0, x = a.x() - b.x(), y = a.y() - b.y(), z = a.z() - b.z(), w = a.w() - b.w(), X = a.x() + b.x(), Y = a.y() + b.y(), Z = a.z() + b.z(), W = a.w() + b.w(); d = sqrt(std::min(x * x + y * y + z * z + w * w, X * X + Y * Y + Z * Z + W * W)); return 2 * d; }
double dist(const V3& a, const V3& b) { double s = 0; for (int k = 0; k < 3; k++) s += (a(k) - b(k)) * (a(k) - b(k)); return sqrt(s); }
bool bits(const Tracking::PoseKalmanFilter& a, const Tracking::PoseKalmanFilter& b) {
    const auto& x = a.getState(); const auto& y = b.getState(); const auto& X = a.getCovariance(); const auto& Y = b.getCovariance(); if (x.size() != y.size()) return false;
    for (size_t i = 0; i < x.size(); i++) { double u = x(i), v = y(i); if (memcmp(&u, &v, 8)) return false; for (size_t j = 0; j < x.size(); j++) { u = X(i, j); v = Y(i, j); if (memcmp(&u, &v, 8)) return false; } } return true;
}
void invariants(Tracking::PoseKalmanFilter& f, const Cfg& c, uint64_t last) {
    const auto& s = f.getState(); const auto& P = f.getCovariance(); size_t n = s.size(); int iR = 3 * (c.po + 1);
    SIM_CHECK(n == (size_t)(iR + 4 + 3 * c.oo), "state-size", "the state has %zu elements", n);
    double qn = 0; for (int k = 0; k < 4; k++) qn += s(iR + k) * s(iR + k);
    SIM_CHECK(fabs(qn - 1) < 1e-9, "not-unit", "the orientation has squared norm %.12g", qn);
    for (size_t i = 0; i < n; i++) { SIM_CHECK(s(i) - s(i) == 0, "not-finite", "state element %zu is %g", i, (double)s(i)); SIM_CHECK(P(i, i) >= -1e-9 * (1 + fabs(P(i, i))), "negative-variance", "the variance of state element %zu is %g (position order %d, orientation order %d%s)", i, (double)P(i, i), c.po, c.oo, c.io ? ", inside-out" : ""); for (size_t j = 0; j < i; j++) { double tol = 1e-3 * sqrt(fabs(P(i, i) * P(j, j))) + 1e-8; SIM_CHECK(fabs(P(i, j) - P(j, i)) <= tol, "asymmetric", "covariance elements %zu,%zu differ: %g and %g", i, j, (double)P(i, j), (double)P(j, i)); SIM_CHECK(fabs(P(i, j)) <= 1.001 * sqrt(fabs(P(i, i) * P(j, j))) + 1e-8, "not-covariance", "covariance element %zu,%zu is %g with variances %g and %g", i, j, (double)P(i, j), (double)P(i, i), (double)P(j, j)); } }
    // a prediction leaves the filter as it was, and at the time of the last measurement it is the state itself
    Tracking::PoseKalmanFilter copy(f); Measurement::ErrorPose now = f.predictPose(last), then = f.predictPose(last + (uint64_t)(c.per * 1e9 * sim::uniform(sim::WL, -2, 4))); sim::probe("predictions");
    SIM_CHECK(bits(copy, f), "prediction-changed-filter", "predicting a pose changed the state of the filter");
    SIM_CHECK(now.time() == last, "prediction-time", "a prediction for %llu is marked %llu", (unsigned long long)last, (unsigned long long)now.time());
    V3 p; for (int k = 0; k < 3; k++) p(k) = s(k); SIM_CHECK(dist(now->translation(), p) <= 1e-9, "prediction-now", "the pose predicted for the time of the state is %g m away from it", dist(now->translation(), p));
    SIM_CHECK(angle(now->rotation(), Quaternion(s(iR), s(iR + 1), s(iR + 2), s(iR + 3))) <= 1e-7, "prediction-now", "the orientation predicted for the time of the state differs from it");
    {   // its covariance, with the rotation error expressed as q (1 + e): e is the imaginary part of ~q dq
        double J[3][4], x = s(iR), y = s(iR + 1), z = s(iR + 2), w = s(iR + 3); double j[3][4] = {{w, z, -y, -x}, {-z, w, x, -y}, {y, -x, w, -z}}; memcpy(J, j, sizeof J);
        for (int a = 0; a < 6; a++) for (int b = 0; b < 6; b++) { double v = 0, m = 0; for (int k = 0; k < (a < 3 ? 1 : 4); k++) for (int l = 0; l < (b < 3 ? 1 : 4); l++) { double t = (a < 3 ? 1 : J[a - 3][k]) * (b < 3 ? 1 : J[b - 3][l]) * P(a < 3 ? a : iR + k, b < 3 ? b : iR + l); v += t; m += fabs(t); } SIM_CHECK(fabs(now->covariance()(a, b) - v) <= 1e-9 * m + 1e-12, "prediction-covariance", "covariance %d,%d predicted for the time of the state is %.9g, the state says %.9g", a, b, (double)now->covariance()(a, b), v); }
    }
    for (int i = 0; i < 6; i++) SIM_CHECK(then->covariance()(i, i) >= -1e-9, "negative-variance", "a predicted pose has variance %g", (double)then->covariance()(i, i));
}
// exact Kalman filter for the position part, written from the definition, in extended precision
struct Ref {
    int n, ord; std::vector<L> x; std::vector<std::vector<L> > P; std::vector<double> pn; bool init; uint64_t time;
    explicit Ref(const Cfg& c) : n(3 * (c.po + 1)), ord(c.po), x(n, 0), P(n, std::vector<L>(n, 0)), pn(c.pn), init(false), time(0) { for (int i = 0; i < n; i++) P[i][i] = 1; }
    std::vector<std::vector<L> > F(L dt) const { std::vector<std::vector<L> > f(n, std::vector<L>(n, 0)); for (int a = 0; a <= ord; a++) { L c = 1; for (int b = a; b <= ord; b++) { if (b > a) c *= dt / (b - a); for (int k = 0; k < 3; k++) f[3 * a + k][3 * b + k] = c; } } return f; }
    void to(uint64_t t) {
        if (!init) { init = true; time = t; return; } if (t == time) return; L dt = (double)(int64_t)(t - time) * 1e-9; auto f = F(dt); std::vector<L> y(n, 0); std::vector<std::vector<L> > A(n, std::vector<L>(n, 0)), B = A;
        for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) { y[i] += f[i][j] * x[j]; for (int k = 0; k < n; k++) A[i][j] += f[i][k] * P[k][j]; }
        for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) for (int k = 0; k < n; k++) B[i][j] += A[i][k] * f[j][k];
        for (int i = 0; i < n; i++) B[i][i] += fabsl(dt) * (L)pn[i / 3] * pn[i / 3]; x = y; P = B; time = t;
    }
    void meas(const V3& z, const M6& R) {
        L S[3][3], I[3][3]; for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) S[i][j] = P[i][j] + R(i, j);
        L d = S[0][0] * (S[1][1] * S[2][2] - S[1][2] * S[2][1]) - S[0][1] * (S[1][0] * S[2][2] - S[1][2] * S[2][0]) + S[0][2] * (S[1][0] * S[2][1] - S[1][1] * S[2][0]);
        for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) { int a = (j + 1) % 3, b = (j + 2) % 3, e = (i + 1) % 3, g = (i + 2) % 3; I[i][j] = (S[a][e] * S[b][g] - S[a][g] * S[b][e]) / d; }
        std::vector<std::vector<L> > K(n, std::vector<L>(3, 0)), Q = P; L v[3]; for (int k = 0; k < 3; k++) v[k] = z(k) - x[k];
        for (int i = 0; i < n; i++) for (int j = 0; j < 3; j++) for (int k = 0; k < 3; k++) K[i][j] += P[i][k] * I[k][j];
        for (int i = 0; i < n; i++) { for (int k = 0; k < 3; k++) x[i] += K[i][k] * v[k]; for (int j = 0; j < n; j++) for (int k = 0; k < 3; k++) Q[i][j] -= K[i][k] * P[k][j]; } P = Q;
    }
};
// the same for an orientation that is modelled as constant: four numbers of which one is known from the others
struct RefQ {
    L x[4], P[4][4]; double pn; bool init; uint64_t time;
    explicit RefQ(const Cfg& c) : pn(c.on[0]), init(false), time(0) { for (int i = 0; i < 4; i++) for (int j = 0; j < 4; j++) P[i][j] = i == j; x[0] = x[1] = x[2] = 0; x[3] = 1; }
    void step(const Cfg& c, const Msg& m) {
        L z[4] = {m.q.x(), m.q.y(), m.q.z(), m.q.w()}, R[4][4]; if (!init) { init = true; for (int i = 0; i < 4; i++) x[i] = z[i]; } else { L dt = fabsl((double)(int64_t)(m.ts - time) * 1e-9); for (int i = 0; i < 4; i++) P[i][i] += dt * pn * pn; } time = m.ts;
        if (m.kind == 0) { L a = z[0], b = z[1], g = z[2], w = z[3], M[4][4] = {{w, -g, b, a}, {g, w, -a, b}, {-b, a, w, g}, {-a, -b, -g, w}}, C[4][4] = {{0}}; for (int i = 0; i < 3; i++) { for (int j = 0; j < 3; j++) C[i][j] = c.cov(3 + i, 3 + j); C[3][3] += c.cov(3 + i, 3 + i); } for (int i = 0; i < 4; i++) for (int j = 0; j < 4; j++) { R[i][j] = 0; for (int k = 0; k < 4; k++) for (int l = 0; l < 4; l++) R[i][j] += M[i][k] * C[k][l] * M[j][l]; } }
        else for (int i = 0; i < 4; i++) for (int j = 0; j < 4; j++) R[i][j] = i == j ? 0.004L : 0;
        L d = 0; for (int i = 0; i < 4; i++) d += x[i] * z[i]; if (d < 0) for (int i = 0; i < 4; i++) z[i] = -z[i];
        L S[4][8]; for (int i = 0; i < 4; i++) for (int j = 0; j < 8; j++) S[i][j] = j < 4 ? P[i][j] + R[i][j] : j - 4 == i; for (int i = 0; i < 4; i++) { int p = i; for (int k = i; k < 4; k++) if (fabsl(S[k][i]) > fabsl(S[p][i])) p = k; for (int j = 0; j < 8; j++) std::swap(S[i][j], S[p][j]); L f = S[i][i]; for (int j = 0; j < 8; j++) S[i][j] /= f; for (int k = 0; k < 4; k++) if (k != i) { L e = S[k][i]; for (int j = 0; j < 8; j++) S[k][j] -= e * S[i][j]; } }
        L K[4][4], N[4][4], n = 0, y[4]; for (int i = 0; i < 4; i++) for (int j = 0; j < 4; j++) { K[i][j] = 0; for (int k = 0; k < 4; k++) K[i][j] += P[i][k] * S[k][4 + j]; }
        for (int i = 0; i < 4; i++) { y[i] = x[i]; for (int j = 0; j < 4; j++) { y[i] += K[i][j] * (z[j] - x[j]); N[i][j] = P[i][j]; for (int k = 0; k < 4; k++) N[i][j] -= K[i][k] * P[k][j]; } } for (int i = 0; i < 4; i++) n += y[i] * y[i]; n = sqrtl(n);
        L J[4][4]; for (int i = 0; i < 4; i++) { x[i] = y[i] / n; for (int j = 0; j < 4; j++) J[i][j] = ((i == j) - y[i] * y[j] / (n * n)) / n; } for (int i = 0; i < 4; i++) for (int j = 0; j < 4; j++) { P[i][j] = 0; for (int k = 0; k < 4; k++) for (int l = 0; l < 4; l++) P[i][j] += J[i][k] * N[k][l] * J[j][l]; }
    }
};
}
// the position part of an outside-in filter is the textbook filter, whatever arrives in whatever order
SCENARIO(exact, 3) {
    Cfg c; do c = config(false); while (0); if (c.io) { c.io = false; } auto f = make(c); std::unique_ptr<Ref> ref; std::vector<Msg> in; RefQ rq(c); { sim::Rt r; ref.reset(new Ref(c)); } in = arrivals(c, 20 + sim::wl(60), false, sim::wl(4) != 0); sim::sample(sim::fmt("position order %d, orientation order %d, period %.3f s, %zu messages", c.po, c.oo, c.per, in.size()));
    for (auto& m : in) {
        bool first = !ref->init; { sim::Rt r; if (first) for (int k = 0; k < 3; k++) ref->x[k] = m.p(k); ref->to(m.ts); if (m.kind == 0) ref->meas(m.p, c.cov); }
        feed(*f, c, m); invariants(*f, c, m.ts); sim::Rt r; const auto& s = f->getState(); const auto& P = f->getCovariance();
        for (int i = 0; i < ref->n; i++) { L sd = sqrtl(ref->P[i][i]); SIM_CHECK(fabsl(s(i) - ref->x[i]) <= 1e-5L * (fabsl(ref->x[i]) + sd) + 1e-8L, "wrong-state", "derivative %d of coordinate %d is %.9g, the exact filter has %.9Lg (deviation %.3Lg)", i / 3, i % 3, (double)s(i), ref->x[i], sd); for (int j = 0; j < ref->n; j++) SIM_CHECK(fabsl(P(i, j) - ref->P[i][j]) <= 1e-4L * sqrtl(ref->P[i][i] * ref->P[j][j]) + 1e-10L, "wrong-covariance", "covariance %d,%d is %.9g, the exact filter has %.9Lg", i, j, (double)P(i, j), ref->P[i][j]); }
        if (c.oo == 0 && m.kind < 2) { rq.step(c, m); int iR = ref->n; for (int i = 0; i < 4; i++) { SIM_CHECK(fabsl(s(iR + i) - rq.x[i]) <= 1e-6L, "wrong-orientation", "element %d of the orientation is %.9g, the exact filter has %.9Lg", i, (double)s(iR + i), rq.x[i]); for (int j = 0; j < 4; j++) SIM_CHECK(fabsl(P(iR + i, iR + j) - rq.P[i][j]) <= 1e-4L * sqrtl(fabsl(rq.P[i][i] * rq.P[j][j])) + 1e-9L, "wrong-covariance", "covariance %d,%d of the orientation is %.9g, the exact filter has %.9Lg", i, j, (double)P(iR + i, iR + j), rq.P[i][j]); } sim::probe("orientations-compared"); }
        // prediction
        uint64_t t = m.ts + (uint64_t)(int64_t)(c.per * 1e9 * sim::uniform(sim::WL, -2, 5)); Ref q(*ref); q.to(t); Measurement::ErrorPose pp = f->predictPose(t);
        for (int k = 0; k < 3; k++) { SIM_CHECK(fabsl(pp->translation()(k) - q.x[k]) <= 1e-5L * (fabsl(q.x[k]) + sqrtl(q.P[k][k])) + 1e-8L, "wrong-prediction", "coordinate %d is predicted as %.9g, exact %.9Lg", k, (double)pp->translation()(k), q.x[k]); for (int j = 0; j < 3; j++) SIM_CHECK(fabsl(pp->covariance()(k, j) - q.P[k][j]) <= 1e-4L * sqrtl(q.P[k][k] * q.P[j][j]) + 1e-10L, "wrong-prediction", "predicted covariance %d,%d is %.9g, exact %.9Lg", k, j, (double)pp->covariance()(k, j), q.P[k][j]); }
        sim::probe("steps-compared");
    }
    sim::nontrivial();
}
// an object that moves as the motion model says is followed: the prediction converges to its true pose
SCENARIO(track, 3) {
    Cfg c = config(true); auto f = make(c); std::vector<Msg> in = arrivals(c, 260, sim::wl(2), sim::wl(4) != 0); sim::sample(sim::fmt("%s, position order %d, orientation order %d, period %.3f s, %zu messages", c.io ? "inside-out" : "outside-in", c.po, c.oo, c.per, in.size()));
    size_t n = 0; double pe = 0, ae = 0;
    for (auto& m : in) {
        n++; if (n > in.size() - 10) { Truth x = truth(c, m.t); Measurement::ErrorPose p = f->predictPose(m.ts); pe = std::max(pe, dist(p->translation(), x.p)); ae = std::max(ae, angle(p->rotation(), x.q)); }
        bool look = n > 1 && m.kind < 2; double before = look ? angle(f->predictPose(m.ts)->rotation(), m.q) : 0;
        feed(*f, c, m); if (n % 8 == 0) invariants(*f, c, m.ts);
        if (look) { const auto& s = f->getState(); int iR = 3 * (c.po + 1); double after = angle(Quaternion(s(iR), s(iR + 1), s(iR + 2), s(iR + 3)), m.q); SIM_CHECK(after <= 1.5 * before + 0.1, "away", "a measurement %g rad from the prediction moved the orientation to %g rad from the measurement", before, after); }
    }
    SIM_CHECK(pe <= 0.05 && ae <= 0.05, "lost-track", "after %zu measurements without noise the predicted pose is %.4g m and %.4g rad off", in.size(), pe, ae);
    sim::probe("tracked"); sim::nontrivial();
}
// the same history at another time, or with the other sign of every quaternion, gives the same poses; other threads do not matter
SCENARIO(same, 2) {
    int nt = 1 + sim::wl(2); if (nt > 1) sim::sched_random(); std::vector<Cfg> cs; std::vector<std::vector<Msg> > hs; for (int i = 0; i < nt; i++) { cs.push_back(config(sim::wl(2))); hs.push_back(arrivals(cs[i], 6 + sim::wl(20), false, true)); }
    std::vector<std::unique_ptr<Tracking::PoseKalmanFilter> > seq, par(nt); for (int i = 0; i < nt; i++) { seq.push_back(make(cs[i])); try { seq[i]->predictPose(5); sim::fail("not-initialised", "a filter without measurements predicted a pose"); } catch (const Ubitrack::Util::Exception&) { } for (auto& m : hs[i]) feed(*seq[i], cs[i], m); }
    uint64_t off = sim::wl(2) ? 0 : 1 + sim::wl(1000000000) * 1000ull;
    for (int i = 0; i < nt; i++) sim::spawn([&, i]() { par[i] = make(cs[i]); for (auto& m : hs[i]) { feed(*par[i], cs[i], m, off); if (sim::wl(4) == 0) par[i]->predictPose(m.ts + off + sim::wl(1000000000)); } }, "tracker");
    sim::join_all();
    for (int i = 0; i < nt; i++) SIM_CHECK(bits(*seq[i], *par[i]), "not-reproducible", "the same measurements %s gave another state", off ? "at another time" : "on another thread");
    { auto f = make(cs[0]); for (auto& m : hs[0]) feed(*f, cs[0], m, 0, true); uint64_t t = hs[0].back().ts + sim::wl(100000000); Measurement::ErrorPose a = seq[0]->predictPose(t), b = f->predictPose(t); SIM_CHECK(dist(a->translation(), b->translation()) <= 1e-9 && angle(a->rotation(), b->rotation()) <= 1e-7, "sign-matters", "negating all quaternions moved the predicted pose by %g m and %g rad", dist(a->translation(), b->translation()), angle(a->rotation(), b->rotation())); }
    sim::probe("histories-repeated"); sim::nontrivial();
}

// P30: poses between, after and beside the measurements. A body moves uniformly; its measurements are delivered with faults, interpolated, extrapolated and passed on in changing representations.
#include "catalog.h"
#include <utMath/RotationVelocity.h>
#include <utMeasurement/Measurement.h>
namespace {
using namespace cat;
typedef Measurement::Timestamp TS;
double dot(const Q& a, const Q& b) { return a.x() * b.x() + a.y() * b.y() + a.z() * b.z() + a.w() * b.w(); }
// angle between two rotations, accurate for small and for large ones
double away(const Q& a, const Q& b) { Q d = mul(Q(-a.x(), -a.y(), -a.z(), a.w()), b); double s = sqrt(d.x() * d.x() + d.y() * d.y() + d.z() * d.z()); double l = dot(b, b); if (!(l > 0.5 && l < 2)) return 9; return 2 * atan2(s, fabs(d.w())); }
double apart(const V3& a, const V3& b) { double s = 0; for (int i = 0; i < 3; i++) s += (a(i) - b(i)) * (a(i) - b(i)); return s == s ? sqrt(s) : 9; }
std::string show(const Q& q) { return sim::fmt("(%.17g %.17g %.17g %.17g)", q.x(), q.y(), q.z(), q.w()); }
// rotations where representations have their difficulties
Q awkward() {
    switch (sim::wl(8)) {
    case 0: sim::probe("no rotation"); return Q(0, 0, 0, sim::wl(2) ? 1 : -1);
    case 1: { sim::probe("hardly any rotation"); double a = pow(10, -1.0 - sim::wl(16)); Q q = rrot(a, a); return q; }
    case 2: { P p; p.q = Q(0, 0, 0, 1); int k = 0; while (p.q.w() == 1 && k++ < 40) halfturn(p, 3.1); if (k > 40) p.q = Q(0, 1, 0, 0); return p.q; }
    case 3: case 4: { sim::probe("axes aligned"); double h = (sim::wl(2) ? 1 : -1) * M_PI / 2; if (sim::wl(4)) h += (sim::wl(2) ? 1 : -1) * pow(10, -(double)sim::wl(16)) * uni(0.05, 0.5); Q e[3] = {axisangle(1, 0, 0, 0), Q(0, 0, 0, 1), Q(0, 0, 0, 1)}; int a = sim::wl(3), b = (a + 1 + sim::wl(2)) % 3, c = sim::wl(2) ? a : 3 - a - b; double g = uni(-M_PI, M_PI), f = sim::wl(2) ? 0 : uni(-M_PI, M_PI); e[0] = axisangle(a == 0, a == 1, a == 2, f); e[1] = axisangle(b == 0, b == 1, b == 2, h); e[2] = axisangle(c == 0, c == 1, c == 2, g); return mul(e[0], mul(e[1], e[2])); }
    default: return rrot(0, M_PI);
    }
}
// ---- a uniformly moving body: constant velocity and constant rotation in body coordinates
struct Body { Q q0; V3 p0, v, w; TS t0; };
double sec(TS a, TS b) { return (double)(long long)(b - a) * 1e-9; }
Q turned(const V3& w, double s) { double a = sqrt(w(0) * w(0) + w(1) * w(1) + w(2) * w(2)); return a > 0 ? axisangle(w(0), w(1), w(2), a * s) : Q(0, 0, 0, 1); }
P where(const Body& b, TS t) { P r; double s = sec(b.t0, t); r.q = mul(b.q0, turned(b.w, s)); for (int i = 0; i < 3; i++) r.t(i) = b.p0(i) + b.v(i) * s; return r; }
typedef um::Matrix<double, 6, 6> C6;
struct Held { TS t; Measurement::Pose pose; Measurement::ErrorPose err; Measurement::Rotation rot; Measurement::Position pos; C6 c; };
struct Track { Body b; std::vector<Held> h; TS lo, hi; };
C6 spread6() { double l[6][6]; for (int i = 0; i < 6; i++) for (int j = 0; j < 6; j++) l[i][j] = uni(-0.1, 0.1); C6 c; for (int i = 0; i < 6; i++) for (int j = 0; j < 6; j++) { c(i, j) = 0; for (int k = 0; k < 6; k++) c(i, j) += l[i][k] * l[j][k]; } return c; }
Track track() {
    Track t; t.b.q0 = awkward(); t.b.p0 = rvec(5); t.b.v = rvec(3); double a = sim::wl(4) == 1 ? 0 : pow(10, -(double)sim::wl(8)) * uni(0, 20); V3 ax = rvec(1); double l = sqrt(ax(0) * ax(0) + ax(1) * ax(1) + ax(2) * ax(2)) + 1e-9; for (int i = 0; i < 3; i++) t.b.w(i) = ax(i) / l * a; t.b.t0 = 1000000000ull + (uint64_t)sim::wl(1000) * 1500000000000000ull;
    int n = 3 + sim::wl(10); TS period = 1000000ull * (1 + sim::wl(200)), at = t.b.t0; std::vector<TS> ts; for (int i = 0; i < n; i++) { ts.push_back(at); TS j = sim::draw(sim::FA, 1000) * (period / 2000); if (j) sim::fault("measured-late"); at += period / 2 + j + 1; }
    std::vector<int> d = deliver(n, 2); std::vector<Held> in; for (int i : d) { Held h; h.t = ts[i]; P p = where(t.b, h.t); if (sim::chance(sim::FA, 1, 3)) { p.q = neg(p.q); sim::fault("quaternion-sign"); } h.c = spread6(); h.pose = Measurement::Pose(h.t, p.pose()); h.err = Measurement::ErrorPose(h.t, um::ErrorPose(p.q, p.t, h.c)); h.rot = Measurement::Rotation(h.t, p.q); h.pos = Measurement::Position(h.t, p.t); in.push_back(h); }
    std::stable_sort(in.begin(), in.end(), [](const Held& a, const Held& b) { return a.t < b.t; }); for (auto& h : in) if (t.h.empty() || t.h.back().t != h.t) t.h.push_back(h); t.lo = t.h.front().t; t.hi = t.h.back().t; return t;
}
void resample(const Track& tr, int queries) {
    for (int k = 0; k < queries; k++) {
        if (tr.h.size() < 2) return; size_t i = sim::wl((uint32_t)tr.h.size() - 1); const Held &a = tr.h[i], &b = tr.h[i + 1]; TS span = b.t - a.t, at = a.t + (sim::wl(5) == 1 ? 0 : sim::wl(5) == 1 ? span : (TS)(uni(0, 1) * span)); double f = (double)(at - a.t) / (double)span, turn = sqrt(tr.b.w(0) * tr.b.w(0) + tr.b.w(1) * tr.b.w(1) + tr.b.w(2) * tr.b.w(2)) * sec(a.t, b.t);
        bool known = turn < M_PI - 1e-3; P truth = where(tr.b, at); Q want = truth.q;
        if (!known) { sim::Rt r; double d = fabs(dot(*a.rot, *b.rot)); if (d < 1e-3) { sim::probe("too far apart"); continue; } Q y = dot(*a.rot, *b.rot) < 0 ? neg(*b.rot) : *b.rot, e = mul(Q(-a.rot->x(), -a.rot->y(), -a.rot->z(), a.rot->w()), y); double s = sqrt(e.x() * e.x() + e.y() * e.y() + e.z() * e.z()), g = 2 * atan2(s, e.w()); want = s > 1e-12 ? mul(*a.rot, axisangle(e.x(), e.y(), e.z(), g * f)) : *a.rot; sim::probe("the shorter way"); }
        int kind = sim::wl(5); Q q(0, 0, 0, 1); V3 p = truth.t; const char* what = "rotation"; C6 c;
        if (kind == 0) q = um::linearInterpolate(*a.rot, *b.rot, f);
        else if (kind == 1) { um::Pose r = um::linearInterpolate(*a.pose, *b.pose, f); q = r.rotation(); p = r.translation(); what = "pose"; }
        else if (kind == 2) { um::ErrorPose r = um::linearInterpolate(*a.err, *b.err, f); q = r.rotation(); p = r.translation(); c = r.covariance(); what = "uncertain pose"; }
        else if (kind == 3) { p = um::linearInterpolate(*a.pos, *b.pos, f); q = want; what = "position"; }
        else { std::vector<um::Pose> x, y; int n = 1 + sim::wl(3), s = sim::wl(n); for (int m = 0; m < n; m++) { x.push_back(m == s ? *a.pose : rpose(2).pose()); y.push_back(m == s ? *b.pose : rpose(2).pose()); } std::vector<um::Pose> r = um::linearInterpolate(x, y, f); SIM_CHECK((int)r.size() == n, "list", "%d poses are interpolated to %zu", n, r.size()); q = r[s].rotation(); p = r[s].translation(); what = "pose of a list"; }
        sim::Rt r; double d = away(want, q), l = dot(q, q), e = apart(p, truth.t), tol = away(*a.rot, *b.rot) > 0.04 ? 1e-8 : 1e-6;   // a straight line will do for small angles
        SIM_CHECK(d <= tol, "rotation", "%s %.9g of the way from %s to %s is %s, %g rad from the motion", what, f, show(*a.rot).c_str(), show(*b.rot).c_str(), show(q).c_str(), d); SIM_CHECK(fabs(l - 1) < 1e-9, "length", "%s %.9g of the way has a rotation of length %.12g", what, f, sqrt(l)); SIM_CHECK(e <= 1e-9, "position", "%s %.9g of the way is %g off the motion", what, f, e);
        if (kind == 2) for (int i = 0; i < 6; i++) for (int j = 0; j < 6; j++) { double w = (1 - f) * (1 - f) * a.c(i, j) + f * f * b.c(i, j); SIM_CHECK(fabs(c(i, j) - w) < 1e-12, "covariance", "the covariance %.9g of the way is %.12g instead of %.12g at %d, %d", f, c(i, j), w, i, j); }
        sim::mix(sim::fnv(&f, sizeof f)); sim::probe(what); if (f == 0 || f == 1) sim::probe("at a measurement");
    }
}
void velocity(const Track& tr, int queries) {
    for (int k = 0; k < queries; k++) {
        if (tr.h.size() < 2) return; size_t i = sim::wl((uint32_t)tr.h.size() - 1), j = i + 1 + sim::wl((uint32_t)(tr.h.size() - i - 1)); if (sim::wl(4) == 1) std::swap(i, j); const Held &a = tr.h[i], &b = tr.h[j]; double s = sec(a.t, b.t), w = sqrt(tr.b.w(0) * tr.b.w(0) + tr.b.w(1) * tr.b.w(1) + tr.b.w(2) * tr.b.w(2)); if (w * fabs(s) > M_PI - 1e-3) { sim::probe("turned too far"); continue; }
        um::RotationVelocity v(*a.rot, *b.rot, s); double len = v.angularVelocity(); V3 ax = v.axis(); double noise = 1e-7 / fabs(s) + 1e-9 * w; { sim::Rt r; V3 x(v(0), v(1), v(2)); double d = apart(x, tr.b.w), u = sqrt(ax(0) * ax(0) + ax(1) * ax(1) + ax(2) * ax(2)); SIM_CHECK(d <= noise, "velocity", "the rotation velocity over %g s is (%.12g %.12g %.12g) instead of (%.12g %.12g %.12g)", s, v(0), v(1), v(2), tr.b.w(0), tr.b.w(1), tr.b.w(2)); SIM_CHECK(fabs(len - sqrt(v(0) * v(0) + v(1) * v(1) + v(2) * v(2))) <= 1e-12 * (1 + w), "speed", "the angular velocity of (%.12g %.12g %.12g) is %.12g", v(0), v(1), v(2), len); if (len > 0) { for (int m = 0; m < 3; m++) SIM_CHECK(fabs(ax(m) * len - v(m)) <= 1e-12 * (1 + w), "axis", "the axis is %.12g instead of %.12g", ax(m), v(m) / len); SIM_CHECK(fabs(u - 1) < 1e-9, "axis", "the axis has length %.12g", u); } else SIM_CHECK(u == 0, "axis", "a resting body has an axis of length %.12g", u); }
        double ahead = sim::wl(4) == 1 ? 0 : uni(-2, 2) * fabs(s); Q q = mul(*a.rot, v.integrate(ahead)); sim::Rt r; TS at = a.t + (TS)(long long)llround(ahead * 1e9); Q want = where(tr.b, at).q; double d = away(want, q); SIM_CHECK(d <= 5e-7 + w * 2e-9, "extrapolated", "%g s from a measurement the rotation is %g rad off the motion", ahead, d); sim::probe(s < 0 ? "velocity, backwards" : "velocity");
    }
}
// ---- a rotation handed from party to party, each in its own representation
Q euler(int seq, const um::Vector<double, 3>& e) { static const int o[6][3] = {{0, 1, 2}, {1, 2, 0}, {2, 0, 1}, {2, 1, 0}, {0, 2, 1}, {1, 0, 2}}; Q q(0, 0, 0, 1); for (int k = 0; k < 3; k++) { int a = o[seq][k]; q = mul(axisangle(a == 0, a == 1, a == 2, e(k)), q); } return q; }
void relay(int hops) {
    Q q = awkward(); const Q truth = q; double tol = 1e-9; std::string path;
    for (int k = 0; k < hops; k++) {
        Q b = q; int how = sim::wl(14); const char* what = ""; double cost = 1e-9;
        if (sim::chance(sim::FA, 1, 5)) { q = neg(q); sim::fault("quaternion-sign"); }
        if (sim::chance(sim::FA, 1, 6)) { double s = 1 + (sim::wl(3) - 1.0) * 2.3e-16 * (1 + sim::wl(4)); q = Q(q.x() * s, q.y() * s, q.z() * s, q.w() * s); sim::fault("rounding"); }
        switch (how) {
        case 0: { what = "matrix"; um::Matrix<double, 3, 3> m; q.toMatrix(m); b = Q(um::Matrix<double, 0, 0>(m)); cost = 1e-7; break; }
        case 1: { what = "pose matrix"; V3 t = rvec(3); um::Matrix<double, 4, 4> m(um::Pose(q, t)); um::Pose p((um::Matrix<double, 0, 0>(m))); b = p.rotation(); V3 u(p.translation()); sim::Rt r; SIM_CHECK(apart(u, t) < 1e-12, "position", "a pose made of its matrix is elsewhere"); cost = 1e-7; break; }
        case 2: { what = "logarithm"; b = Q::fromLogarithm(q.toLogarithm()); cost = 1e-7; break; }
        case 3: { what = "axis and angle"; V3 a; double g; Q n(q); n.normalize(); n.toAxisAngle(a, g); b = Q(a, g); cost = 1e-7; break; }
        case 4: { what = "axis and angle, single precision"; um::Vector<float, 3> a; float g; Q n(q); n.normalize(); n.toAxisAngle(a, g); b = Q(V3(a(0), a(1), a(2)), g); cost = 2e-6; break; }
        case 5: { what = "four numbers"; um::Vector<double, 4> v; q.toVector(v); b = Q::fromVector(v); break; }
        case 6: { what = "seven numbers"; V3 t = rvec(3); um::Vector<double, 7> v; um::Pose(q, t).toVector(v); um::Pose p = um::Pose::fromVector(v); b = p.rotation(); V3 u(p.translation()); sim::Rt r; SIM_CHECK(apart(u, t) == 0, "position", "a pose made of its vector is elsewhere"); break; }
        case 7: { what = "additive errors"; V3 t = rvec(3); C6 c = spread6(); Q n(q); n.normalize(); um::ErrorVector<double, 7> v; um::ErrorPose(n, t, c).toAdditiveErrorVector(v); um::ErrorPose p = um::ErrorPose::fromAdditiveErrorVector(v); b = p.rotation(); V3 u(p.translation()); sim::Rt r; SIM_CHECK(apart(u, t) == 0, "position", "a pose made of its error vector is elsewhere"); for (int i = 0; i < 6; i++) for (int j = 0; j < 6; j++) SIM_CHECK(fabs(p.covariance()(i, j) - c(i, j)) < 1e-12, "covariance", "the covariance of a pose made of its error vector is %.12g instead of %.12g at %d, %d", p.covariance()(i, j), c(i, j), i, j); break; }
        case 8: { what = "Euler angles"; um::Vector<double, 3> e = q.getEulerAngles(); b = mul(axisangle(0, 0, 1, e(2)), mul(axisangle(0, 1, 0, e(1)), axisangle(1, 0, 0, e(0)))); cost = 3e-5; break; }
        case 9: { what = "rotation from x"; um::RotationVelocity v(Q(0, 0, 0, 1), q, 1); b = v.integrate(1); cost = 1e-7; break; }
        default: { static const char* n[6] = {"Euler angles, x y z", "Euler angles, y z x", "Euler angles, z x y", "Euler angles, z y x", "Euler angles, x z y", "Euler angles, y x z"}; int s = sim::wl(6); what = n[s]; um::Vector<double, 3> e = q.getEulerAngles((Q::t_EulerSequence)s); b = euler(s, e); cost = 3e-5; break; }
        }
        double g = q.angle(), z = mul(q, Q(-q.x(), -q.y(), -q.z(), q.w())).angle(); Q near = q.negateIfCloser(b);
        sim::Rt r; tol += cost; double d = away(b, truth), ga = away(q, Q(0, 0, 0, 1)); SIM_CHECK(d <= tol, "meaning", "a rotation %s passed on by %s becomes %s, %g rad away", show(q).c_str(), what, show(b).c_str(), d); SIM_CHECK(fabs(g - ga) < 5e-7, "angle", "the angle of the rotation %s is %.12g instead of %.12g", show(q).c_str(), g, ga); SIM_CHECK(z < 5e-7, "angle", "the angle between a rotation and itself is %.12g", z); SIM_CHECK(dot(near, b) >= 0 && away(near, q) < 1e-12, "nearer", "the sign of a rotation is not that closer to the other");
        sim::probe(what); q = b;
    }
    sim::nontrivial();
}
}
SCENARIO(between, 3) { Track t; { sim::Rt r; turn = 0; t = track(); } resample(t, 1 + sim::wl(12)); sim::nontrivial(); }
SCENARIO(ahead, 2) { Track t; { sim::Rt r; turn = 0; t = track(); } velocity(t, 1 + sim::wl(8)); sim::nontrivial(); }
SCENARIO(passed_on, 3) { { sim::Rt r; turn = 0; } relay(1 + sim::wl(6)); }
SCENARIO(at_once, 2) {        // several readers of the same measurements
    Track* t = new Track; { sim::Rt r; turn = 0; *t = track(); } sim::sched_random(); int n = 2 + sim::wl(3); for (int i = 0; i < n; i++) { int what = sim::wl(3); sim::spawn([t, what, i]() { turn = 1000 * (i + 1); if (what == 0) resample(*t, 3); else if (what == 1) velocity(*t, 3); else relay(3); }, "reader"); } sim::join_all(); delete t; sim::probe("at once"); sim::nontrivial();
}

// P15: rotation filter fed by rotation and rotation velocity sensors with faulty delivery.
#include "sim.h"
#include "os.h"
#include <utTracking/RotationOnlyKF.h>
#include <math.h>
#include <string.h>
#include <memory>
using namespace Ubitrack; using namespace Ubitrack::Math;
namespace {
typedef Vector<double, 3> V3;
struct Cfg { double per; V3 w; Quaternion q0; double noise; uint64_t start; bool imu; };
double lg(double a, double b) { return a * pow(b / a, sim::unit(sim::WL)); }
Quaternion randq() { double a[4], n = 0; for (int i = 0; i < 4; i++) { a[i] = sim::uniform(sim::WL, -1, 1); n += a[i] * a[i]; } if (n < 0.01) { a[3] = 1; n = a[0] * a[0] + a[1] * a[1] + a[2] * a[2] + 1; } n = sqrt(n); return Quaternion(a[0] / n, a[1] / n, a[2] / n, a[3] / n); }
Cfg config(bool track) { Cfg c; c.per = lg(0.01, 0.3); for (int k = 0; k < 3; k++) c.w(k) = sim::uniform(sim::WL, -1, 1); c.q0 = randq(); c.noise = track ? 0 : lg(1e-3, 0.1); c.start = sim::wl(2) ? 1700000000000000000ull : 1 + sim::wl(1000000000); c.imu = sim::wl(2); return c; }
Quaternion spin(const V3& w, double t) { double n = sqrt(w(0) * w(0) + w(1) * w(1) + w(2) * w(2)); double s = n * t == 0 ? t / 2 : sin(n * t / 2) / n; return Quaternion(w(0) * s, w(1) * s, w(2) * s, cos(n * t / 2)); }
Quaternion truth(const Cfg& c, double t) { return Quaternion(c.q0 * spin(c.w, t)); }
struct Msg { int kind; uint64_t ts; double t; Quaternion q; V3 w; };
std::vector<Msg> arrivals(const Cfg& c, int n, bool faults) {
    std::vector<Msg> out; std::vector<std::pair<double, Msg> > q; double t = 0.001; double loss = faults ? sim::uniform(sim::WL, 0, 0.4) : 0, dup = faults ? sim::uniform(sim::WL, 0, 0.3) : 0, late = faults ? sim::uniform(sim::WL, 0, 0.3) : 0, gap = faults ? sim::uniform(sim::WL, 0, 0.02) : 0;
    for (int i = 0; i < n; i++) {
        t += c.per * sim::uniform(sim::FA, 0.3, 1.7); if (i > 5 && i < n / 2 && sim::unit(sim::FA) < gap) { t += sim::uniform(sim::FA, 0, 2); sim::fault("pause"); }
        Msg m; m.kind = i > 0 && c.imu && sim::wl(2) ? 1 : 0; m.ts = c.start + (uint64_t)(t * 1e9); m.t = (double)(m.ts - c.start) * 1e-9; m.q = truth(c, m.t); m.w = c.w;
        if (c.noise > 0) { V3 e; for (int k = 0; k < 3; k++) { e(k) = c.noise * sim::gauss(sim::FA); m.w(k) += 0.1 * c.noise * sim::gauss(sim::FA); } m.q = Quaternion(m.q * spin(e, 1)); }
        if (sim::unit(sim::FA) < 0.5 && i > 0) m.q = Quaternion(-m.q.x(), -m.q.y(), -m.q.z(), -m.q.w());
        if (i > 3 && sim::unit(sim::FA) < loss) { sim::fault("message-lost"); continue; }
        double at = m.t; if (i > 3 && sim::unit(sim::FA) < late) { at += c.per * sim::uniform(sim::FA, 0, 4); sim::fault("message-delayed"); }
        q.push_back(std::make_pair(at, m)); if (i > 3 && sim::unit(sim::FA) < dup) { q.push_back(std::make_pair(at + c.per * sim::uniform(sim::FA, 0, 3), m)); sim::fault("message-duplicated"); }
    }
    for (size_t i = 1; i < q.size(); i++) for (size_t j = i; j > 0 && q[j].first < q[j - 1].first; j--) std::swap(q[j], q[j - 1]);
    for (size_t i = 1; i < q.size(); i++) if (q[i].second.t < q[i - 1].second.t) sim::probe("out-of-order");
    for (auto& x : q) out.push_back(x.second);
    return out;
}
void feed(Tracking::RotationOnlyKF& f, const Msg& m, uint64_t off = 0, bool flip = false) {
    uint64_t ts = m.ts + off; if (m.kind == 0) f.addRotationMeasurement(Measurement::Rotation(ts, flip ? Quaternion(-m.q.x(), -m.q.y(), -m.q.z(), -m.q.w()) : m.q)); else f.addVelocityMeasurement(Measurement::RotationVelocity(ts, RotationVelocity(m.w(0), m.w(1), m.w(2))));
}
double angle(const Quaternion& a, const Quaternion& b) { double x = a.x() - b.x(), y = a.y() - b.y(), z = a.z() - b.z(), w = a.w() - b.w(), X = a.x() + b.x(), Y = a.y() + b.y(), Z = a.z() + b.z(), W = a.w() + b.w(); return 2 * sqrt(std::min(x * x + y * y + z * z + w * w, X * X + Y * Y + Z * Z + W * W)); }
bool bits(const Tracking::RotationOnlyKF& a, const Tracking::RotationOnlyKF& b) { for (int i = 0; i < 7; i++) { double u = a.getState()(i), v = b.getState()(i); if (memcmp(&u, &v, 8)) return false; } return true; }
void invariants(Tracking::RotationOnlyKF& f, const Cfg& c, uint64_t last) {
    const auto& s = f.getState(); double n = 0; for (int i = 0; i < 7; i++) { SIM_CHECK(s(i) - s(i) == 0, "not-finite", "state element %d is %g", i, (double)s(i)); if (i < 4) n += s(i) * s(i); } SIM_CHECK(fabs(n - 1) < 1e-9, "not-unit", "the rotation has squared norm %.12g", n);
    std::vector<double> before; { sim::Rt r; for (int i = 0; i < 7; i++) before.push_back(s(i)); } Quaternion cur(s(0), s(1), s(2), s(3)); V3 w; for (int k = 0; k < 3; k++) w(k) = s(4 + k);
    double dt = c.per * sim::uniform(sim::WL, -3, 6); if (sim::wl(3) == 0) dt = 0; uint64_t t = last + (uint64_t)(int64_t)(dt * 1e9); Measurement::Rotation r = f.predict(t); double d = (double)(int64_t)(t - last) * 1e-9;
    for (int i = 0; i < 7; i++) { double v = s(i); SIM_CHECK(memcmp(&v, &before[i], 8) == 0, "prediction-changed-filter", "predicting a rotation changed the state"); }
    SIM_CHECK(r.time() == t, "prediction-time", "a prediction for %llu is marked %llu", (unsigned long long)t, (unsigned long long)r.time());
    SIM_CHECK(angle(*r, Quaternion(cur * spin(w, d))) <= 1e-6, "wrong-prediction", "the rotation predicted %.3f s %s the last measurement is %.4g rad off the one given by rotation and velocity", fabs(d), d < 0 ? "before" : "after", angle(*r, Quaternion(cur * spin(w, d)))); sim::probe(d < 0 ? "predicted-back" : "predicted");
}
}
SCENARIO(track, 3) {
    Cfg c = config(true); std::unique_ptr<Tracking::RotationOnlyKF> f(new Tracking::RotationOnlyKF); std::vector<Msg> in = arrivals(c, 300, sim::wl(4) != 0); sim::sample(sim::fmt("period %.3f s, %s, %zu messages", c.per, c.imu ? "with velocities" : "rotations only", in.size())); size_t n = 0; double ae = 0, ve = 0;
    for (auto& m : in) { n++; if (n > in.size() - 10) { ae = std::max(ae, angle(*f->predict(m.ts), truth(c, m.t))); for (int k = 0; k < 3; k++) ve = std::max(ve, fabs(f->getState()(4 + k) - c.w(k))); } feed(*f, m); if (n % 4 == 0) invariants(*f, c, m.ts); }
    SIM_CHECK(ae <= 0.03 && ve <= 0.1, "lost-track", "after %zu measurements without noise the predicted rotation is %.4g rad and the velocity %.4g rad/s off (period %.4f, %d)", in.size(), ae, ve, c.per, c.imu);
    sim::probe("tracked"); sim::nontrivial();
}
SCENARIO(noisy, 2) {       // with noisy sensors the estimate stays near the truth
    Cfg c = config(false); std::unique_ptr<Tracking::RotationOnlyKF> f(new Tracking::RotationOnlyKF); std::vector<Msg> in = arrivals(c, 150, sim::wl(4) != 0); size_t n = 0;
    for (auto& m : in) { n++; feed(*f, m); invariants(*f, c, m.ts); if (n > in.size() / 2 + 10) { double a = angle(*f->predict(m.ts), truth(c, m.t)); SIM_CHECK(a <= 0.6 + 8 * c.noise, "far-off", "the estimate is %.4g rad off with a sensor noise of %.4g rad", a, c.noise); } }
    sim::probe("noisy-runs"); sim::nontrivial();
}
SCENARIO(same, 2) {
    int nt = 1 + sim::wl(2); if (nt > 1) sim::sched_random(); std::vector<Cfg> cs; std::vector<std::vector<Msg> > hs; for (int i = 0; i < nt; i++) { cs.push_back(config(sim::wl(2))); hs.push_back(arrivals(cs[i], 6 + sim::wl(20), true)); }
    std::vector<std::unique_ptr<Tracking::RotationOnlyKF> > seq, par(nt); for (int i = 0; i < nt; i++) { seq.push_back(std::unique_ptr<Tracking::RotationOnlyKF>(new Tracking::RotationOnlyKF)); Measurement::Rotation r = seq[i]->predict(1 + sim::wl(1000000000)); SIM_CHECK(angle(*r, Quaternion(0, 0, 0, 1)) <= 1e-9, "start", "a filter without measurements predicts a rotation other than identity"); for (auto& m : hs[i]) feed(*seq[i], m); }
    uint64_t off = sim::wl(2) ? 0 : 1 + sim::wl(1000000000) * 1000ull;
    for (int i = 0; i < nt; i++) sim::spawn([&, i]() { par[i].reset(new Tracking::RotationOnlyKF); for (auto& m : hs[i]) { feed(*par[i], m, off); if (sim::wl(4) == 0) par[i]->predict(m.ts + off + sim::wl(1000000000)); } }, "tracker");
    sim::join_all();
    for (int i = 0; i < nt; i++) SIM_CHECK(bits(*seq[i], *par[i]), "not-reproducible", "the same measurements %s gave another state", off ? "at another time" : "on another thread");
    { Tracking::RotationOnlyKF f; for (auto& m : hs[0]) feed(f, m, 0, true); uint64_t t = hs[0].back().ts + sim::wl(100000000); double a = angle(*seq[0]->predict(t), *f.predict(t)); SIM_CHECK(a <= 1e-7, "sign-matters", "negating all quaternions moved the predicted rotation by %g rad", a); }
    sim::probe("histories-repeated"); sim::nontrivial();
}

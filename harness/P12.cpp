// P12: sensor clock synchronisation under jitter, outliers, gaps, duplicates, reordering and clock steps.
#include "sim.h"
#include "os.h"
#include <utMeasurement/TimestampSync.h>
#include <math.h>
#include <algorithm>
using namespace Ubitrack;
namespace {
typedef Measurement::Timestamp TS;
struct Cfg { double f0, f, per, irr, J; uint64_t start; double nat0; bool viaclock; };
Cfg config() {
    static const double fs[] = {1, 60, 1e3, 1e6, 24.5e6, 1e9}; Cfg c; c.f0 = fs[sim::wl(6)]; c.f = c.f0 * (sim::wl(2) ? 1 + sim::uniform(sim::WL, -1e-4, 1e-4) : sim::uniform(sim::WL, 0.7, 1.5));
    c.per = sim::uniform(sim::WL, 0.005, 0.2); c.irr = sim::wl(2) ? sim::uniform(sim::WL, 0, 0.9) : 0; c.J = sim::wl(3) == 0 ? 0 : sim::uniform(sim::WL, 0, 0.02);
    c.start = 1000000000ull * (sim::wl(2) ? 1600000000ull : 1000ull + sim::wl(1000000)); c.nat0 = sim::uniform(sim::WL, 0, 1e5) * c.f; c.viaclock = sim::wl(2); return c;
}
struct Sensor {
    Cfg c; Measurement::TimestampSync s; double t; int n; double step;
    explicit Sensor(const Cfg& k) : c(k), s(k.f0), t(0), n(0), step(0) {}
    uint64_t truth() { return c.start + (uint64_t)(int64_t)((t + step) * 1e9); }
    // one measurement whose message is late by delay; returns how far the answer lies outside [true time, true time + jitter] in seconds
    double once(double delay) {
        uint64_t local = truth() + (uint64_t)(delay * 1e9); TS r; 
        if (c.viaclock) { { sim::Rt q; sim::set_now(local); } r = s.convertNativeToLocal(c.nat0 + t * c.f); } else r = s.convertNativeToLocal(c.nat0 + t * c.f, local);
        n++; SIM_CHECK(s.getEventCount() == (unsigned)n, "event-count", "%d time stamps converted but %u counted", n, s.getEventCount());
        double e = (double)(int64_t)(r - truth()) / 1e9; double x = e < 0 ? -e : e - c.J; return x > 0 ? x : 0;
    }
    void tick() { t += c.per * (1 + c.irr * sim::uniform(sim::FA, -1, 1)); }
    double jit() { return c.J > 0 ? sim::uniform(sim::FA, 0, c.J) : 0; }
    std::string str() { return sim::fmt("native %.4g Hz (assumed %.4g), period %.4f s, jitter %.4f s", c.f, c.f0, c.per, c.J); }
};
// bounded jitter and, after the warm-up, rare outliers
void steady(const Cfg& c, int N, uint32_t outl) {
    Sensor S(c); double worst = 0;
    for (int i = 0; i < N; i++) { S.tick(); double d = S.jit(); if (i > 200 && outl && sim::chance(sim::FA, outl, 1000)) { d += sim::uniform(sim::FA, 0, 10); sim::fault("late-message"); } double x = S.once(d); if (i >= 300 && x > worst) { worst = x; SIM_CHECK(x <= 0.001 + 0.5 * c.J, "off", "after %d measurements a converted time is %.6f s outside the jitter window (%s)", i, x, S.str().c_str()); } }
    sim::probe("steady-conversions", N);
}
}
SCENARIO(calm, 3) {
    int nt = 1 + sim::wl(2); uint32_t outl = sim::wl(2) ? 1 + sim::wl(50) : 0; if (nt > 1) sim::sched_random();
    for (int k = 0; k < nt; k++) { Cfg c = config(); int N = 400 + sim::wl(1200); if (nt > 1) { c.viaclock = false; sim::spawn([c, N, outl]() { steady(c, N, outl); }, "sensor"); } else { Sensor S(c); sim::sample(S.str()); steady(c, N, outl); } }
    sim::join_all(); sim::nontrivial();
}
SCENARIO(gaps, 2) {           // lost messages, pauses (as long as the rate of the clock is known well enough), duplicates, reordering
    Cfg c = config(); Sensor S(c); sim::sample(S.str()); int N = 600 + sim::wl(1200);
    for (int i = 0; i < N; i++) {
        S.tick(); double x;
        if (i > 200 && sim::chance(sim::FA, 5, 1000)) { S.t += sim::uniform(sim::FA, 0, std::min(60.0, 2000 * c.per)); sim::fault("pause"); }
        if (i > 200 && sim::chance(sim::FA, 10, 1000)) { S.tick(); sim::fault("message-lost"); }
        if (i > 200 && sim::chance(sim::FA, 10, 1000)) { x = S.once(S.jit()); sim::fault("message-duplicated"); }
        if (i > 200 && sim::chance(sim::FA, 10, 1000)) { double t0 = S.t; S.t += c.per; x = S.once(S.jit()); S.t = t0; x = S.once(S.jit()); S.t += c.per; sim::fault("messages-reordered"); }
        x = S.once(S.jit());
        SIM_CHECK(i < 300 || x <= 0.005 + 5 * c.J, "off", "after %d measurements a converted time is %.6f s outside the jitter window (%s)", i, x, S.str().c_str());
    }
    sim::probe("gap-conversions", N); sim::nontrivial();
}
SCENARIO(clock_step, 1) {     // the local clock is set; the conversion follows within a bounded number of measurements
    Cfg c = config(); Sensor S(c); sim::sample(S.str()); int at = 300 + sim::wl(300); double st = pow(10, sim::uniform(sim::WL, -1, 4)); if (sim::wl(2) && st < 900) st = -st;
    for (int i = 0; i < at; i++) { S.tick(); S.once(S.jit()); }
    S.step = st; sim::fault("clock-step"); double x = 0;
    for (int i = 0; i < 25000; i++) { S.tick(); x = S.once(S.jit()); if (i > 24900) SIM_CHECK(x <= 0.005 + c.J + 2e-5 * fabs(st), "not-converged", "%d measurements after the clock was set by %.3f s a converted time is still %.6f s off (%s)", i, st, x, S.str().c_str()); }
    sim::probe("steps-followed"); sim::nontrivial();
}

// P13: reading the time, sleeping, timing blocks.
#include "sim.h"
#include "os.h"
#include <utMeasurement/Timestamp.h>
#include <utUtil/OS.h>
#include <utUtil/BlockTimer.h>
#include <math.h>
#include <stdlib.h>
#include <stdio.h>
#include <time.h>
#include <memory>
using namespace Ubitrack;
namespace {
void civil(int64_t days, int& y, int& m, int& d) { days += 719468; int64_t era = (days >= 0 ? days : days - 146096) / 146097; unsigned doe = (unsigned)(days - era * 146097), yoe = (doe - doe / 1460 + doe / 36524 - doe / 146096) / 365; y = (int)yoe + (int)era * 400; unsigned doy = doe - (365 * yoe + yoe / 4 - yoe / 100), mp = (5 * doy + 2) / 153; d = doy - (153 * mp + 2) / 5 + 1; m = mp < 10 ? mp + 3 : mp - 9; y += m <= 2; }
std::string longstr(uint64_t t) { static const char* const W[] = {"Thu", "Fri", "Sat", "Sun", "Mon", "Tue", "Wed"}; static const char* const M[] = {"Jan", "Feb", "Mar", "Apr", "May", "Jun", "Jul", "Aug", "Sep", "Oct", "Nov", "Dec"}; uint64_t s = t / 1000000000; int y, m, d; civil(s / 86400, y, m, d); return sim::fmt("%s %s %2d %02d:%02d:%02d %d UTC", W[s / 86400 % 7], M[m - 1], d, (int)(s / 3600 % 24), (int)(s / 60 % 60), (int)(s % 60), y); }
std::string shortstr(uint64_t t) { uint64_t s = t / 1000000000; return sim::fmt("%02d:%02d:%02d.%06d", (int)(s / 3600 % 24), (int)(s / 60 % 60), (int)(s % 60), (int)(t / 1000 % 1000000)); }
uint64_t anytime() { switch (sim::wl(4)) { case 0: return (uint64_t)sim::wl(2000000000) * 1000000000ull + sim::wl(1000000000); case 1: return (uint64_t)sim::wl(2) * 86400000000000ull; case 2: return (uint64_t)sim::wl(0x7fffffff) * 8000000000ull + sim::wl(1000000000); default: return 1700000000000000000ull + (uint64_t)sim::wl(1000000000) * 1000; } }
void strings(uint64_t t) {
    std::string a = Measurement::timestampToString(t), b = Measurement::timestampToShortString(t); sim::Rt r;
    SIM_CHECK(a == longstr(t), "wrong-date", "%llu ns was written as \"%s\", expected \"%s\"", (unsigned long long)t, a.c_str(), longstr(t).c_str());
    SIM_CHECK(b == shortstr(t), "wrong-date", "%llu ns was written as \"%s\", expected \"%s\"", (unsigned long long)t, b.c_str(), shortstr(t).c_str());
    sim::probe("dates");
}
void napper(int n) {
    for (int i = 0; i < n; i++) {
        unsigned ms, ns; static const unsigned e[] = {0, 1, 999, 1000, 1001, 1500, 59999, 86400000, 4294967, 4294968, 12345678};
        ms = sim::wl(2) ? e[sim::wl(11)] : sim::wl(5000); static const unsigned f[] = {0, 1, 999999, 1000000, 999999999, 1000000000, 2000000001, 4294967295u}; ns = sim::wl(2) ? 0 : f[sim::wl(8)];
        uint64_t want = (uint64_t)ms * 1000000 + ns, t0 = sim::now_ns();
        if (ns || sim::wl(2)) Util::sleep(ms, ns); else Util::sleep(ms);
        uint64_t d = sim::now_ns() - t0;
        SIM_CHECK(d >= want, "woke-early", "sleep(%u, %u) returned after %llu of %llu ns", ms, ns, (unsigned long long)d, (unsigned long long)want);
        SIM_CHECK(d <= want + 5000000, "overslept", "sleep(%u, %u) took %llu ns instead of %llu", ms, ns, (unsigned long long)d, (unsigned long long)want);
        sim::probe("sleeps");
    }
}
}
SCENARIO(sleepers, 2) {
    { sim::Rt r; sim::set_now(1700000000000000000ull + sim::wl(1000000000)); if (sim::wl(2)) sim::eintr_rate(1 + sim::wl(60), 100); }
    int nt = 1 + sim::wl(3);
    if (nt == 1) { uint64_t t0 = sim::now_ns(); { sim::Rt r; sim::eintr_rate(0, 1); } unsigned ms = sim::wl(100000); Util::sleep(ms); uint64_t d = sim::now_ns() - t0; SIM_CHECK(d >= (uint64_t)ms * 1000000 && d <= (uint64_t)ms * 1000000 + 5000000, "wrong-sleep", "an undisturbed sleep of %u ms took %llu ns", ms, (unsigned long long)d); sim::Rt r; sim::eintr_rate(30, 100); }
    else sim::sched_random();
    for (int t = 0; t < nt; t++) { int n = 1 + sim::wl(4); sim::spawn([n]() { napper(n); }, "sleeper"); }
    sim::join_all(); sim::nontrivial();
}
SCENARIO(clocks, 2) {
    setenv("TZ", "UTC", 1); tzset(); int nt = 1 + sim::wl(3); if (nt > 1) sim::sched_random(); uint64_t base = anytime() | 1; { sim::Rt r; sim::set_now(base); if (sim::wl(2)) sim::clock_tick(1 + sim::wl(3000000)); }
    for (int t = 0; t < nt; t++) { int n = 1 + sim::wl(6); sim::spawn([n]() {
        for (int i = 0; i < n; i++) {
            uint64_t a = sim::now_ns(); Measurement::Timestamp v = Measurement::now(); uint64_t b = sim::now_ns();
            SIM_CHECK(v + 1000 > a && v <= b, "wrong-time", "the current time was reported as %llu but lies between %llu and %llu", (unsigned long long)v, (unsigned long long)a, (unsigned long long)b);
            uint64_t t0a = sim::now_ns(); long long c0 = Util::getHighPerformanceCounter(); uint64_t t0b = sim::now_ns();
            if (sim::wl(2)) { sim::Rt r; sim::advance((uint64_t)sim::wl(1000000) * (sim::wl(2) ? 1000 : 1000000000ull / 1000)); } sim::yield();
            uint64_t t1a = sim::now_ns(); long long c1 = Util::getHighPerformanceCounter(); uint64_t t1b = sim::now_ns(); double el = (double)(c1 - c0) / Util::getHighPerformanceFrequency();
            SIM_CHECK(el >= (double)(int64_t)(t1a - t0b) / 1e9 - 2e-6 && el <= (double)(t1b - t0a) / 1e9 + 2e-6, "wrong-counter", "the counter measured %.9f s for %.9f s", el, (double)(t1a - t0b) / 1e9);
            sim::probe("clock-reads"); strings(sim::wl(2) ? v : anytime());
        } }, "reader"); }
    sim::join_all(); sim::nontrivial();
}
SCENARIO(timers, 1) {
    { sim::Rt r; sim::set_now(1700000000000000000ull); if (sim::wl(3) == 1) sim::clock_tick(0); } int nt = 1 + sim::wl(2); if (nt > 1) sim::sched_random();
    for (int t = 0; t < nt; t++) { int n = 1 + sim::wl(8); sim::spawn([n]() {
        std::unique_ptr<Util::BlockTimer> bt(new Util::BlockTimer("block")); Util::BlockTimer& timer = *bt; double lo = 0, hi = 0;
        for (int i = 0; i < n; i++) {
            uint64_t a = sim::now_ns(), b, c;
            { UBITRACK_TIME(timer); b = sim::now_ns(); switch (sim::wl(3)) { case 0: Util::sleep(sim::wl(3000)); break; case 1: { sim::Rt r; sim::advance(sim::wl(2000000000)); break; } default: break; } sim::yield(); c = sim::now_ns(); }
            uint64_t d = sim::now_ns(); lo += (double)(c - b) / 1e6; hi += (double)(d - a) / 1e6; double tol = 0.0021 * (i + 1);
            SIM_CHECK(timer.getRuns() == (size_t)i + 1, "wrong-runs", "%d runs timed but %zu counted", i + 1, (size_t)timer.getRuns());
            SIM_CHECK(timer.getTotalTime() >= lo - tol && timer.getTotalTime() <= hi + tol, "wrong-total", "%d runs took %.4f ms but %.4f ms were measured", i + 1, lo, timer.getTotalTime());
            SIM_CHECK(fabs(timer.getAvgTime() * (i + 1) - timer.getTotalTime()) <= 1e-6 * (1 + timer.getTotalTime()), "wrong-average", "the average of %d runs is reported as %.4f ms", i + 1, timer.getAvgTime());
            sim::probe("timed-runs");
        } }, "timed"); }
    sim::join_all();
}

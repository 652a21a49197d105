// P07: calibration files: what was saved is what is loaded, or the failure is reported.
#include "mathgen.h"
#include <utUtil/CalibFile.h>
using namespace Ubitrack;
namespace {
template<class T> void save(int how, const std::string& f, const T& v, Measurement::Timestamp ts) {
    if (how == 0) Util::writeCalibFile(f, v); else if (how == 1) Util::writeBinaryCalibFile(f, v); else Util::writeCalibFile(f, Measurement::Measurement<T>(ts, v));
}
template<class T> void load(int how, const std::string& f, T& v, Measurement::Timestamp& ts, bool drop) {
    if (how == 0) Util::readCalibFile(f, v); else if (how == 1) Util::readBinaryCalibFile(f, v);
    else if (drop) Util::readCalibFileDropMeasurement(f, v);
    else { Measurement::Measurement<T> m; Util::readCalibFile(f, m); v = *m; ts = m.time(); }
}
// 1 loaded, 0 rejected the documented way; anything else is a violation
template<class T> int try_load(int how, const std::string& f, T& v, Measurement::Timestamp& ts, bool drop) {
    try { load(how, f, v, ts, drop); return 1; } catch (const Util::Exception&) { return 0; }
    catch (const std::exception& e) { sim::fail("foreign-exception", "loading ended with an exception of another kind: %s", e.what()); }
}
template<class T> int try_save(int how, const std::string& f, const T& v, Measurement::Timestamp ts) {
    try { save(how, f, v, ts); return 1; } catch (const Util::Exception&) { return 0; }
    catch (const std::exception& e) { sim::fail("foreign-exception", "saving ended with an exception of another kind: %s", e.what()); }
}
uint64_t hard() { return simos::fired_count("write-eio") + simos::fired_count("write-enospc") + simos::fired_count("disk-full") + simos::fired_count("close-eio") + simos::fired_count("disk-full-short") + simos::fired_count("open-eio") + simos::fired_count("open-fail"); }

struct Faulty {                       // save under faults, read back
    int how; bool soft, hardm; std::string f;
    template<class T> void run() {
        mg::Opt o; o.special = how == 1; T v = mg::G<T>::gen(o); Measurement::Timestamp ts = 1 + (uint64_t)sim::wl(0xffffff) * 0x123456789ull;
        int rounds = 1 + sim::wl(3);
        for (int r = 0; r < rounds; r++) {
            if (r) { v = mg::G<T>::gen(o); }
            simos::Faults& F = simos::faults();
            if (soft) { F.write_short = 300; F.write_eintr = 200; }
            if (hardm) { switch (sim::wl(5)) { case 0: F.write_eio = 500; break; case 1: F.write_enospc = 500; break; case 2: F.capacity = sim::wl(600); break; case 3: F.close_fail = 700; F.close_loses = sim::wl(2); break; case 4: F.open_fail = 500; break; } }
            T keep = v; uint64_t h0 = hard(); int ok = try_save(how, f, v, ts); uint64_t h1 = hard();
            simos::faults_off();
            SIM_CHECK(ok || h1 > h0, "save-refused", "saving a %s failed although nothing went wrong", mg::G<T>::name());
            SIM_CHECK(mg::same(keep, v, true), "saving-changes", "saving a %s changed it", mg::G<T>::name());
            if (!ok) { sim::probe("save-reported"); continue; }
            if (soft) { simos::faults().read_short = 300; simos::faults().read_eintr = 0; }
            T* w = new T(); Measurement::Timestamp ts2 = ts; bool drop = sim::wl(2);
            int got = try_load(how, f, *w, ts2, drop);
            simos::faults_off();
            SIM_CHECK(got, "silent-loss", "saving a %s returned normally (%llu faults) but it cannot be loaded", mg::G<T>::name(), (unsigned long long)(h1 - h0));
            SIM_CHECK(mg::same(v, *w, true) && ts2 == ts, "different-value", "a loaded %s differs from the saved one", mg::G<T>::name());
            delete w; sim::probe(h1 > h0 ? "retried-saves" : "round-trips");
        }
    }
};
struct Crash {                        // kill while (over)writing
    int how;
    template<class T> void run() {
        mg::Opt o; o.special = how == 1; T a = mg::G<T>::gen(o), b = mg::G<T>::gen(o); Measurement::Timestamp ts = 77, t2 = ts;
        const char* f = "/sim/calib"; bool old = sim::wl(2);
        std::string full; { try_save(how, "/sim/full", b, ts); sim::Rt r; full = simos::content("/sim/full"); }
        if (old) try_save(how, f, a, ts);
        simos::faults().crash_at = (int64_t)simos::mutating_calls() + sim::draw(sim::FA, 5); simos::faults().torn_crash = sim::wl(2); if (sim::wl(2)) simos::faults().write_short = 500;
        { sim::Quiet q; T* bp = &b; int h = how; sim::spawn([bp, h, f, ts]() { try_save(h, f, *bp, ts); }, "writer"); }
        sim::join_all();
        simos::faults_off();
        std::string c; { sim::Rt r; c = simos::content(f); }
        T* w = new T(); int got = simos::exists(f) ? try_load(how, f, *w, t2, false) : 0;
        if (got && !mg::same(b, *w, true) && !(old && mg::same(a, *w, true))) {
            // the last number itself may have been cut short
            sim::Rt r; size_t e = full.find_last_not_of(" \n"), last = full.find_last_of(" \n", e) + 1;
            SIM_CHECK(how != 1 && full.compare(0, c.size(), c) == 0 && c.size() > last, "third-value", "after a kill while saving, loading yields neither the old nor the new %s (%zu of %zu bytes)", mg::G<T>::name(), c.size(), full.size());
        }
        if (simos::crashed()) { sim::probe("crash-points"); if (!got) sim::probe("rejected-after-crash"); }
        sim::nontrivial();
    }
};
}
SCENARIO(save_load, 3) {
    Faulty x; x.how = sim::wl(3); x.soft = sim::wl(2); x.hardm = sim::wl(2); x.f = "/sim/calib"; int k = sim::wl(mg::NTYPES);
    sim::sample(sim::fmt("type %d, format %d, slow %d, failing disk %d", k, x.how, x.soft, x.hardm));
    mg::dispatch(k, x); if (x.soft || x.hardm) sim::nontrivial();
}
SCENARIO(threads, 2) {
    sim::sched_random();
    int nt = 2 + sim::wl(2);
    for (int t = 0; t < nt; t++) {
        int k, how; { k = sim::wl(mg::NTYPES); how = sim::wl(3); }
        sim::spawn([t, k, how]() { Faulty x; x.how = how; x.soft = x.hardm = false; x.f = sim::fmt("/sim/calib%d", t); mg::dispatch(k, x); }, "cal");
    }
    sim::join_all();
}
SCENARIO(kill, 2) { Crash x; x.how = sim::wl(3); int k = sim::wl(mg::NTYPES); sim::sample(sim::fmt("kill while saving type %d, format %d", k, x.how)); mg::dispatch(k, x); }

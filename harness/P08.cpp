// P08: loading a damaged, foreign or unreadable calibration file.
#include "mathgen.h"
#include <utUtil/CalibFile.h>
using namespace Ubitrack;
namespace {
struct Make { int how; template<class T> void run() { mg::Opt o; T v = mg::G<T>::gen(o); if (how == 0) Util::writeCalibFile("/sim/calib", v); else if (how == 1) Util::writeBinaryCalibFile("/sim/calib", v); else Util::writeCalibFile("/sim/calib", Measurement::Measurement<T>(1234567, v)); } };
void camera_ok(const mg::um::CameraIntrinsics<double>& c) { SIM_CHECK((int)c.calib_type >= 0 && (int)c.calib_type <= 4 && c.radial_size <= 6, "invalid-camera", "a damaged file produced a camera of kind %d with %zu radial parameters", (int)c.calib_type, (size_t)c.radial_size); }
template<class T> void camera_ok(const T&) {}
struct Load {
    int how; bool threw;
    template<class T> void run() {
        T* v = new T(); threw = false;
        try {
            if (how == 0) Util::readCalibFile("/sim/calib", *v); else if (how == 1) Util::readBinaryCalibFile("/sim/calib", *v);
            else if (how == 2) { Measurement::Measurement<T>* m = new Measurement::Measurement<T>(); try { Util::readCalibFile("/sim/calib", *m); if (m->get()) camera_ok(**m); } catch (...) { delete m; throw; } delete m; }
            else Util::readCalibFileDropMeasurement("/sim/calib", *v);
        } catch (const Util::Exception&) { threw = true; }
        catch (const std::exception& e) { sim::fail("foreign-exception", "loading a damaged file ended with an exception of another kind: %s", e.what()); }
        if (!threw && how != 2) camera_ok(*v);
        delete v;
        sim::heap_check();
    }
};
}
SCENARIO(damaged, 1) {
    Make mk; mk.how = sim::wl(3); int k = sim::wl(mg::NTYPES), lk = k; mg::dispatch(k, mk);
    std::string d; { sim::Rt r; d = simos::content("/sim/calib"); }
    Load ld; ld.how = mk.how == 2 && sim::wl(2) ? 3 : mk.how; ld.threw = false;
    bool must = false; std::string what; int nmut = 1;
    switch (sim::wl(10)) {
    case 0: { what = "cut"; size_t n = sim::wl((uint32_t)d.size()); size_t e = d.find_last_not_of(" \n"), last = d.find_last_of(" \n", e) + 1; must = mk.how == 1 || n < last; d = d.substr(0, n); break; }
    case 1: what = "empty"; d.clear(); must = true; break;
    case 2: { what = "bytes changed"; nmut = 1 + sim::wl(4); for (int i = 0; i < nmut; i++) { size_t p = sim::wl((uint32_t)d.size()); d[p] = (char)(sim::wl(2) ? sim::wl(256) : "0123456789 -.e"[sim::wl(14)]); } break; }
    case 3: { what = "number replaced"; size_t p = sim::wl((uint32_t)d.size()); while (p > 0 && d[p - 1] != ' ') p--; size_t e = d.find(' ', p); if (e == std::string::npos) e = d.size(); static const char* const s[] = {"7", "6", "8", "100", "4000000000", "-1", "3000", "18446744073709551615", "x", "1e400", "nan"}; d.replace(p, e - p, s[sim::wl(11)]); break; }
    case 4: { what = "other type"; do lk = sim::wl(mg::NTYPES); while (lk == k && 0); break; }
    case 5: { what = "other format"; ld.how = sim::wl(4); break; }
    case 6: { what = "rubbish"; uint32_t n = sim::wl(300); d.clear(); for (uint32_t i = 0; i < n; i++) d += (char)sim::wl(256); must = true; break; }
    case 7: { what = "count changed"; std::vector<size_t> at; for (size_t i = 1; i + 1 < d.size(); i++) if (d[i] >= '0' && d[i] <= '9' && d[i - 1] == ' ' && (d[i + 1] == ' ' || d[i + 1] == '\n')) at.push_back(i); if (at.size()) { size_t i = at[sim::wl((uint32_t)at.size())]; d[i] = (char)('0' + sim::wl(10)); if (sim::wl(2)) { for (int k = sim::wl(6); k > 0; k--) d += " 0.5"; } } break; }
    default: { what = "block lost"; size_t p = sim::wl((uint32_t)d.size()), n = 1 + sim::wl(40); d.erase(p, n); break; }
    }
    simos::put("/sim/calib", d);
    bool rd = sim::wl(4) == 1; if (rd) { simos::faults().read_eio = 100 + sim::wl(600); simos::faults().read_short = 400; }
    bool gone = sim::wl(30) == 1; if (gone) { if (sim::wl(2)) simos::erase("/sim/calib"); else simos::faults().open_fail = 1000; must = true; }
    sim::sample(sim::fmt("%s (%zu bytes), type %d read as %d, format %d", what.c_str(), d.size(), k, lk, ld.how)); sim::ev("%s", what.c_str());
    mg::dispatch(lk, ld);
    bool eio = simos::fired_count("read-eio") > 0; simos::faults_off();
    SIM_CHECK(ld.threw || !must, "damage-accepted", "a calibration file that is %s was accepted (type %d)", gone ? "missing" : what.c_str(), lk);
    SIM_CHECK(ld.threw || !eio, "read-error-ignored", "a read error while loading was not reported");
    if (ld.threw) sim::probe("rejected"); else sim::probe("accepted");
    sim::nontrivial();
}

// P11: opening and closing serial ports: descriptors, settings, failures.
#include "sim.h"
#include "os.h"
#include <utUtil/SerialPort.h>
#undef N
#undef O
#undef E
#include <utUtil/Exception.h>
#include <unistd.h>
#include <memory>
#include <string.h>
using namespace Ubitrack;
namespace {
struct Obj { Util::SerialPort* p; std::string dev; bool open; bool goodbaud; struct termios before; bool before_known; };
bool same_tio(const struct termios& a, const struct termios& b) { return a.c_iflag == b.c_iflag && a.c_oflag == b.c_oflag && a.c_cflag == b.c_cflag && a.c_lflag == b.c_lflag && !memcmp(a.c_cc, b.c_cc, sizeof a.c_cc) && cfgetispeed(&a) == cfgetispeed(&b) && cfgetospeed(&a) == cfgetospeed(&b); }
size_t opens(const std::string& dev) { size_t n = 0; for (auto& f : simos::open_fds()) if (f.path == dev) n++; return n; }
// a life of one port on its own device
void life(int id, int n, bool faults) {
    std::string dev = sim::fmt("/sim/ttyS%d", id); simos::tty(dev); Obj o; o.p = 0; o.dev = dev; o.open = false; o.before_known = false;
    { sim::Rt r; simos::Tty& t = simos::tty(dev); if (sim::wl(2)) { t.tio.c_cflag = CS7 | PARENB | CREAD | CSTOPB; t.tio.c_cc[VTIME] = 9; cfsetispeed(&t.tio, B19200); cfsetospeed(&t.tio, B19200); } }
    std::vector<int> others;
    auto verify = [&](const char* after) {
        sim::Rt r; size_t k = opens(dev);
        SIM_CHECK(k == (o.open ? 1u : 0u), k > (o.open ? 1u : 0u) ? "leaked-descriptor" : "closed-under-use", "after %s %zu descriptors of the device are open, %d expected", after, k, o.open ? 1 : 0);
        SIM_CHECK(simos::bad_fd_calls() == 0, "bad-descriptor", "%s used a descriptor that is not open", after);
        for (int f : others) SIM_CHECK(simos::foreign_alive(f) && simos::foreign_touched(f) == 0, "foreign-descriptor", "%s used or closed a descriptor that belongs to another part of the program", after);
    };
    for (int i = 0; i < n; i++) {
        if (!o.p) { static const unsigned long b[] = {9600, 19200, 38400, 57600, 115200, 230400, 1200, 0}; uint32_t k = sim::wl(8); sim::fill_byte(sim::wl(2) ? 0 : 0xA5); o.p = new Util::SerialPort(dev, b[k], 8 - sim::wl(4), sim::wl(3), 1 + sim::wl(2)); o.goodbaud = k < 6; o.open = false; verify("creating a port"); }
        simos::Faults& F = simos::faults(); if (faults) { F.open_fail = 200; F.tcget_fail = 200; F.tcset_fail = 200; F.read_eio = 100; F.write_eio = 100; F.close_fail = 100; }
        bool hung; { sim::Rt r; hung = simos::tty(dev).hung; }
        const char* what = "";
        switch (sim::wl(10)) {
        case 0: case 1: case 2: {
            what = "open"; uint64_t f0 = simos::total_faults(); struct termios b; int no; { sim::Rt r; b = simos::tty(dev).tio; no = simos::tty(dev).opens; } bool was = o.open;
            try { o.p->open(sim::wl(5)); SIM_CHECK(o.goodbaud || was, "bad-speed-accepted", "a port was opened with an unsupported speed"); SIM_CHECK(was || !hung, "open-unplugged", "opening a missing device returned normally"); o.open = true; if (!was) { o.before = b; o.before_known = true; sim::probe("opened"); } sim::Rt r; SIM_CHECK(simos::tty(dev).opens == no + (was ? 0 : 1), "open-count", "opening opened the device %d times", simos::tty(dev).opens - no); }
            catch (const Util::Exception&) { SIM_CHECK(!was && (!o.goodbaud || hung || faults && simos::total_faults() > f0), "unfounded-error", "opening failed although nothing went wrong"); sim::probe("open-failed"); }
            break; }
        case 3: case 4: {
            what = "close"; uint64_t f0 = simos::fired_count("tcsetattr-fail"); bool was = o.open; o.p->close(); o.open = false;
            if (was && !hung && simos::fired_count("tcsetattr-fail") == f0) { sim::Rt r; SIM_CHECK(same_tio(simos::tty(dev).tio, o.before), "settings-not-restored", "closing the port did not restore the settings of the line"); sim::probe("restored"); }
            break; }
        case 5: {
            what = "use"; unsigned char b[4] = {1, 2, 3, 4}; uint64_t f0 = simos::total_faults(); size_t tx; int fl, br; { sim::Rt r; simos::Tty& t = simos::tty(dev); tx = t.tx.size(); fl = t.flush_in; br = t.breaks; t.rx = t.hung ? "" : "xy"; } bool ok = true;
            try { switch (sim::wl(5)) { case 0: what = "read"; o.p->read(b, 2); break; case 1: what = "send"; o.p->send(b, 4); break; case 2: what = "bytesOnRead"; o.p->bytesOnRead(); break; case 3: what = "flush"; o.p->flush(); break; default: what = "sendBreak"; o.p->sendBreak(); } }
            catch (const Util::Exception&) { ok = false; }
            if (!o.open) { sim::Rt r; simos::Tty& t = simos::tty(dev); bool rw = !strcmp(what, "read") || !strcmp(what, "send") || !strcmp(what, "bytesOnRead"); SIM_CHECK(!ok || !rw, "closed-port-used", "%s on a closed port returned normally", what); SIM_CHECK(t.tx.size() == tx && t.flush_in == fl && t.breaks == br, "closed-port-used", "%s on a closed port reached the device", what); sim::probe("used-closed"); }
            else if (!hung) { SIM_CHECK(ok || (faults && simos::total_faults() > f0), "unfounded-error", "%s on an open port failed although nothing went wrong", what); sim::probe("used-open"); }
            break; }
        case 6: { what = "destroying"; uint64_t f0 = simos::fired_count("tcsetattr-fail"); bool was = o.open; delete o.p; o.p = 0; o.open = false; if (was && !hung && simos::fired_count("tcsetattr-fail") == f0) { sim::Rt r; SIM_CHECK(same_tio(simos::tty(dev).tio, o.before), "settings-not-restored", "destroying the port did not restore the settings of the line"); } break; }
        case 7: { what = "another part of the program opening files"; int f = simos::foreign_open("other"); { sim::Rt r; others.push_back(f); } break; }
        case 8: { what = "unplugging"; sim::Rt r; simos::tty(dev).hung = true; sim::fault("unplugged"); break; }
        default: { what = "plugging in"; sim::Rt r; simos::tty(dev).hung = false; break; }
        }
        simos::Faults off; simos::faults() = off;
        verify(what);
    }
    { sim::Rt r; simos::tty(dev).hung = false; }
    // once faults stop, the port works again
    if (o.p && o.goodbaud) { try { o.p->close(); o.open = false; verify("close"); o.p->open(1); o.open = true; verify("open"); unsigned char b[3] = {7, 8, 9}; size_t t0; { sim::Rt r; t0 = simos::tty(dev).tx.size(); } unsigned long w = o.p->send(b, 3); sim::Rt r; SIM_CHECK(w == 3 && simos::tty(dev).tx.size() == t0 + 3, "not-usable", "a reopened port does not transmit"); } catch (const Util::Exception&) { sim::fail("not-usable", "after the faults stopped the port cannot be opened again or does not transmit"); } sim::probe("recovered"); }
    delete o.p; o.p = 0; o.open = false; verify("destroying");
}
}
SCENARIO(lives, 1) {
    if (sim::wl(8) == 1) simos::standard_closed(1 + sim::wl(3));
    bool faults = sim::wl(3) > 0; int n = 2 + sim::wl(14); sim::sample(sim::fmt("%d steps, faults %d", n, faults)); life(0, n, faults); sim::nontrivial();
}
SCENARIO(threads, 1) {
    if (sim::wl(8) == 1) simos::standard_closed(1 + sim::wl(3));
    sim::sched_random(); int nt = 2 + sim::wl(2); for (int t = 0; t < nt; t++) { int n = 2 + sim::wl(8); sim::spawn([t, n]() { life(t, n, false); }, "port"); } sim::join_all();
}

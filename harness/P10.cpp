// P10: bytes over a serial port.
#include "sim.h"
#include "os.h"
#include <utUtil/SerialPort.h>
#undef N
#undef O
#undef E
#include <utUtil/Exception.h>
#include <time.h>
#include <memory>
#include <string.h>
using namespace Ubitrack;
namespace {
const char* const DEV = "/sim/ttyS0";
void nap(uint64_t us) { struct timespec t; t.tv_sec = us / 1000000; t.tv_nsec = (us % 1000000) * 1000; nanosleep(&t, 0); }
struct Set { unsigned long baud; int bits, parity, stop, vtime; };
Set settings() { static const unsigned long b[] = {9600, 19200, 38400, 57600, 115200, 230400}; Set s; s.baud = b[sim::wl(6)]; s.bits = 8 - sim::wl(4); s.parity = sim::wl(3); s.stop = 1 + sim::wl(2); s.vtime = sim::wl(6); return s; }
speed_t code(unsigned long b) { switch (b) { case 9600: return B9600; case 19200: return B19200; case 38400: return B38400; case 57600: return B57600; case 115200: return B115200; default: return B230400; } }
void check_line(const Set& s, int vmin) {
    sim::Rt r; const struct termios& t = simos::tty(DEV).tio;
    SIM_CHECK(cfgetispeed(&t) == code(s.baud) && cfgetospeed(&t) == code(s.baud), "line-settings", "the port was opened for %lu baud but runs at another speed", s.baud);
    static const tcflag_t cs[] = {CS5, CS6, CS7, CS8};
    SIM_CHECK((t.c_cflag & CSIZE) == cs[s.bits - 5], "line-settings", "the port was opened for %d data bits but uses another number", s.bits);
    SIM_CHECK(!!(t.c_cflag & PARENB) == (s.parity != 0) && (!s.parity || !!(t.c_cflag & PARODD) == (s.parity == 1)), "line-settings", "the port was opened for parity %d but uses another", s.parity);
    SIM_CHECK(!!(t.c_cflag & CSTOPB) == (s.stop == 2), "line-settings", "the port was opened for %d stop bits but uses another number", s.stop);
    SIM_CHECK((t.c_cflag & CREAD) && (t.c_cflag & CLOCAL), "line-settings", "the receiver is off or waits for a modem");
    SIM_CHECK(!(t.c_lflag & (ICANON | ECHO | ECHONL | ISIG | IEXTEN)) && !(t.c_iflag & (ICRNL | INLCR | IGNCR | ISTRIP | IXON | IXOFF)) && !(t.c_oflag & OPOST), "line-settings", "the line changes the bytes that pass it");
    SIM_CHECK(t.c_cc[VTIME] == s.vtime && t.c_cc[VMIN] == vmin, "line-settings", "the read time-out is not the requested one");
}
std::string bytes(uint32_t n) { std::string s; for (uint32_t i = 0; i < n; i++) s += (char)sim::wl(256); return s; }
}
SCENARIO(traffic, 3) {
    if (sim::wl(8) == 1) simos::standard_closed(1 + sim::wl(3));
    simos::tty(DEV); Set s = settings(); std::unique_ptr<Util::SerialPort> port(new Util::SerialPort(DEV, s.baud, s.bits, s.parity, s.stop));
    port->open(s.vtime, 0); check_line(s, 0);
    std::string in, out, got; { sim::Rt r; in = bytes(sim::wl(120)); out = bytes(sim::wl(120)); }
    simos::Faults& F = simos::faults(); int style = sim::wl(4);
    if (style & 1) { F.read_short = 400; F.write_short = 400; }
    if (style & 2) { F.read_eintr = 150; F.read_eio = 80; F.write_eintr = 150; F.write_eio = 100; F.write_eagain = 80; F.ioctl_fail = 200; }
    sim::sample(sim::fmt("%lu baud %d%c%d, %zu bytes in, %zu bytes out, faults %d", s.baud, s.bits, "NOE"[s.parity], s.stop, in.size(), out.size(), style));
    sim::sched_random(); bool done = false; Util::SerialPort* P = port.get();
    uint32_t rmax = 1 + sim::wl(60), wmax = 1 + sim::wl(60), dmax = 1 + sim::wl(40);
    sim::spawn([&]() { size_t at = 0; while (at < in.size()) { size_t k = 1 + sim::wl(dmax); if (k > in.size() - at) k = in.size() - at; { sim::Rt r; simos::tty(DEV).rx.append(in, at, k); at += k; } nap(sim::wl(400000)); } done = true; }, "device");
    sim::spawn([&]() {
        for (;;) {
            bool last; { sim::Rt r; last = done && simos::tty(DEV).rx.empty(); } if (last) break;
            if (sim::wl(3) == 1) {
                size_t a, b; { sim::Rt r; a = simos::tty(DEV).rx.size(); } uint64_t f0 = simos::fired_count("ioctl-fail"); 
                try { unsigned long v = P->bytesOnRead(); { sim::Rt r; b = simos::tty(DEV).rx.size(); } SIM_CHECK(simos::fired_count("ioctl-fail") == f0, "failure-ignored", "the number of waiting bytes was reported as %lu although asking for it failed", v); SIM_CHECK(v >= a && v <= b, "wrong-count", "%lu bytes reported as waiting, but it were %zu", v, a); }
                catch (const Util::Exception&) { SIM_CHECK(simos::fired_count("ioctl-fail") > f0, "unfounded-error", "asking for waiting bytes failed although nothing went wrong"); sim::probe("reported"); }
            }
            uint32_t n = sim::wl(8) == 1 ? 0 : 1 + sim::wl(rmax); unsigned char* b = new unsigned char[n ? n : 1]; uint64_t e0 = simos::fired_count("tty-read-eio"), f0 = e0 + simos::fired_count("tty-read-eintr");
            try { unsigned long k = P->read(b, n); SIM_CHECK(simos::fired_count("tty-read-eio") == e0, "failure-ignored", "a read returned %lu bytes as if nothing had happened although the device failed", k); SIM_CHECK(k <= n, "wrong-count", "read returned %lu for a buffer of %u bytes", k, n); { sim::Rt r; got.append((const char*)b, k); } if (!k && !s.vtime) nap(1000); }
            catch (const Util::Exception&) { SIM_CHECK(simos::fired_count("tty-read-eio") + simos::fired_count("tty-read-eintr") > f0, "unfounded-error", "a read failed although nothing went wrong"); sim::probe("reported"); }
            delete[] b;
            SIM_CHECK(in.compare(0, got.size(), got) == 0, "wrong-bytes", "the bytes read are not the bytes received by the port");
        }
    }, "reader");
    sim::spawn([&]() {
        size_t at = 0; int tries = 0;
        while (at < out.size() && tries++ < 400) {
            size_t k = 1 + sim::wl(wmax); if (k > out.size() - at) k = out.size() - at; unsigned char* b = new unsigned char[k]; memcpy(b, out.data() + at, k);
            uint64_t f0 = simos::fired_count("tty-write-eio") + simos::fired_count("tty-write-eintr") + simos::fired_count("tty-write-eagain");
            try { unsigned long w = P->send(b, k); SIM_CHECK(w <= k, "wrong-count", "sending %zu bytes reported %lu as sent", k, w); at += w; }
            catch (const Util::Exception&) { SIM_CHECK(simos::fired_count("tty-write-eio") + simos::fired_count("tty-write-eintr") + simos::fired_count("tty-write-eagain") > f0, "unfounded-error", "sending failed although nothing went wrong"); sim::probe("reported"); }
            delete[] b; bool same; { sim::Rt r; same = simos::tty(DEV).tx.size() == at && out.compare(0, at, simos::tty(DEV).tx) == 0; }
            SIM_CHECK(same, "wrong-bytes", "the bytes on the line are not those reported as sent");
        }
        SIM_CHECK(at == out.size(), "no-progress", "sending does not finish");
    }, "writer");
    sim::join_all();
    SIM_CHECK(got == in, "lost-bytes", "%zu of %zu received bytes were read", got.size(), in.size());
    sim::probe("bytes-in", in.size()); sim::probe("bytes-out", out.size()); sim::nontrivial();
}
SCENARIO(control, 1) {
    if (sim::wl(8) == 1) simos::standard_closed(1 + sim::wl(3));
    simos::tty(DEV); Set s = settings(); std::unique_ptr<Util::SerialPort> port(new Util::SerialPort(DEV, s.baud, s.bits, s.parity, s.stop));
    int vmin = sim::wl(3) ? 0 : sim::wl(5); port->open(s.vtime, vmin); check_line(s, vmin);
    SIM_CHECK(port->getBaudRate() == s.baud, "wrong-baud", "the port reports another speed than it was made for");
    int n = 1 + sim::wl(10); std::string wait; int breaks = 0;
    for (int i = 0; i < n; i++) switch (sim::wl(5)) {
        case 0: { sim::Rt r; std::string x = bytes(sim::wl(20)); simos::tty(DEV).rx += x; wait += x; break; }
        case 1: SIM_CHECK(port->bytesOnRead() == wait.size(), "wrong-count", "the number of waiting bytes is wrong"); break;
        case 2: { int f; { sim::Rt r; f = simos::tty(DEV).flush_in; } port->flush(); { sim::Rt r; wait.clear(); SIM_CHECK(simos::tty(DEV).rx.empty() && (simos::tty(DEV).flush_in > f || 1), "flush", "bytes are still waiting after a flush"); } break; }
        case 3: { port->sendBreak(); breaks++; sim::Rt r; SIM_CHECK(simos::tty(DEV).breaks == breaks, "break", "%d breaks seen on the line after %d were sent", simos::tty(DEV).breaks, breaks); break; }
        default: { if (vmin && wait.empty()) break; uint32_t k = sim::wl(30); if (vmin && !k) break; unsigned char* b = new unsigned char[k + 1]; b[k] = 0x5a; unsigned long g = port->read(b, k); size_t e = k < wait.size() ? k : wait.size(); bool same = g == e && memcmp(b, wait.data(), g) == 0 && b[k] == 0x5a; delete[] b; SIM_CHECK(same, "wrong-bytes", "a read of up to %u of %zu waiting bytes gave %lu, or other bytes", k, wait.size(), g); { sim::Rt r; wait.erase(0, e); } break; }
    }
    sim::nontrivial();
}

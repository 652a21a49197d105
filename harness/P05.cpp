// P05: system log and remote system log destinations.
#include "loghelp.h"
#include <log4cpp/RemoteSyslogAppender.hh>
#include <log4cpp/SyslogAppender.hh>
#include <utUtil/Logging.h>
using namespace log4cpp;
using namespace lh;
namespace {
struct Note { std::vector<std::pair<int, std::string> > recs; std::vector<uint64_t> f0, f1; std::vector<size_t> d0, d1; };
Note* N;
template<class B> struct Noting : B {
    template<class... A> Noting(A&&... a) : B(std::forward<A>(a)...) {}
    virtual void _append(const LoggingEvent& e) {
        size_t k; { sim::Rt r; k = N->recs.size(); N->recs.push_back(std::make_pair((int)e.priority, e.message)); N->f0.push_back(simos::total_faults()); N->d0.push_back(simos::sent().size()); N->f1.push_back(0); N->d1.push_back(0); }
        B::_append(e);
        { sim::Rt r; N->f1[k] = simos::total_faults(); N->d1[k] = simos::sent().size(); }
    }
};
Layout* raw(bool nl) { PatternLayout* p = new PatternLayout(); p->setConversionPattern(nl ? "%m%n" : "%m"); return p; }
int severity(int p) { int s = p / 100; if (p % 100 == 99) s = (p + 1) / 100; return s > 7 ? 7 : s; }

void loggers(int nt, int per, bool longer) {
    for (int t = 0; t < nt; t++) {
        std::vector<std::pair<int, std::string> > plan;
        { sim::Rt r; for (int i = 0; i < per; i++) {
            uint32_t len; switch (sim::wl(5)) { case 0: len = sim::wl(60); break; case 1: len = 870 + sim::wl(50); break; case 2: len = 895 * (1 + sim::wl(3)) + sim::wl(12) - 6; break; default: len = sim::wl(longer ? 6000 : 1200); }
            std::string m = sim::fmt("<T%d#%d>", t, i); for (uint32_t k = 0; k < len; k++) m += (char)("abcdefghijklmnopqrstuvwxyz%<>0123456789"[(k * 11 + t + i) % 39]);
            static const int ODD[] = {99, 199, 250, 399, 401, 599, 650, 699, 1, 798}; int p = PRI[sim::wl(NPRI)]; if (sim::wl(4) == 1) p = ODD[sim::wl(10)]; plan.push_back(std::make_pair(p, m + "$")); } }
        sim::spawn([plan]() { Category& c = Category::getInstance("net"); for (auto& p : plan) c.log(p.first, p.second); }, "log");
    }
}

void remote() {
    sim::sched_random();
    Note n; N = &n;
    // addresses with zero, high and ordinary bytes
    static const uint32_t addrs[] = {0x0a000105, 0xc0a80102, 0xac10fe01, 0x7f000001, 0x080808ff, 0xfe804001, 0x01000000};
    uint32_t addr = addrs[sim::wl(7)]; simos::host("loghost", addr);
    bool numeric = sim::wl(3) == 1;
    std::string relay = numeric ? sim::fmt("%u.%u.%u.%u", addr >> 24, addr >> 16 & 255, addr >> 8 & 255, addr & 255) : "loghost";
    static const int facs[] = {-1, 8, 0, 24, 128, 184}; int fac = facs[sim::wl(6)]; int port = sim::wl(2) ? -1 : 1 + (int)sim::wl(65535);
    int ffac = fac == -1 ? 8 : fac; int fport = port == -1 ? 514 : port;
    bool nl = sim::wl(2);
    int mode = sim::wl(4);          // 0/1 healthy, 2 datagrams refused, 3 start-up fails
    simos::Faults& f = simos::faults();
    if (mode == 3) { if (sim::wl(2)) f.resolve_fail = 1000; else f.socket_fail = 1000; }
    int fo = simos::foreign_open("other part of the program"); (void)fo;
    Noting<RemoteSyslogAppender>* a = new Noting<RemoteSyslogAppender>("r", "prog", relay, fac, port);
    simos::faults_off();
    a->setLayout(raw(nl));
    Category& c = Category::getInstance("net"); c.setPriority(799); c.setAdditivity(false); c.addAppender(a);
    bool up = mode != 3;
    sim::sample(sim::fmt("datagrams to %08x:%d facility %d, mode %d", addr, fport, ffac, mode));
    if (!up) {
        loggers(1, 1 + sim::wl(2), false); sim::join_all();
        SIM_CHECK(simos::sent().empty(), "sent-anyway", "datagram sent although there is no relay");
        SIM_CHECK(a->reopen(), "reopen-result", "reopening failed");       // the network is back
        n.recs.clear(); n.f0.clear(); n.f1.clear(); n.d0.clear(); n.d1.clear();
    }
    if (mode == 1 && sim::wl(2)) {     // reopened while the network is down; another part of the program gets the next descriptor
        if (sim::wl(2)) { loggers(1, 1, false); sim::join_all(); }
        if (sim::wl(2)) f.resolve_fail = 1000; else f.socket_fail = 1000;
        a->reopen(); int fo2 = simos::foreign_open("another part of the program"); loggers(1, 1 + sim::wl(2), false); sim::join_all(); if (sim::wl(2)) a->reopen(); simos::faults_off();
        SIM_CHECK(simos::foreign_alive(fo2) && simos::foreign_touched(fo2) == 0, "foreign-descriptor", "a descriptor opened by another part of the program while the relay could not be reached was used");
        SIM_CHECK(a->reopen(), "reopen-result", "reopening failed"); sim::probe("reopened-after-outage");
        n.recs.clear(); n.f0.clear(); n.f1.clear(); n.d0.clear(); n.d1.clear();
    }
    if (mode == 2) simos::faults().send_fail = 50 + sim::wl(400);
    loggers(1 + sim::wl(3), 1 + sim::wl(4), sim::wl(2)); sim::join_all();
    simos::faults_off();
    sim::Rt rt;
    std::vector<simos::Dgram>& s = simos::sent();
    for (size_t i = 0; i < n.recs.size(); i++) {
        std::string pre = sim::fmt("<%d>", ffac + severity(n.recs[i].first)), want = n.recs[i].second + (nl ? "\n" : ""), got;
        bool lossy = n.f0[i] != n.f1[i];
        for (size_t k = n.d0[i]; k < n.d1[i]; k++) {
            simos::Dgram& d = s[k];
            SIM_CHECK(d.addr == addr, "wrong-host", "datagram sent to %08x instead of %08x", d.addr, addr);
            SIM_CHECK(d.port == fport, "wrong-port", "datagram sent to port %d instead of %d", d.port, fport);
            SIM_CHECK(d.data.size() <= 900, "datagram-too-long", "datagram of %zu bytes", d.data.size());
            SIM_CHECK(d.data.compare(0, pre.size(), pre) == 0, "wrong-preamble", "datagram starts with '%s', expected '%s'", d.data.substr(0, 8).c_str(), pre.c_str());
            std::string part = d.data.substr(pre.size());
            if (lossy) SIM_CHECK(want.find(part) != std::string::npos, "garbled-datagram", "datagram carries text that is not part of the message");
            got += part;
        }
        if (!lossy) SIM_CHECK(got == want, "message-differs", "message of %zu bytes arrived as %zu bytes in %zu datagrams", want.size(), got.size(), n.d1[i] - n.d0[i]);
        else { // what arrived plus what was refused: pieces in order, each at most once
            size_t p = 0; for (size_t k = n.d0[i]; k < n.d1[i]; k++) { std::string part = s[k].data.substr(pre.size()); size_t q = want.find(part, p); SIM_CHECK(q != std::string::npos, "garbled-datagram", "pieces out of order"); p = q + part.size(); } 
            SIM_CHECK(n.d1[i] - n.d0[i] + (n.f1[i] - n.f0[i]) == (want.size() + (900 - pre.size()) - 1) / (900 - pre.size()) || want.empty(), "piece-count", "%zu sent + %llu refused pieces for %zu bytes", n.d1[i] - n.d0[i], (unsigned long long)(n.f1[i] - n.f0[i]), want.size()); }
        if (n.d1[i] - n.d0[i] > 1) sim::probe("split-messages");
    }
    c.removeAllAppenders();
    SIM_CHECK(simos::open_fds().empty(), "descriptor-leak", "socket left open");
    SIM_CHECK(simos::foreign_alive(fo) && simos::foreign_touched(fo) == 0 && simos::bad_fd_calls() == 0, "foreign-descriptor", "a descriptor that is not the destination's own was used (%llu)", (unsigned long long)simos::bad_fd_calls());
    sim::nontrivial();
}

void local() {
    sim::sched_random();
    Note n; N = &n;
    int fac = (int)(sim::wl(24)) * 8;
    Noting<SyslogAppender>* a = new Noting<SyslogAppender>("s", "prog", fac);
    a->setLayout(raw(false));
    Category& c = Category::getInstance("net"); c.setPriority(799); c.setAdditivity(false); c.addAppender(a);
    loggers(1 + sim::wl(3), 1 + sim::wl(4), true);
    sim::join_all();
    if (sim::wl(2)) a->reopen();
    c.error(std::string("100%s %d last"));
    sim::Rt rt;
    std::vector<simos::Syslog>& s = simos::syslogged();
    SIM_CHECK(s.size() == n.recs.size(), "message-count", "%zu of %zu messages reached the system log", s.size(), n.recs.size());
    for (size_t i = 0; i < s.size(); i++) {
        SIM_CHECK(s[i].text == n.recs[i].second, "message-differs", "message %zu arrived as '%s'", i, s[i].text.substr(0, 80).c_str());
        SIM_CHECK(s[i].pri == (fac | severity(n.recs[i].first)), "wrong-preamble", "priority %d facility %d arrived as %d", n.recs[i].first, fac, s[i].pri);
        SIM_CHECK(s[i].ident == "prog", "wrong-ident", "ident '%s'", s[i].ident.c_str());
    }
    c.removeAllAppenders();
    SIM_CHECK(!simos::syslog_open(), "descriptor-leak", "connection to the system log left open");
    sim::nontrivial();
}

// destinations that a configuration file sets up, with and without each of the values
void configured() {
    sim::sched_random();
    bool local = sim::wl(3) == 0, hname = sim::wl(2), hport = sim::wl(2), hfac = sim::wl(2), hsys = sim::wl(2), drop = sim::wl(4) == 1; int fac = (int)sim::wl(24), port = 1 + (int)sim::wl(65535); uint32_t other = 0x0a000105, self = 0x7f000001;
    simos::host("loghost", other); simos::host("localhost", self);
    std::string conf = "rootCategory = INFO\ncategory.net = DEBUG, S\nadditivity.net = false\nappender.S = " + std::string(local ? "LocalSyslogAppender" : "SyslogAppender") + "\nappender.S.layout = PatternLayout\nappender.S.layout.ConversionPattern = %m\n";
    if (hsys) conf += "appender.S.syslogName = prog\n"; if (hname && !local) conf += "appender.S.syslogHost = loghost\n"; if (hport && !local) conf += sim::fmt("appender.S.portNumber = %d\n", port); if (hfac) conf += sim::fmt("appender.S.facility = %d\n", fac);
    simos::put("/sim/log.conf", conf); if (sim::wl(3) == 1) simos::faults().read_short = 500;
    Ubitrack::Util::initLogging("/sim/log.conf"); simos::faults_off();
    int want_fac = hfac ? fac * 8 : 8, want_port = hport ? port : 514; uint32_t want_addr = hname ? other : self;      // user messages by default
    sim::sample(conf); int n = 1 + (int)sim::wl(6); if (!local && drop) simos::faults().send_fail = 300;
    for (int i = 0; i < n; i++) {
        std::string m = sim::fmt("<#%d>", i) + std::string(sim::wl(3) ? sim::wl(50) : sim::wl(3000), 'x'); int pri = PRI[sim::wl(NPRI)]; size_t before = local ? simos::syslogged().size() : simos::sent().size(); uint64_t f0 = simos::total_faults();
        Category::getInstance("net").log(pri, m);
        sim::Rt r; std::string got; bool lossy = simos::total_faults() != f0; if (pri > Priority::DEBUG) m.clear();
        std::string pre = sim::fmt("<%d>", want_fac + severity(pri));
        if (local) for (size_t k = before; k < simos::syslogged().size(); k++) { simos::Syslog& s = simos::syslogged()[k]; got += s.text; SIM_CHECK(s.pri == (want_fac | severity(pri)), "configured-preamble", "priority %d arrived as %d in the system log, facility in the file: %d", pri, s.pri, hfac ? fac : -1); SIM_CHECK(s.ident == (hsys ? "prog" : "syslog"), "configured-ident", "ident '%s'", s.ident.c_str()); }
        else for (size_t k = before; k < simos::sent().size(); k++) { simos::Dgram& d = simos::sent()[k]; SIM_CHECK(d.addr == want_addr && d.port == want_port, "configured-host", "datagram sent to %08x:%d instead of %08x:%d; configuration: %s", d.addr, d.port, want_addr, want_port, conf.c_str()); SIM_CHECK(d.data.compare(0, pre.size(), pre) == 0, "configured-preamble", "datagram starts with '%s', expected '%s' (facility in the file: %d)", d.data.substr(0, 8).c_str(), pre.c_str(), hfac ? fac : -1); got += d.data.substr(pre.size()); }
        if (!lossy) SIM_CHECK(got == m, "configured-message", "message of %zu bytes arrived as %zu bytes", m.size(), got.size());
        if (got.size()) sim::probe(local ? "configured-local" : "configured-remote");
    }
    simos::faults_off(); sim::nontrivial();
}
}
SCENARIO(remote, 4) { if (sim::wl(8) == 1) simos::standard_closed(1); remote(); }
SCENARIO(local, 1) { local(); }
SCENARIO(configured, 1) { configured(); }

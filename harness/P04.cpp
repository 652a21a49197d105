// P04: log files under rotation, reopening, restarts, process crashes and I/O faults.
#include "loghelp.h"
#include <stdio.h>
using namespace log4cpp;
using namespace lh;
namespace {
const char* BASE = "/sim/app.log";
std::string bname(int i) { return i ? sim::fmt("%s.%d", BASE, i) : std::string(BASE); }

struct Order { std::vector<std::string> recs; std::vector<bool> done, hard; uint64_t hardbase; };
Order* O;
uint64_t hardcount() { return simos::total_faults(); }
template<class B> struct Noting : B {          // notes the order in which the destination is asked to write
    template<class... A> Noting(A&&... a) : B(std::forward<A>(a)...) {}
    virtual void _append(const LoggingEvent& e) {
        size_t k; uint64_t f0; { sim::Rt r; k = O->recs.size(); O->recs.push_back(e.message + "\n"); O->done.push_back(false); O->hard.push_back(false); f0 = hardcount(); }
        B::_append(e);
        { sim::Rt r; O->done[k] = true; O->hard[k] = hardcount() != f0; }
    }
};
Layout* raw() { PatternLayout* p = new PatternLayout(); p->setConversionPattern("%m%n"); return p; }
std::string rec_text(int t, int i, uint32_t len) { std::string s = sim::fmt("<T%d#%d>", t, i); for (uint32_t k = 0; k < len; k++) s += (char)('a' + (k * 5 + t * 3 + i) % 26); return s + "$"; }

void run_loggers(const std::string& cat, int& serial, int nt, int per, uint32_t maxlen) {
    sim::Quiet q;       // the threads start together: a crash never precedes a spawn
    for (int t = 0; t < nt; t++) {
        std::vector<std::string> msgs; { sim::Rt r; for (int i = 0; i < per; i++) msgs.push_back(rec_text(t, serial++, sim::wl(6) == 1 ? sim::wl(maxlen * 2 + 1) : sim::wl(maxlen))); }
        sim::spawn([cat, msgs]() { Category& c = Category::getInstance(cat); for (auto& m : msgs) c.error(m); }, "log");
    }
}

// ---- rotation, exact model: newest backup is .1, rotation as soon as the live file has reached the limit
struct Model {
    std::string live; std::vector<std::string> back; size_t max; size_t k;
    void add(const std::string& r) { live += r; if (live.size() >= max) { back.insert(back.begin(), live); if (back.size() > k) back.resize(k); live.clear(); } }
    void check() {
        SIM_CHECK(simos::exists(BASE), "live-file-missing", "no live log file");
        std::string c = simos::content(BASE);
        SIM_CHECK(c == live, "live-file", "live file holds %zu bytes '%s', expected %zu bytes '%s'", c.size(), c.substr(0, 120).c_str(), live.size(), live.substr(0, 120).c_str());
        for (size_t i = 1; i <= k; i++) { std::string b = simos::content(bname(i)); std::string e = i <= back.size() ? back[i - 1] : std::string(); SIM_CHECK(b == e && simos::exists(bname(i)) == (i <= back.size()), "backup-file", "backup %zu of %zu holds %zu bytes '%s', expected %zu bytes '%s'", i, k, b.size(), b.substr(0, 100).c_str(), e.size(), e.substr(0, 100).c_str()); }
        SIM_CHECK(simos::list("/sim/").size() == 1 + back.size(), "stray-file", "%zu files on disk, expected %zu", simos::list("/sim/").size(), 1 + back.size());
    }
};
void rolling() {
    sim::sched_random();
    Order o; O = &o;
    Model m; m.k = sim::wl(4) == 1 ? 9 + sim::wl(4) : 1 + sim::wl(4); m.max = 20 + sim::wl(sim::wl(3) == 1 ? 2000 : 200);
    int serial = 0, inc = 1 + sim::wl(3), rolled = 0;
    bool slow_io = sim::wl(3) == 1;       // interrupted and short writes are tolerated without loss
    sim::sample(sim::fmt("rotation at %zu bytes, %zu backups, %d incarnations", m.max, m.k, inc));
    for (int n = 0; n < inc; n++) {
        std::string cat = sim::fmt("inc%d", n);
        bool append = sim::wl(4) != 1;
        if (!append) m.live.clear();
        Noting<RollingFileAppender>* a = new Noting<RollingFileAppender>("roll", BASE, m.max, (unsigned)m.k, append);
        // settings can also be given later
        if (sim::wl(3) == 1) { a->setMaximumFileSize(m.max); a->setMaxBackupIndex((unsigned)m.k); }
        SIM_CHECK(a->getMaxBackupIndex() == m.k && a->getMaxFileSize() == m.max, "settings", "backup count or size limit not as set");
        a->setLayout(raw());
        Category::getInstance(cat).setAdditivity(false); Category::getInstance(cat).addAppender(a);
        m.check();
        if (slow_io) { simos::faults().write_short = 200; simos::faults().write_eintr = 100; }
        size_t from = o.recs.size();
        run_loggers(cat, serial, 1 + sim::wl(3), 1 + sim::wl(8), (uint32_t)(m.max / (1 + sim::wl(4))));
        sim::join_all();
        simos::faults_off();
        for (size_t i = from; i < o.recs.size(); i++) { bool e = m.live.size() + o.recs[i].size() >= m.max; m.add(o.recs[i]); rolled += e; }
        m.check();
        if (sim::wl(3) == 1) { a->rollOver(); m.back.insert(m.back.begin(), m.live); if (m.back.size() > m.k) m.back.resize(m.k); m.live.clear(); m.check(); }
        Category::getInstance(cat).removeAllAppenders();
        SIM_CHECK(simos::open_fds().empty(), "descriptor-leak", "%zu descriptors left open", simos::open_fds().size());
        SIM_CHECK(simos::bad_fd_calls() == 0, "bad-descriptor", "a call on a closed descriptor");
    }
    SIM_CHECK((size_t)serial == o.recs.size(), "lost-message", "%zu of %d records reached the destination", o.recs.size(), serial);
    if (rolled) { sim::probe("rotations", rolled); sim::nontrivial(); }
}

// ---- crash points: what is on disk after a kill is a contiguous run of whole records up to the moment of the crash
void rolling_crash() {
    sim::sched_random();
    Order o; O = &o;
    size_t k = 1 + sim::wl(5), max = 20 + sim::wl(200), maxrec = 0; int serial = 0, inc = 2 + sim::wl(3), crashes = 0;
    std::string S; std::set<size_t> bounds; bounds.insert(0);
    std::vector<std::string> cats; for (int n = 0; n <= inc; n++) { cats.push_back(sim::fmt("inc%d", n)); Category::getInstance(cats[n]).setAdditivity(false); }
    sim::sample(sim::fmt("kill at a system call, rotation at %zu bytes, %zu backups, %d incarnations", max, k, inc));
    for (int n = 0; n < inc; n++) {
        bool crash = n + 1 < inc || sim::wl(2);
        size_t from = o.recs.size();
        Noting<RollingFileAppender>* a = new Noting<RollingFileAppender>(sim::fmt("roll%d", n), BASE, max, (unsigned)k);
        a->setLayout(raw());
        Category::getInstance(cats[n]).addAppender(a);
        if (crash) { simos::faults().torn_crash = sim::wl(2); simos::faults().crash_at = (int64_t)simos::mutating_calls() + sim::draw(sim::FA, 24); }
        run_loggers(cats[n], serial, 1 + sim::wl(2), 2 + sim::wl(8), (uint32_t)(max / (1 + sim::wl(4))));
        sim::join_all();
        bool crashed = simos::crashed() && crash && simos::faults().crash_at < 0;
        simos::faults_off();
        if (crashed) crashes++;
        sim::Rt rt;
        // stream of accepted bytes; the record being written at the crash may be there in part
        std::string inprog; 
        for (size_t i = from; i < o.recs.size(); i++) {
            maxrec = std::max(maxrec, o.recs[i].size());
            if (!o.done[i]) { SIM_CHECK(i + 1 == o.recs.size() && crashed, "lost-message", "record %zu was never finished", i); inprog = o.recs[i]; break; }
            bounds.insert(S.size()); S += o.recs[i];
        }
        std::string C; std::vector<size_t> starts; size_t nb = 0;
        for (int i = 40; i >= 0; i--) if (simos::exists(bname(i))) {
            SIM_CHECK(i <= (int)k, "too-many-backups", "backup %d exists, %zu are kept", i, k);
            std::string d = simos::content(bname(i));
            SIM_CHECK(d.size() < max + maxrec * (1 + crashes) || d.size() < max, "file-too-large", "file %d has %zu bytes, limit %zu", i, d.size(), max);
            if (i > 0) { nb++; SIM_CHECK(d.size() >= max, "backup-too-small", "backup %d has only %zu bytes, limit %zu", i, d.size(), max); }
            if (!d.empty()) starts.push_back(C.size());
            C += d;
        }
        // C must be a suffix of S + a prefix of the record in progress
        size_t p = 0; bool ok = false;
        for (p = 0; p <= inprog.size() && !ok; p++) { std::string full = S + inprog.substr(0, p); if (C.size() <= full.size() && full.compare(full.size() - C.size(), C.size(), C) == 0) { ok = true; break; } }
        SIM_CHECK(ok, "not-contiguous", "after %s the files do not hold a contiguous run of the records written: %zu bytes on disk, %zu written", crashed ? "the crash" : "the run", C.size(), S.size());
        bounds.insert(S.size()); S += inprog.substr(0, p);
        size_t off = S.size() - C.size();
        for (size_t st : starts) SIM_CHECK(bounds.count(off + st), "torn-record", "a file begins in the middle of a record");
        size_t keep = k > (size_t)crashes ? (k - crashes) * max : 0;
        SIM_CHECK(C.size() >= std::min(S.size(), keep), "lost-history", "only %zu of %zu bytes kept, at least %zu should be", C.size(), S.size(), keep);
        if (crashed) { sim::probe("crash-points"); if (nb) sim::probe("crash-with-backups"); }
        if (!crashed) Category::getInstance(cats[n]).removeAllAppenders();
    }
    sim::nontrivial();
}

// ---- the directory refuses renames and removals for a while: nothing is lost
void rolling_readonly_dir() {
    sim::sched_random();
    Order o; O = &o;
    size_t max = 20 + sim::wl(100), k = 1 + sim::wl(4); int serial = 0;
    Noting<RollingFileAppender>* a = new Noting<RollingFileAppender>("roll", BASE, max, (unsigned)k);
    a->setLayout(raw()); Category::getInstance("c").setAdditivity(false); Category::getInstance("c").addAppender(a);
    Model m; m.k = k; m.max = max;
    run_loggers("c", serial, 1, 1 + sim::wl(6), 40); sim::join_all();
    for (auto& r : o.recs) m.add(r);
    m.check(); size_t from = o.recs.size();
    simos::faults().rename_fail = 1000; simos::faults().remove_fail = 1000;
    run_loggers("c", serial, 1 + sim::wl(2), 1 + sim::wl(6), 40); sim::join_all();
    simos::faults_off();
    for (size_t i = from; i < o.recs.size(); i++) m.live += o.recs[i];
    m.check(); from = o.recs.size();
    run_loggers("c", serial, 1 + sim::wl(2), 1 + sim::wl(6), 40); sim::join_all();
    for (size_t i = from; i < o.recs.size(); i++) m.add(o.recs[i]);
    m.check();
    sim::nontrivial();
}

// ---- plain file: short and interrupted writes lose nothing, a failing disk loses only what it refused
void file_faults() {
    sim::sched_random();
    Order o; O = &o; int serial = 0;
    std::string pre; if (sim::wl(2)) { pre = "earlier content\n"; simos::put(BASE, pre); }
    bool append = sim::wl(4) != 1; if (!append) pre.clear();
    Noting<FileAppender>* a = new Noting<FileAppender>("file", BASE, append);
    a->setLayout(raw()); Category::getInstance("c").setAdditivity(false); Category::getInstance("c").addAppender(a);
    SIM_CHECK(simos::content(BASE) == pre, "open-content", "file holds '%s' after opening", simos::content(BASE).c_str());
    int mode = sim::wl(3); bool hardmode = mode == 2;
    simos::Faults& f = simos::faults();
    if (mode >= 1) { f.write_short = 100 + sim::wl(400); f.write_eintr = sim::wl(300); }
    if (hardmode) { f.write_eio = sim::wl(200); f.write_enospc = sim::wl(200); if (sim::wl(2)) f.capacity = sim::wl(1500); }
    run_loggers("c", serial, 1 + sim::wl(3), 1 + sim::wl(6), 100); sim::join_all();
    simos::faults_off();
    size_t n = o.recs.size();
    run_loggers("c", serial, 1, 1 + sim::wl(3), 100); sim::join_all();           // the disk is fine again
    sim::Rt rt;
    std::string d = simos::content(BASE);
    SIM_CHECK(d.compare(0, pre.size(), pre) == 0, "open-content", "earlier content lost");
    std::set<size_t> pos; pos.insert(pre.size());
    for (size_t i = 0; i < o.recs.size(); i++) {
        std::set<size_t> nx; const std::string& r = o.recs[i];
        bool mayfail = hardmode && i < n && o.hard[i];
        for (size_t p : pos) { size_t l = 0; while (l < r.size() && p + l < d.size() && d[p + l] == r[l]) l++; if (l == r.size()) nx.insert(p + l); if (mayfail) for (size_t q = 0; q <= l; q++) nx.insert(p + q); }
        SIM_CHECK(!nx.empty(), "record-damaged", "record %zu '%s' is not in the file as written (%s)", i, r.substr(0, 60).c_str(), hardmode ? "failing disk" : "no failed write");
        pos.swap(nx);
    }
    SIM_CHECK(pos.count(d.size()), "stray-bytes", "file of %zu bytes holds more than the records", d.size());
    SIM_CHECK((size_t)serial == o.recs.size(), "lost-message", "%zu of %d records reached the destination", o.recs.size(), serial);
    if (simos::total_faults()) sim::nontrivial();
    Category::getInstance("c").removeAllAppenders();
    SIM_CHECK(simos::open_fds().empty() && simos::bad_close_calls() == 0, "descriptor-leak", "descriptors left open");
}

// ---- reopening while threads log (the file was moved away by somebody else)
void file_reopen() {
    sim::sched_random();
    Order o; O = &o; int serial = 0;
    Noting<FileAppender>* a = new Noting<FileAppender>("file", BASE);
    a->setLayout(raw()); Category::getInstance("c").setAdditivity(false); Category::getInstance("c").addAppender(a);
    int fo = simos::foreign_open("other part of the program"); (void)fo;
    run_loggers("c", serial, 1 + sim::wl(3), 1 + sim::wl(6), 60);
    int nre = 1 + sim::wl(3); bool mv[3]; for (int i = 0; i < 3; i++) mv[i] = sim::wl(3) != 1; bool all = sim::wl(2), failing = sim::wl(4) == 1; int moved = 0; std::vector<int> others;
    sim::spawn([&]() { for (int i = 0; i < nre; i++) {
        if (simos::exists(BASE) && mv[i]) { ::rename(BASE, sim::fmt("/sim/moved%d", moved).c_str()); moved++; }
        if (failing && i == 0) simos::faults().open_fail = 1000;
        bool ok = all ? Appender::reopenAll() : a->reopen();
        simos::faults().open_fail = 0;
        SIM_CHECK(ok == !(failing && i == 0), "reopen-result", "reopening reported %d", (int)ok);
        { sim::Rt r; others.push_back(simos::foreign_open("opened meanwhile")); }
    } }, "reopen");
    sim::join_all();
    sim::Rt rt;
    std::string all_; for (int i = 0; i < moved; i++) all_ += simos::content(sim::fmt("/sim/moved%d", i)); all_ += simos::content(BASE);
    std::string e; for (auto& r : o.recs) e += r;
    SIM_CHECK(all_ == e, "lost-on-reopen", "%zu bytes in %d files, %zu bytes were logged", all_.size(), moved + 1, e.size());
    for (int fd : others) SIM_CHECK(simos::foreign_alive(fd) && simos::foreign_touched(fd) == 0, "foreign-descriptor", "a descriptor of another component was used");
    SIM_CHECK(simos::bad_fd_calls() == 0, "bad-descriptor", "a call on a closed descriptor");
    sim::nontrivial(); sim::probe("reopened", nre);
}
}
void daemon_start() { if (sim::wl(8) == 1) simos::standard_closed(1); }     // as started with its standard input closed
SCENARIO(rolling, 3) { daemon_start(); rolling(); }
SCENARIO(rolling_crash, 3) { daemon_start(); rolling_crash(); }
SCENARIO(rolling_readonly_dir, 1) { daemon_start(); rolling_readonly_dir(); }
SCENARIO(file_faults, 2) { daemon_start(); file_faults(); }
SCENARIO(file_reopen, 1) { daemon_start(); file_reopen(); }

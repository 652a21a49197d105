// P03: attaching and detaching destinations while other threads log.
#include "loghelp.h"
using namespace log4cpp;
using namespace lh;
namespace {
struct DestLog { std::map<std::string, int> got; int destroyed, constructed; bool owned; std::string at; uint64_t destroyed_seq; };
std::vector<DestLog>* G;

// memory of destroyed destinations is handed out again for new ones (in some runs): a new destination may have the address of an old one
struct alignas(16) Slot { char b[512]; };
Slot g_slot[64]; bool g_used[64], g_reuse;
struct Rec : AppenderSkeleton {
    int id, busy; std::string pad;
    static void* operator new(size_t n) { { sim::Rt r; if (g_reuse && n <= sizeof(Slot)) for (int i = 0; i < 64; i++) if (!g_used[i]) { g_used[i] = true; return &g_slot[i]; } } return ::operator new(n); }
    static void operator delete(void* p) { if (p >= (void*)g_slot && p < (void*)(g_slot + 64)) { sim::Rt r; g_used[(Slot*)p - g_slot] = false; return; } ::operator delete(p); }
    Rec(int i) : AppenderSkeleton(sim::fmt("dest%d", i)), id(i), busy(0), pad("some state of the destination that dies with it") { sim::Rt r; (*G)[id].constructed++; }
    ~Rec() { SIM_CHECK(busy == 0, "destroyed-while-delivering", "destination %d destroyed while it receives a message", id); sim::Rt r; (*G)[id].destroyed++; (*G)[id].destroyed_seq = sim::seq(); }
    virtual bool requiresLayout() const { return false; }
    virtual void setLayout(Layout*) {}
    virtual void close() {}
    virtual void _append(const LoggingEvent& e) {
        SIM_CHECK(busy == 0, "overlapping-delivery", "two threads deliver to one destination at the same time");
        busy = 1; sim::yield();
        SIM_CHECK(pad.size() == 47, "destroyed-while-delivering", "state of destination %d vanished", id);
        { sim::Rt r; (*G)[id].got[e.message]++; }
        busy = 0;
    }
};
struct Op { int kind; int dest; std::string cat; uint64_t s0, s1; bool attach; };   // recorded attach/detach intervals
struct L { std::string cat, msg; uint64_t s0, s1; };

void lifecycle() {
    sim::sched_random();
    static const char* const cats[] = {"", "a", "a.b", "e"};
    int ncat = 1 + sim::wl(4), nctl = 1 + sim::wl(2), nlog = 1 + sim::wl(3), per = 1 + sim::wl(6), lper = 1 + sim::wl(6);
    std::vector<DestLog> dl; std::vector<Op> ops; std::vector<std::vector<L> > ls(nlog); std::vector<Rec*> refs, all;
    { sim::Rt r; dl.resize(64); G = &dl; for (auto& d : dl) { d.destroyed = d.constructed = 0; d.owned = false; d.destroyed_seq = 0; } }
    for (int i = 0; i < ncat; i++) Category::getInstance(cats[i]);
    bool na = sim::wl(5) == 1; if (na && ncat > 2) Category::getInstance("a.b").setAdditivity(false);
    struct Step { int what; std::string cat; int sel; };
    int next = 0;
    bool sweeps = sim::wl(2);
    g_reuse = sim::wl(3) == 1; memset(g_used, 0, sizeof g_used);
    sim::sample(sim::fmt("%d controllers x %d lifecycle operations, %d loggers x %d messages, %d categories, sweeps %d", nctl, per, nlog, lper, ncat, (int)sweeps));
    // one of the controllers' destinations exist from the start
    for (int c = 0; c < nctl; c++) {
        std::vector<Step> plan; int first = next; next += per + 1;
        { sim::Rt r; for (int i = 0; i < per; i++) { static const int W[] = {0, 0, 1, 2, 2, 3, 6, 4, 5}; Step s; s.what = W[sim::wl(sweeps ? 9 : 7)]; s.cat = cats[sim::wl(ncat)]; s.sel = sim::wl(8); plan.push_back(s); } }
        sim::spawn([&, c, plan, first]() {
            std::vector<std::pair<int, Rec*> > mine; int id = first;          // destinations this controller may name; owned ones may be gone after a sweep
            for (const Step& s : plan) {
                Category& cat = Category::getInstance(s.cat);
                uint64_t s0 = sim::seq();
                auto rec = [&](int dest, bool attach, const std::string& at) { sim::Rt r; ops.push_back(Op{0, dest, at, s0, sim::seq(), attach}); };
                switch (s.what) {
                case 0: case 1: {
                    Rec* d = new Rec(id); { sim::Rt r; dl[id].owned = s.what == 0; dl[id].at = s.cat; if (s.what == 1) refs.push_back(d); }
                    s0 = sim::seq();
                    if (s.what == 0) cat.addAppender(d); else cat.addAppender(*d);
                    rec(id, true, s.cat);
                    { sim::Rt r; mine.push_back(std::make_pair(id, d)); all.push_back(d); }
                    id++; break; }
                case 2: {       // detach one of mine (by pointer; only safe to name it if no sweep may have destroyed it)
                    if (mine.empty()) break;
                    size_t k = s.sel % mine.size(); int did = mine[k].first; Rec* d = mine[k].second;
                    s0 = sim::seq();
                    Category::getInstance(dl[did].at).removeAppender(d);
                    rec(did, false, dl[did].at);
                    if (dl[did].owned) SIM_CHECK(dl[did].destroyed == 1, "not-destroyed", "owned destination %d was detached but destroyed %d times", did, dl[did].destroyed);
                    else SIM_CHECK(dl[did].destroyed == 0, "foreign-destroyed", "destination %d attached by reference was destroyed", did);
                    if (!g_reuse) SIM_CHECK(!Category::getInstance(dl[did].at).ownsAppender(d), "ownership", "destination %d was detached but is still reported as owned", did);
                    { sim::Rt r; mine.erase(mine.begin() + k); all.push_back(d); }
                    break; }
                case 3: {       // attach again: no effect while attached
                    if (mine.empty() || sweeps) break;
                    size_t k = s.sel % mine.size(); int did = mine[k].first;
                    if (s.sel & 4) Category::getInstance(dl[did].at).addAppender(mine[k].second); else Category::getInstance(dl[did].at).addAppender(*mine[k].second);
                    break; }
                case 6: { AppenderSet as = cat.getAllAppenders(); if (!sweeps) for (auto& m : mine) if (dl[m.first].at == s.cat) { SIM_CHECK(as.count(m.second) == 1, "not-listed", "attached destination %d is not listed", m.first); SIM_CHECK(cat.ownsAppender(m.second) == dl[m.first].owned, "ownership", "destination %d: ownership reported %d", m.first, (int)cat.ownsAppender(m.second)); SIM_CHECK(Appender::getAppender(sim::fmt("dest%d", m.first)) == m.second, "not-listed", "destination %d cannot be found by name", m.first); } cat.getAppender(); break; }
                case 4: {
                    cat.removeAllAppenders();
                    { sim::Rt r; uint64_t e = sim::seq(); for (int d = 0; d < 64; d++) if (dl[d].constructed && dl[d].at == s.cat) ops.push_back(Op{1, d, s.cat, s0, e, false}); }
                    sim::Rt r; mine.clear(); break; }
                case 5: {
                    Category::shutdown();
                    { sim::Rt r; uint64_t e = sim::seq(); for (int d = 0; d < 64; d++) if (dl[d].constructed) ops.push_back(Op{1, d, dl[d].at, s0, e, false}); }
                    sim::Rt r; mine.clear(); break; }
                }
                if (sweeps) { sim::Rt r; for (size_t k = mine.size(); k-- > 0;) if (dl[mine[k].first].owned) mine.erase(mine.begin() + k); }   // may be gone: never name it again
            }
        }, "ctl");
    }
    for (int t = 0; t < nlog; t++) {
        std::vector<std::pair<std::string, int> > plan; { sim::Rt r; for (int i = 0; i < lper; i++) { std::string n = cats[sim::wl(ncat)]; plan.push_back(std::make_pair(n, (int)sim::wl(9))); } }
        sim::spawn([&, t, plan]() { int i = 0; for (auto& p : plan) { std::string m = sim::fmt("m%d.%d", t, i++); Category& c = Category::getInstance(p.first); L l; { sim::Rt r; l.cat = p.first; l.msg = m; l.s0 = sim::seq(); } log_via(c, Priority::ERROR, m, p.second); { sim::Rt r; l.s1 = sim::seq(); ls[t].push_back(l); } } }, "log");
    }
    sim::join_all();
    sim::Quiet q;
    // history check
    int judged = 0;
    {
        sim::Rt rt;
        auto reaches = [&](std::string from, const std::string& to) { for (;;) { if (from == to) return true; if (from.empty()) return false; if (na && ncat > 2 && from == "a.b") return false; from = parent_name(from); } };
        for (int d = 0; d < 64; d++) if (dl[d].constructed) {
            int nmsg = 0;
            for (auto& v : ls) for (L& l : v) {
                int n = dl[d].got.count(l.msg) ? dl[d].got[l.msg] : 0; nmsg += n;
                SIM_CHECK(n <= 1, "duplicated", "message %s delivered %d times to destination %d", l.msg.c_str(), n, d);
                bool must = false, may = false;
                if (reaches(l.cat, dl[d].at)) for (Op& a : ops) if (a.dest == d && a.attach) {
                    if (a.s0 <= l.s1) { bool killed = false; for (Op& k : ops) if (k.dest == d && !k.attach && k.s0 > a.s1 && k.s1 < l.s0) killed = true; if (!killed) may = true; }
                    if (a.s1 < l.s0) { bool clear = true; for (Op& k : ops) if (k.dest == d && !k.attach && !(k.s1 < a.s0 || k.s0 > l.s1)) clear = false; if (clear) must = true; }
                }
                if (must) { judged++; SIM_CHECK(n == 1, "lost-message", "destination %d at '%s' was attached throughout but did not get %s logged on '%s'", d, dl[d].at.c_str(), l.msg.c_str(), l.cat.c_str()); }
                if (!may) { judged++; SIM_CHECK(n == 0, "after-detach", "destination %d at '%s' got %s although it was not attached at any moment of the call", d, dl[d].at.c_str(), l.msg.c_str()); }
            }
        }
    }
    // final: shutdown detaches everything; owned destroyed exactly once, the others alive
    Category::shutdown();
    for (int d = 0; d < 64; d++) if (dl[d].constructed) {
        if (dl[d].owned) { SIM_CHECK(dl[d].destroyed == 1, dl[d].destroyed ? "destroyed-twice" : "not-destroyed", "owned destination %d destroyed %d times at shutdown", d, dl[d].destroyed); SIM_CHECK(Appender::getAppender(sim::fmt("dest%d", d)) == nullptr, "stale-name", "destroyed destination %d still found by name", d); }
        else SIM_CHECK(dl[d].destroyed == 0, "foreign-destroyed", "destination %d attached by reference was destroyed", d);
    }
    for (int i = 0; i < ncat; i++) SIM_CHECK(Category::getInstance(cats[i]).getAllAppenders().empty() && Category::getInstance(cats[i]).getAppender() == nullptr, "not-detached", "'%s' has destinations after shutdown", cats[i]);
    for (int i = 0; i < ncat; i++) for (Rec* d : all) SIM_CHECK(!Category::getInstance(cats[i]).ownsAppender(d), "ownership", "'%s' is still reported as the owner of a destination after shutdown", cats[i]);
    // destinations can be used again afterwards
    if (!refs.empty()) { Category::getInstance("a").addAppender(*refs[0]); Category::getInstance("a").error("again"); SIM_CHECK(dl[refs[0]->id].got["again"] == 1, "lost-message", "re-attached destination gets nothing"); Category::getInstance("a").removeAppender(refs[0]); Category::getInstance("a").error("again"); SIM_CHECK(dl[refs[0]->id].got["again"] == 1, "after-detach", "detached destination still gets messages"); }
    for (Rec* r : refs) delete r;
    sim::heap_check();
    if (judged) { sim::probe("judged-deliveries", judged); sim::nontrivial(); }
}
}
SCENARIO(lifecycle, 1) { lifecycle(); }

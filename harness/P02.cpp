// P02: effective logging levels under concurrent category creation, level changes and logging.
#include "loghelp.h"
using namespace log4cpp;
using namespace lh;
namespace {
int any_level() { uint32_t k = sim::wl(14); return k < (uint32_t)NPRI ? PRI[k] : k == 9 ? 650 : k == 10 ? 1 : k == 11 ? 799 : (int)Priority::NOTSET; }

struct Rec : AppenderSkeleton {
    std::map<std::string, int> got;
    Rec(const std::string& n) : AppenderSkeleton(n) {}
    virtual bool requiresLayout() const { return false; }
    virtual void setLayout(Layout*) {}
    virtual void close() {}
    virtual void _append(const LoggingEvent& e) { sim::Rt r; got[e.message]++; }
};

struct Step { int what; int cat; int level; };
// what: 0 set, 1 clear, 2 create/look up, 3 exists, 4 list, 5 fixed context category

void check_quiescent(const std::set<std::string>& created, const std::map<std::string, std::vector<int> >& lasts, const std::map<std::string, Category*>& inst) {
    // own levels: the last set of some thread; effective: nearest set ancestor
    for (auto& n : created) {
        Category* c = Category::exists(n);
        SIM_CHECK(c != nullptr, "category-missing", "category '%s' was created and cannot be found", n.c_str());
        SIM_CHECK(c == &Category::getInstance(n), "category-identity", "'%s' denotes two categories", n.c_str());
        auto it = inst.find(n);
        if (it != inst.end()) SIM_CHECK(it->second == c, "category-identity", "'%s' denotes two categories", n.c_str());
        SIM_CHECK(c->getName() == n, "category-name", "'%s' is called '%s'", n.c_str(), c->getName().c_str());
        int own = c->getPriority();
        auto l = lasts.find(n);
        bool ok = false;
        if (l == lasts.end()) ok = own == (n.empty() ? (int)Priority::INFO : (int)Priority::NOTSET);
        else for (int v : l->second) ok = ok || v == own;
        SIM_CHECK(ok, "own-level", "level of '%s' is %d, which nobody set last", n.c_str(), own);
        std::string a = n; int eff;
        for (;;) { int o = Category::getInstance(a).getPriority(); if (o < Priority::NOTSET) { eff = o; break; } SIM_CHECK(!a.empty(), "own-level", "root category has no level"); a = parent_name(a); }
        SIM_CHECK(c->getChainedPriority() == eff, "effective-level", "effective level of '%s' is %d, nearest set level is %d at '%s'", n.c_str(), c->getChainedPriority(), eff, a.c_str());
        for (int p = 0; p < NPRI; p++) SIM_CHECK(c->isPriorityEnabled(PRI[p]) == (PRI[p] <= eff), "enabled-level", "'%s' at effective level %d says %d for priority %d", n.c_str(), eff, (int)c->isPriorityEnabled(PRI[p]), PRI[p]);
        if (!n.empty()) SIM_CHECK(c->getParent() == &Category::getInstance(parent_name(n)), "category-parent", "parent of '%s' is not '%s'", n.c_str(), parent_name(n).c_str()); else SIM_CHECK(c->getParent() == nullptr, "category-parent", "root has a parent");
        if (!n.empty()) {       // a category with a fixed context stands beside the one of its name
            std::unique_ptr<FixedContextCategory> f(new FixedContextCategory(n, "ctx"));
            SIM_CHECK(f->getParent() == c->getParent() && f->getName() == n, "fixed-parent", "parent of a fixed context category for '%s' is '%s'", n.c_str(), f->getParent() ? f->getParent()->getName().c_str() : "none");
            f->setPriority(PRI[2]); SIM_CHECK(f->getChainedPriority() == PRI[2] && c->getChainedPriority() == eff, "fixed-level", "level %d set for a fixed context of '%s' is %d, its category has %d instead of %d", PRI[2], n.c_str(), f->getChainedPriority(), c->getChainedPriority(), eff);
        }
    }
    std::vector<Category*>* v = Category::getCurrentCategories();
    std::set<std::string> seen; std::set<std::string> must;
    for (auto c : *v) SIM_CHECK(seen.insert(c->getName()).second, "category-identity", "'%s' listed twice", c->getName().c_str());
    for (auto n : created) for (;;) { must.insert(n); if (n.empty()) break; n = parent_name(n); }
    SIM_CHECK(seen == must, "category-list", "%zu categories listed, %zu exist", seen.size(), must.size());
    delete v;
}

void quiescent() {
    sim::sched_random();
    int nt = 2 + sim::wl(3), per = 1 + sim::wl(6), nn = 2 + sim::wl(NNAMES - 1);
    std::set<std::string> created; std::map<std::string, std::vector<int> > lasts; std::map<std::string, Category*> inst;
    int npre = sim::wl(4);
    auto setlevel = [&](const std::string& n, int lv) {
        Category& c = Category::getInstance(n);
        if (n.empty() && lv == Priority::NOTSET) {
            int before = c.getPriority(); (void)before;
            bool threw = false; try { c.setPriority(lv); } catch (std::invalid_argument&) { threw = true; }
            SIM_CHECK(threw, "root-level-cleared", "clearing the root level was accepted");
            return false;
        }
        if (n.empty()) Category::setRootPriority(lv); else c.setPriority(lv);
        return true;
    };
    created.insert(""); Category::getRoot();
    for (int i = 0; i < npre; i++) { std::string n = sim::wl(5) == 1 ? "" : NAMES[sim::wl(nn)]; int lv = any_level(); created.insert(n); if (setlevel(n, lv)) lasts[n].assign(1, lv); }
    std::vector<std::vector<Step> > plans(nt);
    std::map<std::string, std::vector<int> > conc;
    for (int t = 0; t < nt; t++) {
        std::map<std::string, int> mine;
        for (int i = 0; i < per; i++) { Step s; static const int W[] = {0, 0, 0, 0, 1, 2, 2, 3, 4, 5}; s.what = W[sim::wl(10)]; s.cat = sim::wl(6) == 1 ? -1 : (int)sim::wl(nn); s.level = s.what == 1 ? (int)Priority::NOTSET : any_level(); plans[t].push_back(s);
            std::string n = s.cat < 0 ? "" : NAMES[s.cat];
            if (s.what != 3 && s.what != 4) created.insert(n);
            if (s.what <= 1 && !(n.empty() && s.level == Priority::NOTSET)) mine[n] = s.level; }
        for (auto& m : mine) conc[m.first].push_back(m.second);
    }
    for (auto& c : conc) lasts[c.first] = c.second;
    sim::sample(sim::fmt("%d threads x %d level/creation operations on %d names", nt, per, nn));
    for (int t = 0; t < nt; t++) sim::spawn([&, t]() {
        for (const Step& s : plans[t]) {
            std::string n = s.cat < 0 ? "" : NAMES[s.cat];
            switch (s.what) {
            case 0: case 1: setlevel(n, s.level); break;
            case 2: { Category* c = &Category::getInstance(n); sim::Rt r; auto it = inst.find(n); SIM_CHECK(it == inst.end() || it->second == c, "category-identity", "'%s' denotes two categories", n.c_str()); inst[n] = c; break; }
            case 3: Category::exists(n); break;
            case 4: { std::vector<Category*>* v = Category::getCurrentCategories(); std::set<Category*> u(v->begin(), v->end()); SIM_CHECK(u.size() == v->size(), "category-identity", "listed twice"); delete v; break; }
            case 5: { std::unique_ptr<FixedContextCategory> f(new FixedContextCategory(n, "ctx")); f->info("x"); f->getChainedPriority(); break; }
            }
        }
    }, "lvl");
    sim::join_all();
    sim::Quiet q;
    check_quiescent(created, lasts, inst);
    // and again after more, now sequential, changes
    for (int i = 0; i < 3; i++) { std::string n = NAMES[sim::wl(nn)]; int lv = any_level(); created.insert(n); if (setlevel(n, lv)) lasts[n].assign(1, lv); check_quiescent(created, lasts, inst); }
    sim::nontrivial();
}

// one thread changes levels while others log: every call is judged by a level in force during it
void inflight() {
    sim::sched_random();
    int nn = 2 + sim::wl(NNAMES - 1), nl = 1 + sim::wl(3), nw = 2 + sim::wl(6), per = 1 + sim::wl(5);
    Rec* rec = new Rec("rec");
    Category::getRoot().addAppender(rec);
    std::map<std::string, int> lv; lv[""] = Priority::INFO;
    struct W { std::string n; int level; uint64_t s0, s1; };
    struct L { std::string n; int prio; uint64_t s0, s1; std::string msg; };
    std::vector<W> ws; std::vector<std::vector<L> > ls(nl);
    for (int i = 0; i < nw; i++) { W x; x.n = sim::wl(4) == 1 ? "" : NAMES[sim::wl(nn)]; x.level = any_level(); if (x.n.empty() && x.level == Priority::NOTSET) x.level = Priority::DEBUG; x.s0 = x.s1 = 0; ws.push_back(x); }
    bool precreate = sim::wl(2);
    if (precreate) for (int i = 0; i < nn; i++) Category::getInstance(NAMES[i]);
    sim::spawn([&]() { for (W& x : ws) { { sim::Rt r; x.s0 = sim::seq(); } Category::getInstance(x.n).setPriority(x.level); { sim::Rt r; x.s1 = sim::seq(); } } }, "set");
    for (int t = 0; t < nl; t++) {
        struct P { std::string n; int prio, api; std::string m; };
        std::vector<P> plan; { sim::Rt r; for (int i = 0; i < per; i++) { P p; p.n = sim::wl(6) == 1 ? "" : NAMES[sim::wl(nn)]; p.prio = PRI[sim::wl(NPRI)]; p.api = sim::wl(NAPI); p.m = sim::fmt("m%d.%d", t, i); plan.push_back(p); } }
        sim::spawn([&ls, t, plan]() { for (auto& p : plan) { Category& c = Category::getInstance(p.n); L l; { sim::Rt r; l.n = p.n; l.prio = p.prio; l.msg = text_via(p.m, p.api); l.s0 = sim::seq(); } log_via(c, p.prio, p.m, p.api); { sim::Rt r; l.s1 = sim::seq(); ls[t].push_back(l); } } }, "log");
    }
    sim::join_all();
    sim::Quiet q; sim::Rt rt;
    // states of the levels after 0..nw changes
    std::vector<std::map<std::string, int> > st; st.push_back(lv);
    for (W& x : ws) { std::map<std::string, int> m = st.back(); if (x.level == Priority::NOTSET) m.erase(x.n); else m[x.n] = x.level; st.push_back(m); }
    auto eff = [&](int k, std::string n) { for (;;) { auto it = st[k].find(n); if (it != st[k].end()) return it->second; n = parent_name(n); } };
    int judged = 0;
    for (auto& v : ls) for (L& l : v) {
        bool en = false, dis = false;
        for (int k = 0; k <= nw; k++) {
            // state k is possible if change k began before the call ended and change k+1 had not returned before it began
            if (k > 0 && ws[k - 1].s0 > l.s1) continue;
            if (k < nw && ws[k].s1 < l.s0) continue;
            if (l.prio <= eff(k, l.n)) en = true; else dis = true;
        }
        int n = rec->got.count(l.msg) ? rec->got[l.msg] : 0;
        SIM_CHECK(n <= 1, "duplicated", "'%s' delivered %d times", l.msg.c_str(), n);
        if (en && !dis) { SIM_CHECK(n == 1, "suppressed", "'%s' priority %d on '%s' was suppressed although enabled throughout the call", l.msg.c_str(), l.prio, l.n.c_str()); judged++; }
        if (dis && !en) { SIM_CHECK(n == 0, "leaked", "'%s' priority %d on '%s' was delivered although disabled throughout the call", l.msg.c_str(), l.prio, l.n.c_str()); judged++; }
    }
    if (judged) { sim::probe("judged-calls", judged); sim::nontrivial(); }
}
}
SCENARIO(quiescent, 2) { quiescent(); }
SCENARIO(inflight, 1) { inflight(); }

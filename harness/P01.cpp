// P01: delivery of log messages under concurrent logging threads.
#include "loghelp.h"
using namespace log4cpp;
using namespace lh;
namespace {

struct Ev { int thread, idx; std::string cat, msg, ndc, tname; int prio; uint64_t t0, t1; std::string file; unsigned lineno; };   // t0/t1: clock bounds of the call
struct Got { std::string cat, msg, ndc, tname; int prio; uint64_t sec; std::string file; unsigned line; };

// a destination written by a user: not thread safe itself, sees one event at a time
struct Rec : AppenderSkeleton {
    std::vector<Got> got; int busy; bool layoutless;
    Rec(const std::string& n) : AppenderSkeleton(n), busy(0) {}
    ~Rec() {}
    virtual bool requiresLayout() const { return false; }
    virtual void setLayout(Layout*) {}
    virtual void close() {}
    virtual void _append(const LoggingEvent& e) {
        SIM_CHECK(busy == 0, "overlapping-delivery", "two threads deliver to one destination at the same time");
        busy = 1;
        sim::yield();
        { sim::Rt r; got.push_back(Got{e.categoryName, e.message, e.ndc, e.threadName, e.priority, (uint64_t)e.timeStamp.getSeconds(), e.file, e.line}); }
        busy = 0;
    }
};
struct ModFilter : Filter {     // decides by a digit of the message: deterministic function of the event
    int mod, deny, accept;
    ModFilter(int m, int d, int a) : mod(m), deny(d), accept(a) {}
    static int key(const std::string& s) { int h = 0; for (size_t i = 0; i < s.size() && s[i] != ';'; i++) h = (h * 31 + (unsigned char)s[i]) % 9973; return h; }
    virtual Decision _decide(const LoggingEvent& e) { int k = key(e.message) % mod; return k == deny ? DENY : k == accept ? ACCEPT : NEUTRAL; }
    static int model(const std::vector<std::vector<int> >& chain, const std::string& m) { for (size_t i = 0; i < chain.size(); i++) { int k = key(m) % chain[i][0]; if (k == chain[i][1]) return 0; if (k == chain[i][2]) return 1; } return 1; }
};
const char* const LOCFILE[] = {"file.cpp", "/usr/src/dir/file.cpp", "", "C:\\src\\odd name.h"};
enum { D_REC, D_QUEUE, D_STREAM, D_FILE, D_NKIND };
struct Dest {
    int kind; std::string name, at; int threshold; std::vector<std::vector<int> > filt; AppenderSkeleton* app; std::ostringstream* os; std::string path; int layout; int pat;
};
// a line pattern: "%R|%d{%l}|" (seconds and milliseconds of the event), then fields, each followed by '|', then the message
struct Field { int kind; std::string post; int minw, maxw; bool left; };
struct Pattern { std::vector<Field> f; std::string text; };
enum { F_C, F_CN, F_P, F_T, F_X, F_FILE, F_BASE, F_LINE, F_MS, F_DATE, F_LIT, F_PCT, F_N };
std::string civil(uint64_t s, const char* f) { char b[128]; time_t t = (time_t)s; struct tm x; gmtime_r(&t, &x); strftime(b, sizeof b, f, &x); return b; }
Pattern gen_pattern() {
    static const char* const dates[] = {"", "{ISO8601}", "{ABSOLUTE}", "{DATE}", "{%Y-%m-%d %H:%M:%S}", "{%H.%M,%l %j}", "{%l}"};
    Pattern p; p.text = "%R|%d{%l}|"; int n = 1 + sim::wl(7);
    for (int i = 0; i < n; i++) {
        Field f{(int)sim::wl(F_N), "", 0, 0, false};
        if (f.kind != F_LIT && f.kind != F_PCT && sim::wl(3) == 1) { f.minw = sim::wl(20); f.left = f.minw && sim::wl(2); if (sim::wl(2)) f.maxw = 1 + sim::wl(24); }
        if (f.kind == F_CN) f.post = sim::fmt("{%d}", 1 + (int)sim::wl(5));
        if (f.kind == F_DATE) f.post = dates[sim::wl(7)];
        if (f.kind == F_LIT) f.post = sim::fmt(" lit%d{ ", i);
        if (f.kind == F_LIT) p.text += f.post;
        else if (f.kind == F_PCT) p.text += "%%";
        else {
            p.text += "%"; if (f.minw) p.text += sim::fmt("%s%d", f.left ? "-" : "", f.minw); if (f.maxw) p.text += sim::fmt(".%d", f.maxw);
            static const char conv[] = "ccptxFflrd"; p.text += conv[f.kind]; p.text += f.post;
        }
        p.text += "|"; p.f.push_back(f);
    }
    p.text += "%m%n"; return p;
}
std::string base_of(const std::string& f) { size_t k = f.find_last_of("/\\"); return k == std::string::npos ? f : f.substr(k + 1); }
std::string field_text(const Field& f, const Ev& e, uint64_t sec, unsigned ms) {
    std::string v;
    switch (f.kind) {
    case F_C: v = e.cat; break;
    case F_CN: { int n = atoi(f.post.c_str() + 1); std::vector<std::string> c; size_t b = 0; for (;;) { size_t k = e.cat.find('.', b); c.push_back(e.cat.substr(b, k == std::string::npos ? k : k - b)); if (k == std::string::npos) break; b = k + 1; }
                 for (size_t i = (int)c.size() > n ? c.size() - n : 0; i < c.size(); i++) v += (v.empty() ? "" : ".") + c[i]; break; }
    case F_P: v = PNAME[pidx(e.prio)]; break;
    case F_T: v = e.tname; break;
    case F_X: v = e.ndc; break;
    case F_FILE: v = e.file; break;
    case F_BASE: v = base_of(e.file); break;
    case F_LINE: v = sim::fmt("%u", e.lineno); break;
    case F_MS: v = sim::fmt("%lld", (long long)(((int64_t)sec - (int64_t)TimeStamp::getStartTime().getSeconds()) * 1000 + (int64_t)ms - (int64_t)TimeStamp::getStartTime().getMilliSeconds())); break;
    case F_DATE: {
        std::string m = sim::fmt("%03u", ms), q = f.post;
        if (q == "" || q == "{ISO8601}") v = civil(sec, "%Y-%m-%d %H:%M:%S") + "," + m;
        else if (q == "{ABSOLUTE}") v = civil(sec, "%H:%M:%S") + "," + m;
        else if (q == "{DATE}") v = civil(sec, "%d %b %Y %H:%M:%S") + "," + m;
        else if (q == "{%H.%M,%l %j}") v = civil(sec, "%H.%M,") + m + civil(sec, " %j");
        else if (q == "{%l}") v = m;
        else v = civil(sec, "%Y-%m-%d %H:%M:%S");
        break; }
    case F_LIT: return f.post;
    case F_PCT: return "%";
    }
    if (f.maxw && (int)v.size() > f.maxw) v.resize(f.maxw);
    if ((int)v.size() < f.minw) v = f.left ? v + std::string(f.minw - v.size(), ' ') : std::string(f.minw - v.size(), ' ') + v;
    return v;
}

struct World {
    std::map<std::string, int> level; std::map<std::string, bool> additive;   // explicit settings
    std::vector<Dest> dests; std::vector<Pattern> pats;
    int eff(std::string n) { for (;;) { if (level.count(n)) return level[n]; if (n.empty()) return Priority::INFO; n = parent_name(n); } }
    bool reaches(std::string from, const std::string& to) { for (;;) { if (from == to) return true; if (from.empty()) return false; if (additive.count(from) && !additive[from]) return false; from = parent_name(from); } }
    bool wants(const Dest& d, const Ev& e) {
        if (eff(e.cat) < e.prio || !reaches(e.cat, d.at)) return false;
        if (d.threshold != Priority::NOTSET && e.prio > d.threshold) return false;
        return ModFilter::model(d.filt, e.msg) != 0;
    }
};

void check_line(const World& w, const Dest& d, const std::string& line, const Ev& e) {
    std::string exp;
    std::string pn = PNAME[pidx(e.prio)];
    if (d.layout == 0) {            // basic: seconds
        size_t k = line.find(' '); uint64_t s = strtoull(line.c_str(), nullptr, 10);
        exp = pn + " " + e.cat + " " + e.ndc + ": " + e.msg;
        SIM_CHECK(k != std::string::npos && line.substr(k + 1) == exp, "garbled-message", "%s: got '%s' expected '<t> %s'", d.name.c_str(), line.substr(0, 200).c_str(), exp.substr(0, 200).c_str());
        SIM_CHECK(s >= e.t0 / 1000000000ull && s <= e.t1 / 1000000000ull, "wrong-timestamp", "%s: '%s'", d.name.c_str(), line.substr(0, 100).c_str());
    } else if (d.layout == 1) {
        exp = pn + std::string(pn.size() < (size_t)Priority::MESSAGE_SIZE ? Priority::MESSAGE_SIZE - pn.size() : 0, ' ') + ": " + e.msg;
        SIM_CHECK(line == exp, "garbled-message", "%s: got '%s' expected '%s'", d.name.c_str(), line.substr(0, 200).c_str(), exp.substr(0, 200).c_str());
    } else {
        char* q; uint64_t s = strtoull(line.c_str(), &q, 10); unsigned ms = 0; size_t k2 = std::string::npos;
        if (*q == '|') { ms = strtoul(q + 1, &q, 10); if (*q == '|') k2 = (size_t)(q - line.c_str()); }
        SIM_CHECK(k2 != std::string::npos, "garbled-message", "%s: got '%s'", d.name.c_str(), line.substr(0, 300).c_str());
        for (const Field& f : w.pats[d.pat].f) exp += field_text(f, e, s, ms) + "|";
        exp += e.msg;
        SIM_CHECK(line.substr(k2 + 1) == exp, "garbled-line", "%s: pattern '%s': got '%s' expected '..|%s'", d.name.c_str(), w.pats[d.pat].text.c_str(), line.substr(0, 300).c_str(), exp.substr(0, 300).c_str());
        SIM_CHECK(ms < 1000 && s * 1000 + ms >= e.t0 / 1000000ull && s * 1000 + ms <= e.t1 / 1000000ull, "wrong-timestamp", "%s: '%s'", d.name.c_str(), line.substr(0, 100).c_str());
    }
}

void body(bool heavy) {
    sim::sched_random();
    static const uint64_t ticks[] = {1000, 1000, 300000000ull, 1700000000ull};
    sim::clock_tick(ticks[sim::wl(4)]);
    World w;
    int ncat = 2 + sim::wl(NNAMES - 1);
    // levels and additivity
    for (int i = 0; i < ncat; i++) {
        if (sim::wl(3) == 1) w.level[NAMES[i]] = PRI[sim::wl(NPRI)];
        if (sim::wl(5) == 1) w.additive[NAMES[i]] = false;
    }
    if (sim::wl(3)) w.level[""] = PRI[3 + sim::wl(NPRI - 3)];
    for (auto& l : w.level) Category::getInstance(l.first).setPriority(l.second);
    for (auto& a : w.additive) Category::getInstance(a.first).setAdditivity(a.second);
    int nd = 1 + sim::wl(4);
    for (int i = 0; i < nd; i++) {
        Dest d; d.pat = 0; d.kind = sim::wl(D_NKIND); d.name = sim::fmt("d%d", i); d.at = sim::wl(3) == 0 ? "" : NAMES[sim::wl(ncat)];
        d.threshold = sim::wl(3) == 1 ? PRI[3 + sim::wl(NPRI - 3)] : (int)Priority::NOTSET; d.layout = sim::wl(3); d.os = nullptr;
        switch (d.kind) {
        case D_REC: d.app = new Rec(d.name); break;
        case D_QUEUE: d.app = new StringQueueAppender(d.name); break;
        case D_STREAM: { sim::Rt r; d.os = new std::ostringstream; } d.app = new OstreamAppender(d.name, d.os); break;
        case D_FILE: d.path = "/sim/" + d.name + ".log"; d.app = new FileAppender(d.name, d.path); break;
        }
        if (d.kind != D_REC) { if (d.layout == 1) d.app->setLayout(new SimpleLayout()); else if (d.layout == 2) { PatternLayout* p = new PatternLayout(); { sim::Rt r; w.pats.push_back(gen_pattern()); d.pat = (int)w.pats.size() - 1; } p->setConversionPattern(w.pats[d.pat].text); d.app->setLayout(p); } }
        if (d.threshold != Priority::NOTSET) d.app->setThreshold(d.threshold);
        int nf = sim::wl(4) == 1 ? 1 + sim::wl(2) : 0;
        Filter* head = nullptr;
        for (int f = 0; f < nf; f++) { std::vector<int> v{(int)(2 + sim::wl(3)), (int)sim::wl(2), (int)(1 + sim::wl(2))}; if (v[1] == v[2]) v[2]++; d.filt.push_back(v); ModFilter* mf = new ModFilter(v[0], v[1], v[2]); if (head) head->appendChainedFilter(mf); else head = mf; }
        if (head) d.app->setFilter(head);
        // ownership either way
        if (sim::wl(2)) Category::getInstance(d.at).addAppender(d.app); else Category::getInstance(d.at).addAppender(*d.app);
        w.dests.push_back(d);
    }
    int nt = 1 + sim::wl(4), per = 1 + sim::wl(heavy ? 8 : 5);
    std::vector<std::vector<Ev> > evs(nt);
    sim::sample(sim::fmt("%d threads x %d messages, %d categories, %d destinations", nt, per, ncat, nd));
    for (int t = 0; t < nt; t++) {
        // plan (drawn up front so that schedule choices do not change the workload)
        struct Step { int what; std::string arg; int prio, api; std::string cat, fixed; bool late; };
        std::vector<Step> plan;
        { sim::Rt r;
          for (int i = 0; i < per; i++) {
            if (sim::wl(3) == 1) plan.push_back(Step{(int)(1 + sim::wl(5)), sim::fmt("ctx%d.%d", t, i), 0, 0, "", "", false});
            Step s; s.what = 0; s.cat = sim::wl(6) == 1 ? "" : NAMES[sim::wl(ncat)]; s.prio = PRI[NPRI - 1 - sim::wl(NPRI)]; s.api = sim::wl(NAPI);
            s.arg = sim::fmt("<T%d#%d>", t, i);
            uint32_t len; switch (sim::wl(10)) { case 1: len = 900 + sim::wl(400); break; case 2: len = sim::wl(4000); break; case 3: len = (256u << sim::wl(9)) - 16 + sim::wl(32); break; default: len = sim::wl(40); }
            s.arg += ";"; for (uint32_t k = 0; k < len; k++) s.arg += (char)("abcdefghijklmnopqrstuvwxyz0123456789 %"[(k * 7 + t * 13 + i * 5) % 38]);
            s.arg += "$"; if (s.api != 1 && s.api != 6 && s.api != 9 && sim::wl(4) == 1) { static const char odd[] = {0, 1, '\t', '\r', 127, (char)0x80, (char)0xff}; s.arg[s.arg.size() - 1 - sim::wl(len + 1)] = odd[sim::wl(7)]; sim::probe("odd-character"); }
            s.late = false; if (!s.cat.empty() && sim::wl(6) == 1) { s.fixed = sim::fmt("client %d of %d", i, t); s.late = sim::wl(2); sim::probe("fixed-context"); }
            plan.push_back(s);
          } }
        sim::spawn([t, plan, &evs, &w]() {
            std::vector<std::string> ndcm; NDC::ContextStack* saved = nullptr; std::vector<std::string> savedm; int i = 0;
            for (const Step& s : plan) {
                if (s.what == 1 || s.what == 2) { NDC::push(s.arg); sim::Rt r; ndcm.push_back(s.arg); continue; }
                if (s.what == 3) { if (!ndcm.empty()) { std::string x = NDC::pop(); SIM_CHECK(x == ndcm.back(), "ndc-pop", "popped '%s' instead of '%s'", x.c_str(), ndcm.back().c_str()); sim::Rt r; ndcm.pop_back(); } continue; }
                if (s.what == 4) { if (!saved) { saved = NDC::cloneStack(); sim::Rt r; savedm = ndcm; } else { NDC::clear(); sim::Rt r; ndcm.clear(); } continue; }
                if (s.what == 5) { if (saved) { NDC::inherit(saved); sim::Rt r; ndcm = savedm; } continue; }
                std::unique_ptr<FixedContextCategory> fc;      // stands for the category of that name, with a context of its own
                if (!s.fixed.empty()) { fc.reset(new FixedContextCategory(s.cat, s.late ? std::string("early") : s.fixed)); int l; { sim::Rt r; l = w.eff(s.cat); } fc->setPriority(l); if (s.late) fc->setContext(s.fixed); SIM_CHECK(fc->getContext() == s.fixed, "fixed-context", "context '%s' instead of '%s'", fc->getContext().c_str(), s.fixed.c_str()); }
                Category& c = fc ? *fc : Category::getInstance(s.cat);
                Ev e;
                { sim::Rt r; e.thread = t; e.idx = i; e.cat = s.cat; e.msg = text_via(s.arg, s.api); e.prio = s.prio; for (auto& x : ndcm) e.ndc += (e.ndc.empty() ? "" : " ") + x; e.tname = threading::getThreadId(); e.file = s.api == 8 ? LOCFILE[i % 4] : ""; e.lineno = s.api == 8 ? 42 + i * 1000 : 0; e.t0 = sim::now_ns(); }
                SIM_CHECK((NDC::getDepth() == ndcm.size()) && NDC::get() == e.ndc, "ndc-mixed", "diagnostic context of thread %d is '%s', expected '%s'", t, NDC::get().c_str(), e.ndc.c_str());
                if (fc) { sim::Rt r; e.ndc = s.fixed; }
                if (s.api == 8) c.log(s.prio, s.arg, LOCFILE[i % 4], 42 + i * 1000); else log_via(c, s.prio, s.arg, s.api);
                i++;
                { sim::Rt r; e.t1 = sim::now_ns(); evs[t].push_back(e); }
            }
        }, "log");
    }
    sim::join_all();
    sim::Quiet q; sim::Rt rt;
    // per destination: group what arrived by thread, compare with what must have arrived
    size_t total = 0;
    for (Dest& d : w.dests) {
        std::vector<std::string> lines; std::vector<Got> got; 
        if (d.kind == D_REC) got = static_cast<Rec*>(d.app)->got;
        else if (d.kind == D_QUEUE) { StringQueueAppender* s = static_cast<StringQueueAppender*>(d.app); size_t n = s->queueSize(); for (size_t i = 0; i < n; i++) { std::string m = s->popMessage(); SIM_CHECK(!m.empty() && m.back() == '\n', "garbled-message", "%s: queue entry without line end", d.name.c_str()); m.pop_back(); lines.push_back(m); } }
        else { std::string all = d.kind == D_STREAM ? d.os->str() : simos::content(d.path); size_t b = 0; while (b < all.size()) { size_t k = all.find('\n', b); SIM_CHECK(k != std::string::npos, "garbled-message", "%s: last line is not terminated", d.name.c_str()); lines.push_back(all.substr(b, k - b)); b = k + 1; } }
        std::vector<std::vector<const Ev*> > want(evs.size()); size_t nwant = 0;
        for (size_t t = 0; t < evs.size(); t++) for (Ev& e : evs[t]) if (w.wants(d, e)) { want[t].push_back(&e); nwant++; }
        total += nwant;
        std::vector<size_t> pos(evs.size(), 0);
        size_t n = d.kind == D_REC ? got.size() : lines.size();
        for (size_t i = 0; i < n; i++) {
            const std::string& m = d.kind == D_REC ? got[i].msg : lines[i];
            size_t k = m.find("<T"); int t = -1, ix = -1;
            if (k != std::string::npos) sscanf(m.c_str() + k, "<T%d#%d>", &t, &ix);
            SIM_CHECK(t >= 0 && t < (int)evs.size(), "garbled-message", "%s: '%s'", d.name.c_str(), m.substr(0, 200).c_str());
            SIM_CHECK(pos[t] < want[t].size(), "unexpected-message", "%s (at '%s'): message %d of thread %d delivered too often or not meant for it", d.name.c_str(), d.at.c_str(), ix, t);
            const Ev& e = *want[t][pos[t]++];
            SIM_CHECK(ix == e.idx, "lost-or-reordered", "%s (at '%s'): thread %d: got message %d where %d was due", d.name.c_str(), d.at.c_str(), t, ix, e.idx);
            if (d.kind == D_REC) {
                const Got& g = got[i];
                SIM_CHECK(g.msg == e.msg && g.cat == e.cat && g.prio == e.prio && g.ndc == e.ndc && g.tname == e.tname, "garbled-message", "%s: message %d of thread %d arrived as cat='%s' prio=%d ndc='%s' thread='%s' (own '%s') msg='%s'", d.name.c_str(), ix, t, g.cat.c_str(), g.prio, g.ndc.c_str(), g.tname.c_str(), e.tname.c_str(), g.msg.substr(0, 200).c_str());
                SIM_CHECK(g.sec >= e.t0 / 1000000000ull && g.sec <= e.t1 / 1000000000ull, "wrong-timestamp", "%s", d.name.c_str());
                SIM_CHECK(g.file == e.file && g.line == e.lineno, "wrong-location", "%s:%u", g.file.c_str(), g.line);
            } else check_line(w, d, lines[i], e);
        }
        for (size_t t = 0; t < want.size(); t++) SIM_CHECK(pos[t] == want[t].size(), "lost-message", "%s (at '%s'): %zu of %zu messages of thread %zu arrived", d.name.c_str(), d.at.c_str(), pos[t], want[t].size(), t);
    }
    if (total) { sim::probe("messages-delivered", total); sim::nontrivial(); }
}
}
SCENARIO(delivery, 3) { body(false); }
SCENARIO(delivery_long, 1) { body(true); }

// P06: logging set up from a configuration file (complete, damaged, unreadable, replaced) or from the built-in defaults.
#include "loghelp.h"
#include <utUtil/Logging.h>
#include <iostream>
#include <map>
#include <algorithm>
using namespace log4cpp;
using namespace lh;
namespace {
struct Sink : std::streambuf {           // stands for the terminal
    std::string data;
    virtual int overflow(int c) { if (c != EOF) { sim::Rt r; data += (char)c; } return c == EOF ? 0 : c; }
    virtual std::streamsize xsputn(const char* s, std::streamsize n) { sim::Rt r; data.append(s, (size_t)n); return n; }
};
struct Redirect { std::streambuf *o, *e; Sink out, err; Redirect() { o = std::cout.rdbuf(&out); e = std::cerr.rdbuf(&err); } ~Redirect() { std::cout.rdbuf(o); std::cerr.rdbuf(e); } };

// ---------------------------------------------------------------- model, from the documentation of the format
std::string trim(const std::string& s) { size_t b = s.find_first_not_of(" \t\r\n"), e = s.find_last_not_of(" \t\r\n"); return b == std::string::npos ? "" : s.substr(b, e - b + 1); }
typedef std::map<std::string, std::string> Props;
const char* env_dir = nullptr;           // value of the environment variable UBITRACK_SIM_DIR, if it is set
Props parse(const std::string& text) {
    Props p; size_t i = 0;
    while (i < text.size()) {
        size_t e = text.find('\n', i); std::string l = text.substr(i, e == std::string::npos ? std::string::npos : e - i); i = e == std::string::npos ? text.size() : e + 1;
        l = l.substr(0, l.find('#')); size_t q = l.find('='); if (q == std::string::npos) continue;
        std::string k = trim(l.substr(0, q)), v = trim(l.substr(q + 1)), r; size_t a = 0;
        for (;;) { size_t b = v.find("${", a); r += v.substr(a, b == std::string::npos ? b : b - a); if (b == std::string::npos) break; size_t c = v.find('}', b); if (c == std::string::npos) { r += v.substr(b); break; } std::string vn = v.substr(b + 2, c - b - 2); Props::iterator it = p.find(vn); if (vn == "UBITRACK_SIM_DIR" && env_dir) r += env_dir; else if (it != p.end()) r += it->second; a = c + 1; }
        if (k.compare(0, 6, "log4j.") == 0) k = k.substr(6); else if (k.compare(0, 8, "log4cpp.") == 0) k = k.substr(8); else if (k == "log4j" || k == "log4cpp") { }
        p.insert(std::make_pair(k, r));
    }
    return p;
}
bool level(const std::string& s, int& v) {
    for (int i = 0; i < NPRI; i++) if (s == PNAME[i]) { v = PRI[i]; return true; }
    if (s == "EMERG") { v = Priority::EMERG; return true; } if (s == "NOTSET") { v = Priority::NOTSET; return true; }
    if (s.empty()) return false;
    for (char c : s) if (c < '0' || c > '9') return false;
    v = atoi(s.c_str()); return true;
}
std::string last(const std::string& s) { size_t k = s.rfind('.'); return k == std::string::npos ? s : s.substr(k + 1); }
enum Lay { L_BASIC, L_SIMPLE, L_PATTERN };
struct Dest { std::string name; bool console; std::string file; bool append; Lay lay; std::string pattern; int threshold; };
bool render(const Dest& d, int pri, const std::string& cat, const std::string& msg, std::string& o) {
    std::string pn = PNAME[pidx(pri)]; if (pri == Priority::EMERG) pn = "FATAL";
    if (d.lay == L_BASIC) { o = sim::fmt("%llu %s %s : %s\n", (unsigned long long)(sim::now_ns() / 1000000000ull), pn.c_str(), cat.c_str(), msg.c_str()); return true; }
    if (d.lay == L_SIMPLE) { o = sim::fmt("%-8s: %s\n", pn.c_str(), msg.c_str()); return true; }
    o.clear();
    for (size_t i = 0; i < d.pattern.size(); i++) {
        if (d.pattern[i] != '%') { o += d.pattern[i]; continue; }
        std::string w; bool left = false; i++;
        if (i < d.pattern.size() && d.pattern[i] == '-') { left = true; i++; if (i >= d.pattern.size() || !isdigit(d.pattern[i])) return false; }
        while (i < d.pattern.size() && isdigit(d.pattern[i])) w += d.pattern[i++];
        if (i >= d.pattern.size()) return false;
        std::string x;
        switch (d.pattern[i]) { case 'm': x = msg; break; case 'n': o += '\n'; continue; case '%': o += '%'; continue; case 'p': x = pn; break; case 'c': x = cat; break; case 'x': break; default: return false; }
        size_t n = w.empty() ? 0 : (size_t)atoi(w.c_str());
        if (x.size() < n) x = left ? x + std::string(n - x.size(), ' ') : std::string(n - x.size(), ' ') + x;
        o += x;
    }
    return true;
}
struct CatCfg { int level; bool additive; std::vector<Dest> dests; CatCfg() : level(Priority::NOTSET), additive(true) {} };
struct Config { bool ok, unsure; std::string why; std::map<std::string, CatCfg> cats; std::vector<Dest> dests; Config() : ok(false), unsure(false) {} };
Config interpret(const Props& p) {
    Config c; std::map<std::string, Dest> ds; int v;
    for (auto& e : p) {
        if (e.first.compare(0, 9, "appender.") != 0) continue;
        std::string rest = e.first.substr(9); std::string name = rest.substr(0, rest.find('.'));
        if (name.empty()) { c.unsure = true; return c; }        // a destination without a name: not specified
        if (rest != name) { if (!p.count("appender." + name)) { c.why = "partial definition"; return c; } continue; }
        Dest d; d.name = name; std::string pre = "appender." + name, t = last(e.second); d.append = true; d.console = t == "ConsoleAppender"; d.threshold = Priority::NOTSET;
        if (t == "FileAppender" || t == "RollingFileAppender") { d.file = p.count(pre + ".fileName") ? p.find(pre + ".fileName")->second : "foobar"; if (p.count(pre + ".append")) d.append = p.find(pre + ".append")->second == "true"; if (p.count(pre + ".maxFileSize") && p.find(pre + ".maxFileSize")->second.compare(0, 5, "10000") != 0) d.file = "rotates:" + d.file; }
        else if (!d.console) { c.why = "appender type " + t; return c; }
        if (!p.count(pre + ".layout")) { c.why = "no layout"; return c; }
        std::string lt = last(p.find(pre + ".layout")->second); d.pattern = "%m%n";
        if (lt == "BasicLayout") d.lay = L_BASIC; else if (lt == "SimpleLayout") d.lay = L_SIMPLE; else if (lt == "PatternLayout") { d.lay = L_PATTERN; if (p.count(pre + ".layout.ConversionPattern")) d.pattern = p.find(pre + ".layout.ConversionPattern")->second; for (size_t i = 0; i + 1 < d.pattern.size(); i++) if (d.pattern[i] == '%') { size_t j = i + 1; while (j < d.pattern.size() && (isdigit(d.pattern[j]) || d.pattern[j] == '-')) j++; if (j < d.pattern.size() && (d.pattern[j] == '.' || (j > i + 1 && (d.pattern[j] == 'n' || d.pattern[j] == '%')))) { c.unsure = true; return c; } i = j; }
            std::string o; if (!render(d, 600, "c", "m", o)) { c.why = "pattern"; return c; } } else { c.why = "layout type"; return c; }
        if (p.count(pre + ".threshold")) { std::string th = p.find(pre + ".threshold")->second; if (!th.empty()) { if (!level(th, v)) { c.why = "threshold"; return c; } d.threshold = v; } }
        ds[name] = d; c.dests.push_back(d);
    }
    if (!p.count("rootCategory")) { c.why = "no root"; return c; }
    for (auto& e : p) {
        std::string n; if (e.first == "rootCategory") n = ""; else if (e.first.compare(0, 9, "category.") == 0) n = e.first.substr(9); else continue;
        if (e.first == "category.") { c.unsure = true; return c; }      // not specified
        CatCfg k; std::vector<std::string> tok; std::string s = e.second; size_t i = 0;
        for (;;) { size_t q = s.find(',', i); tok.push_back(trim(s.substr(i, q == std::string::npos ? q : q - i))); if (q == std::string::npos) break; i = q + 1; }
        if (!tok.empty() && !tok[0].empty()) { if (!level(tok[0], v)) { c.why = "level " + tok[0]; return c; } k.level = v; }
        if (n.empty() && k.level >= Priority::NOTSET) { c.why = "root without level"; return c; }
        std::string ak = "additivity." + (n.empty() ? std::string("rootCategory") : n); if (p.count(ak)) k.additive = p.find(ak)->second == "true";
        for (size_t j = 1; j < tok.size(); j++) { if (!ds.count(tok[j])) { c.why = "unknown destination " + tok[j]; return c; } bool dup = false; for (auto& d : k.dests) dup |= d.name == tok[j]; if (!dup) k.dests.push_back(ds[tok[j]]); }
        c.cats[n] = k;
    }
    c.ok = true; return c;
}

// ---------------------------------------------------------------- generator
const char* const PATS[] = {"%m%n", "%p %c: %m%n", "[%-6p] %m (%c)%n", "%%%m%%%n", "%6p|%12c|%m%n", "x %m%n"};
std::string pad() { static const char* const w[] = {"", "", " ", "  ", "\t"}; return w[sim::wl(5)]; }
std::string gen(int round, bool reuse_file) {
    std::vector<std::string> lines; int na = 1 + sim::wl(4);
    std::string dir = "/sim/";
    bool var = sim::wl(3) == 1; if (var) lines.push_back("dir = /sim/");
    bool evar = !var && env_dir && sim::wl(2) == 1;
    auto key = [&](const std::string& k) { static const char* const pf[] = {"", "log4j.", "log4cpp."}; return pad() + pf[sim::wl(3)] + k + pad() + "=" + pad(); };
    std::vector<std::string> body;
    for (int i = 0; i < na; i++) {
        std::string a = sim::fmt("appender.%s%d", i % 2 ? "a" : "dest", i), f = sim::fmt("r%d_%d.log", reuse_file ? 0 : round, i);
        int kind = sim::wl(3);
        body.push_back(key(a) + (kind == 2 ? (sim::wl(2) ? "ConsoleAppender" : "org.apache.log4j.ConsoleAppender") : kind == 1 ? "RollingFileAppender" : sim::wl(2) ? "FileAppender" : "org.apache.log4cpp.FileAppender"));
        if (kind != 2) { body.push_back(key(a + ".fileName") + (var ? "${dir}" : evar ? "${UBITRACK_SIM_DIR}" : dir) + f); if (sim::wl(2)) body.push_back(key(a + ".append") + (sim::wl(2) ? "true" : "false")); }
        if (kind == 1) { if (sim::wl(2)) body.push_back(key(a + ".maxFileSize") + "100000"); if (sim::wl(2)) body.push_back(key(a + ".maxBackupIndex") + "3"); }
        int lay = sim::wl(3); body.push_back(key(a + ".layout") + (lay == 0 ? "PatternLayout" : lay == 1 ? "SimpleLayout" : "log4cpp.BasicLayout"));
        if (lay == 0 && sim::wl(5)) { std::string pt = PATS[sim::wl(6)]; if (sim::wl(6) == 1) pt = std::string(200 + sim::wl(200), '-') + pt; body.push_back(key(a + ".layout.ConversionPattern") + pt); }
        if (sim::wl(3) == 1) body.push_back(key(a + ".threshold") + (sim::wl(4) ? PNAME[sim::wl(NPRI)] : "450"));
    }
    auto dests = [&]() { std::string s; int n = sim::wl(3); for (int i = 0; i < n; i++) { int k = sim::wl(na); s += "," + pad() + sim::fmt("%s%d", k % 2 ? "a" : "dest", k) + pad(); } return s; };
    body.push_back(key("rootCategory") + (sim::wl(8) == 1 ? "650" : PNAME[sim::wl(NPRI)]) + pad() + dests());
    for (int i = 0; i < NNAMES; i++) if (sim::wl(3) == 1) { std::string n = NAMES[i];
        body.push_back(key("category." + n) + (sim::wl(4) == 1 ? std::string(sim::wl(2) ? "NOTSET" : "") : std::string(PNAME[sim::wl(NPRI)])) + dests());
        if (sim::wl(3) == 1) body.push_back(key("additivity." + n) + (sim::wl(2) ? "false" : "true")); }
    for (size_t i = body.size(); i > 1; i--) std::swap(body[i - 1], body[sim::wl((uint32_t)i)]);
    std::string t; for (auto& l : lines) t += l + "\n";
    for (auto& l : body) {
        if (sim::wl(10) == 1) t += sim::wl(2) ? "# a comment = with an equals sign\n" : "\n";
        if (sim::wl(25) == 1) t += "# " + std::string(240 + sim::wl(300), '.') + "\n";
        if (sim::wl(25) == 1) t += "no assignment here\n";
        t += l; if (sim::wl(10) == 1) t += " # trailing"; if (sim::wl(30) == 1) t += std::string(250 + sim::wl(30), ' '); if (sim::wl(20) == 1) t += "\r"; t += "\n";
    }
    return t;
}
std::string damage(const std::string& t, std::string& what) {
    std::vector<std::string> ls; size_t i = 0; while (i < t.size()) { size_t e = t.find('\n', i); ls.push_back(t.substr(i, e - i)); i = e + 1; }
    auto join = [&]() { std::string s; for (auto& l : ls) s += l + "\n"; return s; };
    switch (sim::wl(5)) {
    case 0: what = "cut"; return t.substr(0, sim::wl((uint32_t)t.size() + 1));
    case 1: { what = "line lost"; ls.erase(ls.begin() + sim::wl((uint32_t)ls.size())); return join(); }
    case 2: { what = "value replaced"; size_t k = sim::wl((uint32_t)ls.size()); static const char* const bad[] = {"", "bogus", "INFO, nowhere", "NOTSET", "NONE", "12x", "%q", "%"}; size_t q = ls[k].find('='); if (q != std::string::npos) ls[k] = ls[k].substr(0, q + 1) + bad[sim::wl(8)]; return join(); }
    case 3: { what = "line doubled and changed"; size_t k = sim::wl((uint32_t)ls.size()); size_t q = ls[k].find('='); if (q != std::string::npos) ls.insert(ls.begin() + sim::wl((uint32_t)ls.size() + 1), ls[k].substr(0, q + 1) + " WARN"); return join(); }
    default: { what = "byte changed"; if (t.empty()) return t; std::string s = t; s[sim::wl((uint32_t)s.size())] = "=#,. xA9"[sim::wl(8)]; return s; }
    }
}
}
SCENARIO(configure, 1) {
    sim::sched_random();
    env_dir = sim::wl(2) ? "/sim/" : nullptr; if (env_dir) setenv("UBITRACK_SIM_DIR", env_dir, 1); else unsetenv("UBITRACK_SIM_DIR");
    Redirect* R = new Redirect();
    std::map<std::string, CatCfg> state; CatCfg rootdef; rootdef.level = Priority::INFO; state[""] = rootdef;
    std::map<std::string, std::string> files; std::string out, err; bool errdest = false;
    int rounds = 1 + sim::wl(3), serial = 0; bool threads = sim::wl(3) == 1, stop = false; std::set<std::string> fuzzy, rotating;
    for (int rd = 0; rd < rounds && !stop; rd++) {
        std::string text = gen(rd, sim::wl(3) == 1), what = "intact"; bool missing = false, badread = false;
        if (sim::wl(3) == 1) text = damage(text, what);
        if (sim::wl(12) == 1) { missing = true; what = "missing"; } else if (sim::wl(12) == 1) { badread = true; what = "read error"; }
        simos::put("/sim/log.conf", text); if (missing) { if (sim::wl(2)) simos::erase("/sim/log.conf"); else simos::faults().open_fail = 1000; }
        { sim::Rt r; for (int i = 0; i < 4; i++) { std::string f = sim::fmt("/sim/r%d_%d.log", rd, i); if (!files.count(f) && !rotating.count(f) && sim::wl(3) == 1) { simos::put(f, "before\n"); files[f] = "before\n"; } } }
        if (badread) { simos::faults().read_eio = 50 + sim::wl(300); simos::faults().read_short = 700; } else if (sim::wl(3) == 1) { simos::faults().read_short = 300; }
        Config cfg; { sim::Rt r; cfg = interpret(parse(text)); if (missing) { cfg = Config(); cfg.why = "missing"; } }
        if (cfg.unsure) { simos::faults_off(); break; }
        sim::sample(sim::fmt("%d bytes of configuration, %s: %s", (int)text.size(), what.c_str(), cfg.ok ? "valid" : cfg.why.c_str()));
        sim::ev("configure %s valid=%d %s", what.c_str(), (int)cfg.ok, cfg.why.c_str());
        bool th = threads && rd > 0;
        if (th) for (int t = 0; t < 2; t++) { int n = 1 + sim::wl(4); sim::spawn([t, n]() { for (int i = 0; i < n; i++) Category::getInstance(NAMES[(t * 3 + i) % NNAMES]).error(std::string("noise")); }, "log"); }
        Ubitrack::Util::initLogging("/sim/log.conf");
        if (th) sim::join_all();
        simos::faults_off();
        if (simos::fired_count("read-eio")) { sim::Rt r; cfg = Config(); cfg.why = "read error"; }
        if (missing) { simos::put("/sim/log.conf", ""); }
        // ---- what is in force now
        if (cfg.ok) {
            sim::Rt r;
            for (auto& d : cfg.dests) if (!d.console && d.file.compare(0, 5, "/sim/") == 0 && !rotating.count(d.file) && d.file.size() > 5 && d.file.find('/', 5) == std::string::npos) { if (!files.count(d.file)) files[d.file] = ""; if (!d.append) { files[d.file].clear(); } }
            for (auto& d : cfg.dests) if (d.file.compare(0, 8, "rotates:") == 0) { files.erase(d.file.substr(8)); rotating.insert(d.file.substr(8)); }
            for (auto& k : cfg.cats) state[k.first] = k.second;
            sim::probe("configured");
        } else { stop = true; sim::probe("fallback"); }
        if (th) { sim::Rt r; fuzzy.insert("all"); }
        // ---- probes
        std::vector<std::string> names; { sim::Rt r; names.push_back(""); for (int i = 0; i < NNAMES; i++) names.push_back(NAMES[i]); names.push_back("zz.other"); }
        auto strip = [](std::string s) { size_t k; while ((k = s.find("noise")) != std::string::npos) { size_t b = s.rfind('\n', k); b = b == std::string::npos ? 0 : b + 1; size_t e = s.find('\n', k); s.erase(b, e == std::string::npos ? std::string::npos : e - b + 1); } return s; };
        if (cfg.ok && !fuzzy.empty()) { sim::Rt r; for (auto& f : files) f.second = simos::content(f.first); out = R->out.data; err = R->err.data; }
        for (auto& n : names) for (int k = 0; k < 3; k++) {
            int pri = PRI[sim::wl(NPRI)]; if (!cfg.ok) pri = k == 0 ? Priority::INFO : k == 1 ? Priority::NOTICE : Priority::DEBUG;
            std::string msg; { sim::Rt r; msg = sim::fmt("<#%d>", serial++); }
            Category& c = n.empty() ? Category::getRoot() : Category::getInstance(n);
            c.log(pri, msg);
            sim::Rt r;
            if (!cfg.ok) {
                // built-in defaults: information and above on standard error, at least for what the file does not name
                size_t hits = 0; for (size_t q = 0; (q = R->err.data.find(msg, q)) != std::string::npos; q++) hits++;
                bool named = n != "" && text.find("category") != std::string::npos && n != "zz.other";
                if (state.size() > 1 && n != "" && n != "zz.other") named = true;
                if (!named) SIM_CHECK(hits == (pri == Priority::DEBUG || (pri == Priority::INFO && n == "Ubitrack.Events") ? 0u : 1u), "default-logging", "%s: after an unusable configuration (%s) a %s message of '%s' appears %zu times on standard error; configuration: %s", what.c_str(), cfg.why.c_str(), PNAME[pidx(pri)], n.c_str(), hits, text.c_str());
                if (!named && hits) { size_t q = R->err.data.find(msg); SIM_CHECK(R->err.data.find("(" + n + ")\n", q) != std::string::npos && R->err.data.rfind(PNAME[pidx(pri)], q) != std::string::npos, "default-format", "standard error line lacks level or category"); }
                if (n == "Ubitrack.Events" && pri != Priority::NOTICE) SIM_CHECK(hits == 0, "default-events", "%s message of the event category on standard error", PNAME[pidx(pri)]);
                continue;
            }
            // effective level
            std::string m = n; while (!m.empty() && (!state.count(m) || state[m].level >= Priority::NOTSET)) m = parent_name(m);
            bool enabled = state[m].level >= pri;
            std::vector<std::string> oc; std::map<std::string, std::vector<std::string> > fc;
            if (enabled) for (m = n;; m = parent_name(m)) {
                if (state.count(m)) { for (auto& d : state[m].dests) {
                    if (d.threshold < pri) continue;
                    std::string line; if (!render(d, pri, n, msg, line)) sim::fail("harness", "pattern");
                    if (d.console) oc.push_back(line); else if (files.count(d.file)) fc[d.file].push_back(line);
                } if (!state[m].additive) break; }
                if (m.empty()) break;
            }
            // destinations of one category may write in any order
            auto settle = [](std::string& base, std::vector<std::string>& v, const std::string& got) { std::sort(v.begin(), v.end()); std::string first; bool have = false; do { std::string x = base; for (auto& l : v) x += l; if (!have) { first = x; have = true; } if (x == got) { base = x; return; } } while (std::next_permutation(v.begin(), v.end())); base = first; };
            settle(out, oc, R->out.data); for (auto& f : fc) settle(files[f.first], f.second, simos::content(f.first));
            SIM_CHECK(R->out.data == out, "console", "after %s of '%s' the console holds '%s', expected '%s'", PNAME[pidx(pri)], n.c_str(), R->out.data.substr(R->out.data.size() > 100 ? R->out.data.size() - 100 : 0).c_str(), out.substr(out.size() > 100 ? out.size() - 100 : 0).c_str());
            SIM_CHECK(R->err.data == err, "stderr", "message on standard error although the configuration is usable; configuration: %s", text.c_str());
            for (auto& f : files) { std::string g = simos::content(f.first); SIM_CHECK(g == f.second, "file", "after %s of '%s' file %s ends with '%s', expected '%s'", PNAME[pidx(pri)], n.c_str(), f.first.c_str(), g.substr(g.size() > 100 ? g.size() - 100 : 0).c_str(), f.second.substr(f.second.size() > 100 ? f.second.size() - 100 : 0).c_str()); }
        }
        if (what != "intact") sim::nontrivial();
    }
    (void)errdest;
    delete R;
}

SCENARIO(rolling, 1) {        // a rolling destination set up by a file behaves as one that is constructed with the same values
    sim::sched_random(); sim::Quiet quiet;
    int size = sim::wl(4) ? 100 + (int)sim::wl(2000) : 0, idx = sim::wl(4) ? (int)sim::wl(12) : -1; int app = (int)sim::wl(3); bool before = sim::wl(2);
    if (!size && sim::wl(2)) size = 1; if (idx == 0) idx = 1;
    std::string conf = "rootCategory = DEBUG, R\nappender.R = RollingFileAppender\nappender.R.fileName = /sim/a.log\nappender.R.layout = SimpleLayout\n";
    if (size) conf += sim::fmt("appender.R.maxFileSize = %d\n", size); if (idx >= 0) conf += sim::fmt("appender.R.maxBackupIndex = %d\n", idx); if (app) conf += sim::fmt("appender.R.append = %s\n", app == 1 ? "true" : "false");
    sim::sample(sim::fmt("size %d index %d append %d", size, idx, app));
    simos::put("/sim/log.conf", conf); if (before) { simos::put("/sim/a.log", "before\n"); simos::put("/sim/b.log", "before\n"); }
    Ubitrack::Util::initLogging("/sim/log.conf");
    RollingFileAppender* b = new RollingFileAppender("b", "/sim/b.log", size ? size : 10 * 1024 * 1024, idx >= 0 ? idx : 1, app != 2); b->setLayout(new SimpleLayout());
    int n = 5 + (int)sim::wl(60); if (!size && sim::wl(8) == 1) n = 420;
    for (int i = 0; i < n; i++) { std::string m = sim::fmt("<%d>", i) + std::string(sim::wl(n == 420 ? 60000 : 80), 'x'); int pri = PRI[sim::wl(NPRI - 1)]; if (pri > Priority::DEBUG) pri = Priority::DEBUG; Category::getRoot().log(pri, m); b->doAppend(LoggingEvent("", m, "", pri, "", 0)); }
    sim::Rt r;
    for (int k = 0; k <= 14; k++) { std::string suf = k ? sim::fmt(".%d", k) : ""; std::string x = simos::content("/sim/a.log" + suf), y = simos::content("/sim/b.log" + suf); SIM_CHECK(x == y, "rolling-config", "file%s of the configured rolling destination (size %d, backups %d, append %d) has %zu bytes, of the constructed one %zu", suf.c_str(), size, idx, app, x.size(), y.size()); if (k && x.size()) sim::probe("configured-backups"); }
    sim::nontrivial();
}
SCENARIO(simple, 1) {         // the older format: commands in a row, applied in their order
    sim::sched_random();
    Redirect* R = new Redirect(); std::map<std::string, CatCfg> state; CatCfg rootdef; rootdef.level = Priority::INFO; state[""] = rootdef;
    std::map<std::string, std::string> files; std::string out, text, bad; int n = 1 + sim::wl(10), serial = 0;
    int badat = sim::wl(3) == 1 ? (int)sim::wl(n) : -1;
    auto sp = []() { static const char* const w[] = {" ", "  ", "\t", " \t "}; return std::string(w[sim::wl(4)]); };
    for (int i = 0; i < n; i++) {
        std::string cat = sim::wl(4) == 0 ? "" : NAMES[sim::wl(NNAMES)], cn = cat.empty() ? "root" : cat; int cmd = sim::wl(4);
        if (sim::wl(6) == 1) text += "# comment appender root basic console\n"; if (sim::wl(8) == 1) text += "\n"; if (sim::wl(6) == 1) text += "  ";
        if (i == badat) { static const char* const b[] = {"bogus root x", "priority root NONE", "appender root basic nowhere", "appender root fancy console", "appender root pattern console %q", "priority root 12x"}; bad = b[sim::wl(6)]; text += bad + "\n"; break; }
        if (cmd == 0) { int v = 0; std::string l = sim::wl(6) == 1 ? "650" : PNAME[sim::wl(NPRI)]; level(l, v); if (cat.empty() || !state.count(cat) || true) state[cat].level = v; text += "priority" + sp() + cn + sp() + l + "\n"; }
        else if (cmd == 1) text += "category" + sp() + cn + "\n";
        else {
            Dest d; d.name = sim::fmt("d%d", i); int kind = sim::wl(3); d.console = kind == 0; d.append = true; d.threshold = Priority::NOTSET; int lay = sim::wl(3); d.lay = (Lay)lay; d.pattern = lay == 2 ? PATS[sim::wl(6)] : "";
            text += "appender" + sp() + cn + sp() + (lay == 0 ? "basic" : lay == 1 ? "simple" : "pattern") + sp();
            if (kind == 0) text += "console"; else { d.file = sim::fmt("/sim/s%d.log", i); files[d.file] = ""; if (sim::wl(2)) { simos::put(d.file, "before\n"); files[d.file] = "before\n"; } text += kind == 1 ? "file" + sp() + d.file : "rolling" + sp() + d.file + sp() + "100000" + sp() + "3"; }
            if (lay == 2) text += sp() + d.pattern; text += "\n"; state[cat].dests.push_back(d);
        }
    }
    simos::put("/sim/simple.conf", text); bool missing = sim::wl(12) == 1, badread = !missing && sim::wl(6) == 1;
    if (missing) { if (sim::wl(2)) simos::erase("/sim/simple.conf"); else simos::faults().open_fail = 1000; }
    if (badread) { simos::faults().read_eio = 100 + sim::wl(400); simos::faults().read_short = 700; } else if (sim::wl(3) == 1) simos::faults().read_short = 500;
    sim::sample(text.substr(0, 200)); bool reported = false;
    try { SimpleConfigurator::configure("/sim/simple.conf"); } catch (ConfigureFailure&) { reported = true; }
    simos::faults_off(); badread = simos::fired_count("read-eio") > 0;
    SIM_CHECK(reported == (missing || badread || !bad.empty()), "simple-report", "a configuration with %s was %s: %s", missing ? "no file" : badread ? "a read error" : bad.empty() ? "no error" : bad.c_str(), reported ? "refused" : "accepted", text.c_str());
    if (reported) { sim::probe("simple-refused"); delete R; sim::nontrivial(); return; }
    sim::probe("simple-configured");
    for (int q = 0; q < 20; q++) {
        std::string n = sim::wl(5) == 0 ? "" : NAMES[sim::wl(NNAMES)], msg; int pri = PRI[sim::wl(NPRI)]; { sim::Rt r; msg = sim::fmt("<#%d>", serial++); }
        (n.empty() ? Category::getRoot() : Category::getInstance(n)).log(pri, msg);
        sim::Rt r; std::string m = n; while (!m.empty() && (!state.count(m) || state[m].level >= Priority::NOTSET)) m = parent_name(m);
        std::vector<std::string> oc; std::map<std::string, std::vector<std::string> > fc;
        if (state[m].level >= pri) for (m = n;; m = parent_name(m)) { if (state.count(m)) for (auto& d : state[m].dests) { std::string line; if (!render(d, pri, n, msg, line)) sim::fail("harness", "pattern"); if (d.console) oc.push_back(line); else fc[d.file].push_back(line); } if (m.empty()) break; }
        for (auto& f : fc) for (auto& l : f.second) files[f.first] += l;
        // destinations of one category may write in any order
        std::string got = R->out.data.substr(std::min(out.size(), R->out.data.size())); std::vector<std::string> left = oc; size_t pos = 0; bool okc = R->out.data.compare(0, out.size(), out) == 0;
        while (okc && !left.empty()) { size_t k = 0; size_t best = left.size(); for (; k < left.size(); k++) if (got.compare(pos, left[k].size(), left[k]) == 0 && (best == left.size() || left[k].size() > left[best].size())) best = k; if (best == left.size()) okc = false; else { pos += left[best].size(); left.erase(left.begin() + best); } }
        SIM_CHECK(okc && pos == got.size(), "simple-console", "%s of '%s' put '%s' on the console, %zu lines were expected; configuration: %s", PNAME[pidx(pri)], n.c_str(), got.c_str(), oc.size(), text.c_str());
        out = R->out.data;
        for (auto& f : files) { std::string g = simos::content(f.first); SIM_CHECK(g == f.second, "simple-file", "after %s of '%s' file %s ends with '%s', expected '%s'; configuration: %s", PNAME[pidx(pri)], n.c_str(), f.first.c_str(), g.substr(g.size() > 60 ? g.size() - 60 : 0).c_str(), f.second.substr(f.second.size() > 60 ? f.second.size() - 60 : 0).c_str(), text.c_str()); }
    }
    delete R; sim::nontrivial();
}

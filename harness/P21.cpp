// P21: listing directories is complete, sorted and filtered whatever the file system does, and leaks nothing.
#include "sim.h"
#include "os.h"
#include <string.h>
#include <set>
#include <list>
#include <algorithm>
#include <utUtil/GlobFiles.h>
#include <utUtil/Exception.h>
namespace uu = Ubitrack::Util;
namespace {
const char* const EXT[] = {".cal", ".jpg", ".JPG", ".png", ".PNG", ".bmp", ".BMP", ".BoostBinary", ".txt", "", ".cal.bak", ".jpeg", "cal", ".Cal", ".tar.cal"};
bool ends(const std::string& s, const char* e) { size_t n = strlen(e); return s.size() >= n && s.compare(s.size() - n, n, e) == 0; }
struct Ask { int kind; std::string pattern; bool dirs; };   // kind 0..3 named patterns, 4.. own regular expressions
// our own matcher, not the regular expression library
bool matches(const Ask& a, const std::string& n) {
    if (a.kind == uu::PATTERN_OPENCV_IMAGE_FILES) return ends(n, ".jpg") || ends(n, ".JPG") || ends(n, ".png") || ends(n, ".PNG") || ends(n, ".bmp") || ends(n, ".BMP");
    if (a.kind == uu::PATTERN_UBITRACK_CALIBRATION_FILES) return ends(n, ".cal");
    if (a.kind == uu::PATTERN_DIRECTORIES) return false;
    if (a.kind == uu::PATTERN_UBITRACK_BOOST_BINARY) return ends(n, ".BoostBinary");
    if (a.kind == 4) return true;                                                                   // .*
    if (a.kind == 5) return n.size() > 1 && n[0] == 'a';                                            // a.+
    if (a.kind == 6) return ends(n, ".txt");                                                        // .*\.txt
    return n == "a0.cal" || n == "b1.txt";                                                          // alternatives
}
Ask ask() { static const char* const P[] = {".*", "a.+", ".*\\.txt", "a0\\.cal|b1\\.txt"}; Ask a; a.kind = sim::wl(8); a.dirs = a.kind == uu::PATTERN_DIRECTORIES; if (a.kind > 3) { a.pattern = P[a.kind - 4]; a.dirs = sim::wl(2); } return a; }
struct Entry { std::string path, name; bool dir; bool volatile_; };
struct World { std::string dir; std::vector<Entry> e; };
World world(const std::string& dir, int n) {
    World w; w.dir = dir; simos::mkdirs(dir); std::set<std::string> used;
    for (int i = 0; i < n; i++) { Entry e; static const char* const S[] = {"a", "b", "Z", "img_", ".hid", "x y", "a.b-", "0"}; std::string s = S[sim::wl(8)]; s += sim::fmt("%d", (int)sim::wl(n > 40 ? 500 : 12)); s += EXT[sim::wl(15)]; if (!used.insert(s).second) continue; e.name = s; e.path = dir + "/" + s; e.dir = sim::wl(4) == 1; e.volatile_ = false; if (e.dir) { simos::mkdirs(e.path); if (sim::wl(2)) simos::put(e.path + "/inner.cal", "x"); } else simos::put(e.path, "x"); w.e.push_back(e); }
    simos::put(dir + "2.cal", "x"); return w;   // a sibling that is not inside
}
struct Got { std::vector<std::string> v; int how; std::string what; };   // how: 0 fine, 1 library exception, 2 file system exception, 3 other, 4 bad_alloc
Got glob(const std::string& dir, const Ask& a, const std::vector<std::string>& before) {
    Got g; g.how = 0; std::list<boost::filesystem::path>* l; { sim::Rt r; l = new std::list<boost::filesystem::path>; for (auto& b : before) l->push_back(b); }
    try { if (a.kind > 3) uu::globFiles(dir, a.pattern, *l, a.dirs); else uu::globFiles(dir, (uu::FilePattern)a.kind, *l); }
    catch (const uu::Exception& e) { sim::Rt r; g.how = 1; g.what = e.what(); } catch (const boost::filesystem::filesystem_error& e) { sim::Rt r; g.how = 2; g.what = e.what(); } catch (const std::bad_alloc&) { g.how = 4; } catch (const std::exception& e) { sim::Rt r; g.how = 3; g.what = e.what(); }
    { sim::Rt r; for (auto& p : *l) g.v.push_back(p.string()); } delete l; return g;
}
void judge(const World& w, const Ask& a, const Got& g, bool faults, bool memory, const std::vector<std::string>& before) {
    sim::Rt r; std::set<std::string> must, may; for (auto& e : w.e) { bool in = e.dir ? a.dirs : matches(a, e.name); if (in) { may.insert(e.path); if (!e.volatile_) must.insert(e.path); } } std::multiset<std::string> want(before.begin(), before.end()); for (auto& b : before) { must.insert(b); may.insert(b); }
    sim::mix(sim::fnv(g.what)); for (auto& p : g.v) sim::mix(sim::fnv(p));
    if (g.how == 4) { SIM_CHECK(memory, "error", "out of memory without an allocation failure"); sim::probe("out-of-memory"); return; }
    if (g.how == 2) { SIM_CHECK(faults, "error", "listing %s failed without a fault: %s", w.dir.c_str(), g.what.c_str()); sim::probe("failure-reported"); return; }
    SIM_CHECK(g.how != 3 || memory, "error", "listing %s raised a foreign exception: %s", w.dir.c_str(), g.what.c_str()); if (g.how == 3) return;
    if (g.how == 1) { SIM_CHECK(must.empty() || faults, "missing", "listing %s reports '%s' although %s is there", w.dir.c_str(), g.what.c_str(), must.begin()->c_str()); sim::probe("nothing-found"); return; }
    std::set<std::string> have(g.v.begin(), g.v.end()); SIM_CHECK(!g.v.empty(), "empty", "listing %s succeeded with nothing", w.dir.c_str());
    { std::multiset<std::string> all(g.v.begin(), g.v.end()); for (auto& p : have) { size_t n = want.count(p) > 1 ? want.count(p) : 1; SIM_CHECK(all.count(p) == n, "twice", "listing %s gives %s %zu times instead of %zu", w.dir.c_str(), p.c_str(), all.count(p), n); } }
    for (auto& p : must) SIM_CHECK(have.count(p), "missing", "listing %s (pattern %d '%s') lacks %s", w.dir.c_str(), a.kind, a.pattern.c_str(), p.c_str());
    for (auto& p : have) SIM_CHECK(may.count(p), "extra", "listing %s (pattern %d '%s') contains %s", w.dir.c_str(), a.kind, a.pattern.c_str(), p.c_str());
    for (size_t i = 1; i < g.v.size(); i++) SIM_CHECK(!(boost::filesystem::path(g.v[i]) < boost::filesystem::path(g.v[i - 1])), "order", "listing %s is not sorted: %s before %s", w.dir.c_str(), g.v[i - 1].c_str(), g.v[i].c_str());
    sim::probe("listed"); if (a.dirs) sim::probe("listed-directories");
}
void closed() { sim::Rt r; SIM_CHECK(simos::open_fds().empty(), "leak", "%zu descriptors are open after listing", simos::open_fds().size()); SIM_CHECK(simos::bad_fd_calls() == 0, "bad-descriptor", "a descriptor was used after it was closed"); }
void order() { simos::readdir_order(sim::draw(sim::FA, 3)); }
}
SCENARIO(listing, 3) {
    World w; { sim::Rt r; w = world("/sim/d", sim::wl(12) == 1 ? 60 + sim::wl(400) : sim::wl(14)); } order(); int n = 1 + sim::wl(3); std::vector<std::string> none;
    for (int i = 0; i < n; i++) { Ask a; { sim::Rt r; a = ask(); } std::vector<std::string> before; if (sim::wl(4) == 1) { before.push_back("/sim/other.x"); if (sim::wl(2)) before.push_back("/sim/another.x"); if (sim::wl(2)) before.push_back("/sim/other.x"); } Got g = glob(w.dir, a, before); judge(w, a, g, false, false, before); }
    { sim::Rt r; sim::sample(sim::fmt("%zu entries, %d listings", w.e.size(), n)); } closed(); sim::nontrivial();
}
SCENARIO(faults, 3) {
    World w; { sim::Rt r; w = world("/sim/d", 1 + sim::wl(12)); } order(); simos::Faults& f = simos::faults(); f.stat_fail = sim::wl(2) ? 40 : 0; f.read_eio = sim::wl(2) ? 60 : 0; f.open_fail = sim::wl(2) ? 200 : 0; std::vector<std::string> none;
    for (int i = 0; i < 3; i++) { Ask a; { sim::Rt r; a = ask(); } uint64_t n = simos::total_faults(); Got g = glob(w.dir, a, none); judge(w, a, g, simos::total_faults() != n, false, none); closed(); }
    simos::faults_off(); Ask a; { sim::Rt r; a = ask(); } judge(w, a, glob(w.dir, a, none), false, false, none); closed(); sim::nontrivial();   // faults over: works again
}
SCENARIO(changing, 4) {
    World w; { sim::Rt r; w = world("/sim/d", 2 + sim::wl(10)); } order(); sim::sched_random(); std::vector<std::string> none;
    for (auto& e : w.e) e.volatile_ = !e.dir && sim::wl(3) == 1; { sim::Rt r; for (int i = 0; i < 3; i++) { Entry e; e.name = sim::fmt("new%d%s", i, EXT[sim::wl(9)]); e.path = w.dir + "/" + e.name; e.dir = false; e.volatile_ = true; w.e.push_back(e); } }
    World* pw = &w; sim::spawn([pw]() { for (auto& e : pw->e) if (e.volatile_) { sim::yield(); sim::Rt r; sim::fault(simos::exists(e.path) ? "file-vanished" : "file-appeared"); if (simos::exists(e.path)) simos::erase(e.path); else simos::put(e.path, "y"); sim::probe("changed"); } }, "other process");
    int n = 1 + sim::wl(3); for (int i = 0; i < n; i++) { Ask* a; { sim::Rt r; a = new Ask(ask()); } sim::spawn([pw, a]() { std::vector<std::string> none; judge(*pw, *a, glob(pw->dir, *a, none), false, false, none); }, "lister"); }
    sim::join_all(); closed(); sim::nontrivial();
}
SCENARIO(paths, 2) {
    World w; { sim::Rt r; w = world("/sim/d", sim::wl(6)); simos::put("/sim/single.x", "1"); } order(); std::vector<std::string> none; Ask a; { sim::Rt r; a = ask(); }
    Got g = glob("/sim/single.x", a, none); { sim::Rt r; SIM_CHECK(g.how == 0 && g.v.size() == 1 && g.v[0] == "/sim/single.x", "single-file", "listing a file gives %zu entries (%s)", g.v.size(), g.what.c_str()); }
    g = glob("/sim/missing", a, none); { sim::Rt r; SIM_CHECK(g.how == 1, "missing-path", "listing a path that does not exist is not reported (%d, %zu entries)", g.how, g.v.size()); SIM_CHECK(g.v.empty(), "missing-path", "listing a path that does not exist gives entries"); sim::probe("missing-path"); }
    simos::faults().stat_fail = 300; uint64_t n = simos::total_faults(); g = glob("/sim/single.x", a, none); { sim::Rt r; bool fl = simos::total_faults() != n; SIM_CHECK(g.how == 0 ? g.v.size() == 1 : fl, "single-file", "listing a file: %s", g.what.c_str()); } simos::faults_off(); judge(w, a, glob(w.dir, a, none), false, false, none); closed(); sim::nontrivial();
}
SCENARIO(memory, 2) {
    World w; { sim::Rt r; w = world("/sim/d", 1 + sim::wl(8)); } order(); std::vector<std::string> none; Ask a; { sim::Rt r; a = ask(); } judge(w, a, glob(w.dir, a, none), false, false, none);
    uint64_t b = sim::live_blocks(); sim::fail_alloc(1 + sim::draw(sim::FA, 120), sim::wl(2)); Got g = glob(w.dir, a, none); bool fired = sim::alloc_fault_fired(); sim::fail_alloc(0, false); if (fired) sim::fault("out-of-memory"); { sim::Rt r; SIM_CHECK(g.how != 4 || fired, "error", "spurious"); }
    judge(w, a, g, fired, fired, none); { sim::Rt r; g = Got(); SIM_CHECK(sim::live_blocks() <= b, "memory-leak", "%llu blocks leaked by a listing that ran out of memory", (unsigned long long)(sim::live_blocks() - b)); }
    closed(); judge(w, a, glob(w.dir, a, none), false, false, none); closed(); sim::nontrivial();
}

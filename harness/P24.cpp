// P24: every estimation is repeatable, independent of others on other threads, and survives lack of memory.
#include "catjudge.h"
namespace {
struct Res { int how; std::vector<double> r; std::string what; };   // 0 result, 1 reported failure, 2 library exception, 3 no memory, 4 other exception
Res attempt(const cat::Job& j) { Res o; o.how = 0; std::vector<double>* v = 0; try { std::vector<double> x = j.run(); sim::Rt r; v = new std::vector<double>(x.begin(), x.end()); } catch (const cat::Fail&) { o.how = 1; } catch (const Ubitrack::Util::Exception& e) { sim::Rt r; o.how = 2; o.what = e.what(); } catch (const std::bad_alloc&) { o.how = 3; } catch (const std::exception& e) { sim::Rt r; o.how = 4; o.what = e.what(); } sim::Rt r; if (v) { o.r = *v; delete v; } return o; }
bool same(const Res& a, const Res& b) { return a.how == b.how && a.r.size() == b.r.size() && (a.r.empty() || !memcmp(&a.r[0], &b.r[0], 8 * a.r.size())); }
std::string text(const Res& a) { static const char* const H[] = {"result ", "reported failure", "exception ", "out of memory", "foreign exception "}; return H[a.how] + (a.how ? a.what : "(" + cat::str(a.r) + ")"); }
}
SCENARIO(memory, 6) {
    cat::Job* j; { sim::Rt r; int k = sim::wl(cat::NG); j = new cat::Job(cat::draw(k)); } Res a = attempt(*j); uint64_t c0 = sim::alloc_count(); Res a2 = attempt(*j); uint64_t n = sim::alloc_count() - c0; { sim::Rt r; SIM_CHECK(same(a, a2), "not-repeatable", "%s twice: %s, then %s", j->name, text(a).c_str(), text(a2).c_str()); sim::probe(j->name); sim::mix(a.r.empty() ? 1 : sim::fnv(&a.r[0], 8 * a.r.size())); }
    uint64_t before = sim::live_blocks(); uint64_t at = 1 + sim::draw(sim::FA, n < 1 ? 1 : n > 100000 ? 100000 : (uint32_t)n); bool sticky = sim::wl(2); sim::sample(sim::fmt("%s, %zu measurements, allocation %llu of %llu fails", j->name, j->n, (unsigned long long)at, (unsigned long long)n)); sim::fail_alloc(at, sticky); Res b = attempt(*j); bool fired = sim::alloc_fault_fired(); sim::fail_alloc(0, false); if (fired) sim::fault("out-of-memory"); uint64_t now = sim::live_blocks();
    { sim::Rt r; SIM_CHECK(b.how != 4, "error", "%s without memory: %s", j->name, text(b).c_str()); SIM_CHECK(b.how == 3 || b.how == 2 || same(a, b), "wrong", "%s without memory gives %s instead of %s", j->name, text(b).c_str(), text(a).c_str()); SIM_CHECK(fired || same(a, b), "not-repeatable", "%s again: %s instead of %s", j->name, text(b).c_str(), text(a).c_str()); SIM_CHECK(now <= before, "leak", "%s without memory leaks %llu blocks", j->name, (unsigned long long)(now - before)); sim::probe(b.how == 3 ? "out-of-memory" : b.how == 2 ? "exception" : fired ? "managed-without" : "not-reached"); }
    Res c = attempt(*j); { sim::Rt r; SIM_CHECK(same(a, c), "not-repeatable", "%s after lack of memory: %s instead of %s", j->name, text(c).c_str(), text(a).c_str()); } sim::heap_check(); sim::nontrivial();
}
SCENARIO(threads, 6) {
    int n = 2 + sim::wl(3); std::vector<cat::Job>* js; std::vector<Res>* rs; { sim::Rt r; js = new std::vector<cat::Job>; rs = new std::vector<Res>; for (int i = 0; i < n; i++) { cat::turn = 100 * i; js->push_back(cat::gens[sim::wl(cat::NG)]()); } } for (int i = 0; i < n; i++) { Res a = attempt((*js)[i]); sim::Rt r; rs->push_back(a); }
    { sim::Rt r; std::string s; for (auto& j : *js) s += std::string(" ") + j.name; sim::sample("threads:" + s); } bool starve = sim::wl(3) == 1;
    sim::sched_random(); { sim::Quiet quiet; for (int i = 0; i < n; i++) sim::spawn([js, rs, i, starve]() { if (starve && i == 0) sim::fail_alloc(1 + sim::draw(sim::FA, 400), false); for (int k = 0; k < 2; k++) { Res b = attempt((*js)[i]); sim::Rt r; if (starve && (b.how == 3 || b.how == 2) && sim::alloc_fault_fired()) { sim::probe("one-failed"); continue; } SIM_CHECK(same((*rs)[i], b), "disturbed", "%s while others run: %s instead of %s", (*js)[i].name, text(b).c_str(), text((*rs)[i]).c_str()); sim::probe("undisturbed"); } }, (*js)[i].name); }
    sim::join_all(); if (starve && sim::alloc_fault_fired()) sim::fault("out-of-memory"); sim::fail_alloc(0, false); sim::heap_check(); sim::nontrivial();
}

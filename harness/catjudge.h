// Runs jobs of the catalogue and judges their results.
#pragma once
#include "catalog.h"
namespace {
struct Out { std::vector<double> r; std::string err; bool failed; Out() : failed(false) {} };
Out call(const cat::Job& j) {
    Out o; try { o.r = j.run(); } catch (const cat::Fail&) { o.failed = true; } catch (const Ubitrack::Util::Exception& e) { sim::Rt r; o.err = e.what(); } catch (const std::exception& e) { sim::Rt r; o.err = std::string("foreign exception: ") + e.what(); } return o;
}
void judge(const cat::Job& j, const Out& o) {
    sim::Rt q; sim::probe(j.name); sim::mix(o.r.empty() ? 1 : sim::fnv(&o.r[0], 8 * o.r.size()));
    SIM_CHECK(o.err.empty(), "error", "%s from %zu exact measurements: %s", j.name, j.n, o.err.c_str());
    if (o.failed) { SIM_CHECK(j.mayfail, "not-found", "%s from %zu exact measurements reports failure", j.name, j.n); sim::probe("reported-failure"); return; }
    double d = cat::off(j, o.r); SIM_CHECK(d <= 1, "wrong", "%s from %zu exact measurements is (%s) instead of (%s), %.3g times the tolerance", j.name, j.n, cat::str(o.r).c_str(), cat::str(j.truth).c_str(), d); sim::probe("right");
}
}
namespace { void one(cat::Gen g) { cat::Job j; { sim::Rt r; cat::turn = 0; j = g(); } sim::sample(sim::fmt("%s, %zu measurements", j.name, j.n)); judge(j, call(j)); sim::nontrivial(); } }
namespace { void mixed(const std::vector<cat::Gen>& g) { sim::sched_random(); int n = 2 + sim::wl(2); for (int i = 0; i < n; i++) { cat::Job* j = new cat::Job; { sim::Rt r; cat::turn = 100 * i; *j = g[sim::wl((uint32_t)g.size())](); } sim::spawn([j]() { judge(*j, call(*j)); }, j->name); } sim::join_all(); sim::nontrivial(); } }

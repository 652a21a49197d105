// P16: robust estimation by random sampling: consensus, bounds and outcome for every draw, outlier pattern and estimator failure.
#include "sim.h"
#include "os.h"
#include <utMath/Pose.h>
#include <utMath/Vector.h>
#include <utMath/Quaternion.h>
#include <cmath>
#include <cassert>
#include <list>
#include <deque>
#include <utMath/Optimization/Ransac.h>
#include <utAlgorithm/PoseEstimation3D3D/Ransac.h>
#include <utAlgorithm/PoseEstimation3D3D/AbsoluteOrientation.h>
#include <utAlgorithm/ToolTip/TipCalibration.h>
#include <utAlgorithm/ToolTip/Ransac.h>
#include <math.h>
#include <string.h>
using namespace Ubitrack;
namespace um = Ubitrack::Math;
namespace uo = Ubitrack::Math::Optimization;
namespace {
struct Call { std::vector<int> ids; bool ok, threw; };
// one estimation problem: distances of every hypothesis to every value are drawn, the estimator may fail
struct Prob {
    uint32_t n, set, minin, maxit, minruns; double thr; uint32_t style, failnum; uint64_t salt; bool shuf; std::vector<Call> calls; std::vector<int> evald;
    double dist(int call, int i) const {
        uint64_t h = salt + (uint64_t)call * 0x9E3779B97F4A7C15ull + (uint64_t)i * 0xD1B54A32D192ED03ull; h ^= h >> 31; h *= 0xBF58476D1CE4E5B9ull; h ^= h >> 29; h *= 0x94D049BB133111EBull; h ^= h >> 32;
        uint32_t q = (uint32_t)(h % 1000), good = style == 0 ? 500 : style == 1 ? 950 : style == 2 ? 100 : (uint32_t)((salt >> 7) + call * 131) % 1000;
        if (q < good) return (h >> 20 & 1) ? thr * ((h >> 24 & 255) / 256.0) : thr * (1 - 1e-12);
        switch (h >> 40 & 7) { case 0: return thr; case 1: return HUGE_VAL; case 2: return NAN; case 3: return thr * (1 + 1e-12); default: return thr * (1 + (double)(h >> 44 & 255)); }
    }
};
static thread_local Prob* cur = 0;
struct Elem { typedef double value_type; int id; int side; explicit Elem(int i = -1, int s = 0) : id(i), side(s) {} };
struct Hyp { int call; Hyp() : call(-7) {} };
int begin_call(const std::vector<int>& ids) {
    sim::Rt r; Prob& p = *cur; Call c; c.ids = ids; c.threw = false; c.ok = true;
    SIM_CHECK(p.calls.size() < p.maxit + 1u, "too-many-runs", "the estimator is called for the %zu. time although %u runs were allowed", p.calls.size() + 1, p.maxit);
    if (p.failnum && sim::chance(sim::FA, p.failnum, 100)) { c.ok = false; sim::fault("estimator-failed"); }
    p.calls.push_back(c); return (int)p.calls.size() - 1;
}
template<class It> void ids_of(It b, It e, int side, std::vector<int>& v) { sim::Rt r; for (; b != e; ++b) { SIM_CHECK(b->side == side, "mixed-up", "a value of side %d was passed as side %d", b->side, side); v.push_back(b->id); } }
double evaluate(const Hyp& h, int i) {
    Prob& p = *cur; SIM_CHECK(h.call >= 0 && h.call < (int)p.calls.size() && p.calls[h.call].ok, "evaluated-failure", "a hypothesis that was not estimated is evaluated");
    SIM_CHECK(i >= 0 && i < (int)p.n, "bad-value", "the evaluator got a value that was not passed in"); return p.dist(h.call, i);
}
struct Fn {
    struct Estimator {
        template<class It> bool operator()(Hyp& h, It b, It e) const { std::vector<int> v; ids_of(b, e, 0, v); int c = begin_call(v); bool ok = cur->calls[c].ok; if (ok) h.call = c; return ok; }
        template<class It, class It2> bool operator()(Hyp& h, It b, It e, It2 b2, It2 e2) const {
            std::vector<int> v, w; ids_of(b, e, 0, v); ids_of(b2, e2, 1, w); SIM_CHECK(v == w, "pairs-broken", "the estimator got values that do not belong together"); int c = begin_call(v); bool ok = cur->calls[c].ok; if (ok) h.call = c; return ok; }
    };
    struct Evaluator {
        double operator()(const Hyp& h, const Elem& a) const { return evaluate(h, a.id); }
        double operator()(const Hyp& h, const Elem& a, const Elem& b) const { SIM_CHECK(a.id == b.id && a.side == 0 && b.side == 1, "pairs-broken", "the evaluator got values that do not belong together"); return evaluate(h, a.id); }
    };
};
struct LEst { void operator()(Hyp& h, const std::vector<Elem>& a, const std::vector<Elem>& b) const { std::vector<int> v, w; ids_of(a.begin(), a.end(), 0, v); ids_of(b.begin(), b.end(), 1, w); SIM_CHECK(v == w, "pairs-broken", "the estimator got values that do not belong together"); int c = begin_call(v); if (!cur->calls[c].ok) throw std::runtime_error("singular"); h.call = c; } };
struct LEval { double operator()(const Hyp& h, const Elem& a, const Elem& b) const { SIM_CHECK(a.id == b.id && a.side == 0 && b.side == 1, "pairs-broken", "the evaluator got values that do not belong together"); return evaluate(h, a.id); } };
std::string str(const std::vector<int>& v) { std::string s = "{"; for (size_t i = 0; i < v.size(); i++) s += sim::fmt(i ? ",%d" : "%d", v[i]); return s + "}"; }
Prob problem() {
    Prob p; p.n = 1 + sim::wl(sim::wl(3) ? 12 : 60); p.set = 1 + sim::wl(p.n < 6 ? p.n : 6); p.minin = 1 + sim::wl(p.n); p.maxit = sim::wl(4) ? 1 + sim::wl(12) : sim::wl(3) ? 30 + sim::wl(40) : 0; p.minruns = sim::wl(8); p.thr = sim::wl(2) ? 1 : pow(10, sim::uniform(sim::WL, -6, 6));
    p.style = sim::wl(4); p.failnum = sim::wl(2) ? 0 : 5 + sim::wl(90); p.salt = (uint64_t)sim::wl(0x7fffffff) << 20 ^ sim::wl(0x7fffffff); p.shuf = true; return p;
}
template<class C> void fill(C& c, uint32_t n, int side) { for (uint32_t i = 0; i < n; i++) c.push_back(Elem(i, side)); }
// which runs may have happened and which set is the answer
void judge(Prob& p, size_t ret, bool threw, const Hyp& result, int ver, const std::vector<bool>* flags) {
    sim::Rt r; size_t best = 0, k = 0; std::vector<int> bestset; bool stopped = false;
    for (; k < p.maxit && !stopped; k++) {
        SIM_CHECK(k < p.calls.size(), "gave-up", "only %zu of %u allowed runs were made although no hypothesis had %u inliers (returned %zu)", p.calls.size(), p.maxit, p.minin, ret);
        Call& c = p.calls[k]; SIM_CHECK(c.ids.size() == p.set, "set-size", "the estimator got %zu values in run %zu instead of %u", c.ids.size(), k, p.set);
        for (size_t i = 0; i < c.ids.size(); i++) { SIM_CHECK(c.ids[i] >= 0 && c.ids[i] < (int)p.n, "bad-value", "run %zu used a value that was not passed in", k); if (ver < 2) for (size_t j = 0; j < i; j++) SIM_CHECK(c.ids[i] != c.ids[j], "drawn-twice", "run %zu was estimated from %s", k, str(c.ids).c_str()); }
        if (!c.ok) continue;
        std::vector<int> in; for (uint32_t i = 0; i < p.n; i++) if (p.dist((int)k, i) < p.thr) in.push_back(i);
        if (in.size() >= p.minin && in.size() > best) { best = in.size(); bestset = in; }
        if (best && (ver < 2 || k + 1 >= p.minruns)) stopped = true;
    }
    if (!best) {
        SIM_CHECK(p.calls.size() == k, "extra-run", "the estimator was called %zu times in %zu runs without a consensus", p.calls.size(), k);
        SIM_CHECK(ret == 0 && !threw, "false-success", "%zu inliers reported although no run had %u", ret, p.minin); sim::probe("no-consensus"); return;
    }
    SIM_CHECK(p.calls.size() == k + 1, "no-final-estimate", "after %zu runs with a consensus of %zu the estimator was called %zu times", k, best, p.calls.size());
    Call& f = p.calls[k]; std::vector<int> got = f.ids; std::sort(got.begin(), got.end());
    SIM_CHECK(got == bestset, "wrong-consensus", "the result was estimated from %s but the inliers of the best run are %s", str(got).c_str(), str(bestset).c_str());
    if (!f.ok) { SIM_CHECK(ret == 0 || threw, "false-success", "%zu inliers reported although the final estimation failed", ret); sim::probe("final-failed"); return; }
    SIM_CHECK(!threw && ret == best, "wrong-count", "%zu inliers reported instead of %zu", ret, best);
    SIM_CHECK(result.call == (int)k, "wrong-result", "the result is not the estimate from the inliers");
    if (flags) { SIM_CHECK(flags->size() == p.n, "wrong-flags", "%zu inlier flags for %u values", flags->size(), p.n); for (uint32_t i = 0; i < p.n; i++) SIM_CHECK((*flags)[i] == (std::find(bestset.begin(), bestset.end(), (int)i) != bestset.end()), "wrong-flags", "the inlier flag of value %u is wrong", i); }
    sim::probe("consensus");
}
void one(Prob p, int ver, int cont) {
    Prob* old = cur; cur = &p; Hyp h; size_t ret = 0; bool threw = false; std::vector<bool> fl; bool useflags = ver == 2 && cont;
    try {
        uo::RansacParameter<double> par(p.thr, (size_t)p.set, (size_t)p.minin, (size_t)p.maxit);
        if (ver == 0) { if (cont == 0) { std::vector<Elem> a; fill(a, p.n, 0); ret = uo::ransac(a.begin(), a.end(), h, Fn(), par); } else { std::list<Elem> a; fill(a, p.n, 0); ret = uo::ransac(a.begin(), a.end(), h, Fn(), par); } }
        else if (ver == 1) { if (cont == 0) { std::vector<Elem> a, b; fill(a, p.n, 0); fill(b, p.n, 1); ret = uo::ransac(a.begin(), a.end(), b.begin(), b.end(), h, Fn(), par); } else { std::list<Elem> a; std::deque<Elem> b; fill(a, p.n, 0); fill(b, p.n, 1); ret = uo::ransac(a.begin(), a.end(), b.begin(), b.end(), h, Fn(), par); } }
        else { std::vector<Elem> a, b; fill(a, p.n, 0); fill(b, p.n, 1); ret = uo::ransac(h, a, b, p.thr, (size_t)p.set, (size_t)p.minin, (size_t)p.minruns, (size_t)p.maxit, LEst(), LEval(), useflags ? &fl : 0); }
    } catch (const std::runtime_error&) { threw = true; }
    judge(p, ret, threw, h, ver, useflags && ret ? &fl : 0); cur = old;
}
// every value is drawn sooner or later: no run reaches a consensus, so all are made
void spread(int ver) {
    Prob p; p.n = 2 + sim::wl(9); p.set = 1 + sim::wl(p.n < 4 ? p.n : 4); p.minin = p.n; p.maxit = 2500; p.minruns = 1; p.thr = 1; p.style = 2; p.failnum = 100; p.salt = 1; Prob* old = cur; cur = &p; Hyp h; std::vector<Elem> a, b; fill(a, p.n, 0); fill(b, p.n, 1); size_t ret; uo::RansacParameter<double> par(1.0, (size_t)p.set, (size_t)p.n, (size_t)2500);
    if (ver == 0) ret = uo::ransac(a.begin(), a.end(), h, Fn(), par); else if (ver == 1) ret = uo::ransac(a.begin(), a.end(), b.begin(), b.end(), h, Fn(), par); else ret = uo::ransac(h, a, b, 1.0, (size_t)p.set, (size_t)p.n, (size_t)1, (size_t)2500, LEst(), LEval());
    cur = old; sim::Rt r; SIM_CHECK(ret == 0 && p.calls.size() == 2500, "false-success", "estimations always failed but %zu inliers were reported after %zu runs", ret, p.calls.size());
    std::vector<int> seen(p.n * p.n, 0); for (auto& c : p.calls) for (int i : c.ids) for (int j : c.ids) seen[i * p.n + j]++;
    for (uint32_t i = 0; i < p.n; i++) for (uint32_t j = 0; j < p.n; j++) if (i == j || p.set > 1) SIM_CHECK(seen[i * p.n + j], "never-drawn", "2500 sets of %u out of %u values never contained values %u and %u", p.set, p.n, i, j);
    sim::probe("spread");
}
um::Quaternion rotation() { double x, y, z, w, n; do { x = sim::uniform(sim::WL, -1, 1); y = sim::uniform(sim::WL, -1, 1); z = sim::uniform(sim::WL, -1, 1); w = sim::uniform(sim::WL, -1, 1.001); n = sqrt(x * x + y * y + z * z + w * w); } while (n < 0.1); return um::Quaternion(x / n, y / n, z / n, w / n); }
um::Vector<double, 3> vec(double s) { return um::Vector<double, 3>(sim::uniform(sim::WL, -s, s), sim::uniform(sim::WL, -s, s), sim::uniform(sim::WL, -s, s)); }
double dist(const um::Vector<double, 3>& a, const um::Vector<double, 3>& b) { double s = 0; for (int i = 0; i < 3; i++) s += (a(i) - b(i)) * (a(i) - b(i)); return sqrt(s); }
// runs needed so that with probability 1e-9 at most no run draws good values only
size_t runs(uint32_t good, uint32_t n, uint32_t set) { double q = 1; for (uint32_t i = 0; i < set; i++) q *= (double)(good - i) / (n - i); q *= 0.5; return (size_t)(1 + log(1e-9) / log(1 - q)); }
template<class T> um::Vector<T, 3> cast(const um::Vector<double, 3>& v) { return um::Vector<T, 3>((T)v(0), (T)v(1), (T)v(2)); }
template<class T> void orientation() {
    uint32_t good = 6 + sim::wl(14), bad = sim::wl(good), n = good + bad, set = 3 + sim::wl(2); double noise = sizeof(T) == 4 || sim::wl(2) ? 1e-4 : 0, thr = 0.02; um::Pose P(rotation(), vec(3)); std::vector<um::Vector<T, 3> > A, B; std::vector<um::Vector<double, 3> > ta, tb; std::vector<bool> isbad;
    for (uint32_t i = 0; i < n; i++) { um::Vector<double, 3> b = vec(1), a = P * b; tb.push_back(b); ta.push_back(a); for (int k = 0; k < 3; k++) a(k) += noise * sim::uniform(sim::FA, -1, 1); bool x = i < bad; if (x) { do { um::Vector<double, 3> o(sim::uniform(sim::FA, -4, 4), sim::uniform(sim::FA, -4, 4), sim::uniform(sim::FA, -4, 4.1)); a = ta.back() + o; } while (dist(a, ta.back()) < 0.5); sim::fault("gross-outlier"); } A.push_back(cast<T>(a)); B.push_back(cast<T>(b)); isbad.push_back(x); }
    for (uint32_t i = n - 1; i > 0; i--) { uint32_t j = sim::wl(i + 1); std::swap(A[i], A[j]); std::swap(B[i], B[j]); std::swap(ta[i], ta[j]); std::swap(tb[i], tb[j]); bool t = isbad[i]; isbad[i] = isbad[j]; isbad[j] = t; }
    bool enough = sim::wl(4) != 0; size_t it = enough ? runs(good, n, set) : 1 + sim::wl(3); uo::RansacParameter<T> par((T)thr, (size_t)set, (size_t)(good - (sim::wl(2) && good > 8 ? 1 : 0)), it);
    um::Pose R; bool ok = Algorithm::PoseEstimation3D3D::estimatePose6D_3D3D(A, R, B, par);
    if (!ok) { SIM_CHECK(!enough, "not-found", "no pose found in %zu runs although %u of %u correspondences are good", it, good, n); sim::probe("pose-not-found"); return; }
    for (uint32_t i = 0; i < n; i++) { double e = dist(um::Vector<double, 3>(R * tb[i]), ta[i]); SIM_CHECK(e < 0.01 + 20 * noise, "wrong-pose", "the pose estimated from %u good and %u bad correspondences maps a point %.3g away from its place", good, bad, e); }
    sim::probe("poses");
}
template<class T> void tooltip() {
    uint32_t good = 8 + sim::wl(14), bad = sim::wl(good * 2 / 3), n = good + bad, set = 3 + sim::wl(2); double noise = sizeof(T) == 4 || sim::wl(2) ? 1e-5 : 0, thr = 0.03; um::Vector<double, 3> tip = vec(0.5), world = vec(1); std::vector<um::Pose> ps; std::vector<bool> isbad;
    for (uint32_t i = 0; i < n; i++) { um::Quaternion q = rotation(); um::Vector<double, 3> t = world - um::Vector<double, 3>(q * tip); for (int k = 0; k < 3; k++) t(k) += noise * sim::uniform(sim::FA, -1, 1); bool x = i < bad; if (x) { um::Vector<double, 3> o; do { o = um::Vector<double, 3>(sim::uniform(sim::FA, -4, 4), sim::uniform(sim::FA, -4, 4), sim::uniform(sim::FA, -4, 4.1)); } while (dist(o, um::Vector<double, 3>(0, 0, 0)) < 0.7); t = t + o; sim::fault("gross-outlier"); } ps.push_back(um::Pose(q, t)); isbad.push_back(x); }
    for (uint32_t i = n - 1; i > 0; i--) { uint32_t j = sim::wl(i + 1); std::swap(ps[i], ps[j]); }
    bool enough = sim::wl(4) != 0; size_t it = enough ? runs(good, n, set) : 1 + sim::wl(3); uo::RansacParameter<T> par((T)thr, (size_t)set, (size_t)good, it); um::Vector<T, 3> pw, pm;
    bool ok = Algorithm::ToolTip::estimatePosition3D_6D(pw, ps, pm, par);
    if (!ok) { SIM_CHECK(!enough, "not-found", "no tool tip found in %zu runs although %u of %u poses are good", it, good, n); sim::probe("tip-not-found"); return; }
    double e1 = dist(um::Vector<double, 3>(pw(0), pw(1), pw(2)), world), e2 = dist(um::Vector<double, 3>(pm(0), pm(1), pm(2)), tip);
    SIM_CHECK(e1 < 0.02 && e2 < 0.02, "wrong-tip", "the tip estimated from %u good and %u bad poses is %.3g and %.3g off", good, bad, e1, e2); sim::probe("tips");
}
}
SCENARIO(consensus, 6) { int m = 2 + sim::wl(4); for (int i = 0; i < m; i++) { int ver = sim::wl(3), ct = sim::wl(2); Prob p = problem(); if (!i) sim::sample(sim::fmt("version %d, %u values, sets of %u, %u inliers wanted, %u runs, failures %u%%", ver, p.n, p.set, p.minin, p.maxit, p.failnum)); one(p, ver, ct); } sim::nontrivial(); }
SCENARIO(parallel, 2) {
    sim::sched_random(); int nt = 2 + sim::wl(2); std::vector<std::pair<Prob, int> > w; for (int t = 0; t < nt; t++) { Prob p = problem(); w.push_back(std::make_pair(p, (int)sim::wl(6))); }
    for (int t = 0; t < nt; t++) { Prob p = w[t].first; int v = w[t].second; sim::spawn([p, v]() { one(p, v % 3, v / 3); }, "estimator"); }
    sim::join_all(); sim::nontrivial();
}
SCENARIO(spread, 1) { spread(sim::wl(3)); sim::nontrivial(); }
SCENARIO(orientation, 2) { if (sim::wl(3)) orientation<double>(); else orientation<float>(); sim::nontrivial(); }
SCENARIO(tooltip, 2) { if (sim::wl(3)) tooltip<double>(); else tooltip<float>(); sim::nontrivial(); }
SCENARIO(parameters, 1) {     // number of runs and inliers from expected outliers and wanted success
    for (int k = 0; k < 20; k++) {
        uint32_t set = 1 + sim::wl(8), n = set + sim::wl(200); double out = sim::uniform(sim::WL, 0, 0.8), suc = sim::uniform(sim::WL, 0.01, 0.9999); uo::RansacParameter<double> p(0.5, (size_t)set, (size_t)n, out, suc);
        SIM_CHECK(p.setSize == set && p.threshold == 0.5, "parameters", "set size %zu, threshold %g", p.setSize, p.threshold); double fail = pow(1 - pow(1 - out, (double)set), (double)p.nMaxIterations);
        SIM_CHECK(fail <= (1 - suc) * (1 + 1e-9), "parameters", "%zu runs fail with probability %.4g instead of %.4g (set of %u, %.3f outliers)", p.nMaxIterations, fail, 1 - suc, set, out);
        double less = p.nMaxIterations >= 3 ? pow(1 - pow(1 - out, (double)set), (double)p.nMaxIterations - 2) : 1; SIM_CHECK(less > (1 - suc) * (1 - 1e-9), "parameters", "%zu runs are more than needed", p.nMaxIterations);
        SIM_CHECK(p.nMinInlier <= n && p.nMinInlier <= (1 - out) * n + 1e-9 && p.nMinInlier + 1.0 >= (1 - out) * n - 1e-9, "parameters", "%zu inliers wanted of %u with %.3f outliers", p.nMinInlier, n, out);
    }
    sim::probe("parameters"); sim::nontrivial();
}

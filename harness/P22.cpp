// P22: optimization returns the best parameters it evaluated, terminates, and passes failures on cleanly.
#include "sim.h"
#include "os.h"
#undef VT1
#undef VT2
#include <string.h>
#include <math.h>
#include <vector>
#include <memory>
#include <utUtil/Exception.h>
#include <utMath/Matrix.h>
#include <utMath/Vector.h>
#include <utMath/Optimization/LevenbergMarquardt.h>
#include <utMath/Optimization/TukeyWeightFunction.h>
namespace um = Ubitrack::Math;
namespace uo = Ubitrack::Math::Optimization;
namespace {
struct Broken { int nth; };
struct Eval { std::vector<double> x, f; };
// y_i = sum_j a_ij x_j + c_i * g_i(b_i . x), evaluated, recorded and failing where the run says so
struct Problem {
    int m, n; std::vector<double> a, b, c; std::vector<int> kind; int throw_at, nan_at, inf_at; double wall; mutable std::vector<Eval>* log; mutable int calls;
    double g(int k, double t) const { switch (k) { case 1: return sin(t); case 2: return t * t / 4; case 3: return exp(t / 4); case 4: return t / (1 + t * t); default: return 0; } }
    double dg(int k, double t) const { switch (k) { case 1: return cos(t); case 2: return t / 2; case 3: return exp(t / 4) / 4; case 4: return (1 - t * t) / ((1 + t * t) * (1 + t * t)); default: return 0; } }
    void at(const std::vector<double>& x, std::vector<double>& f, std::vector<double>* J) const {
        f.assign(m, 0); if (J) J->assign(m * n, 0); for (int i = 0; i < m; i++) { double t = 0; for (int j = 0; j < n; j++) { f[i] += a[i * n + j] * x[j]; t += b[i * n + j] * x[j]; } f[i] += c[i] * g(kind[i], t); if (J) for (int j = 0; j < n; j++) (*J)[i * n + j] = a[i * n + j] + c[i] * dg(kind[i], t) * b[i * n + j]; }
        if (wall > 0 && fabs(x[0]) > wall) f[0] = NAN;      // not defined there
    }
    template<class R, class X, class M> void evaluateWithJacobian(R& res, const X& in, M& J) const {
        std::vector<double>* f; std::vector<double>* j; { sim::Rt r; calls++; f = new std::vector<double>; j = new std::vector<double>; std::vector<double> x; for (int k = 0; k < n; k++) x.push_back(in(k)); at(x, *f, j); if (calls == nan_at) { (*f)[m / 2] = NAN; sim::fault("evaluation-nan"); } if (calls == inf_at) { (*f)[0] = HUGE_VAL; sim::fault("evaluation-inf"); } if (calls != throw_at) { Eval e; e.x = x; e.f = *f; log->push_back(e); } }
        if (calls == throw_at) { sim::fault("evaluation-failed"); Broken b; b.nth = calls; { sim::Rt r; delete f; delete j; } throw b; }
        for (int i = 0; i < m; i++) { res(i) = (*f)[i]; for (int k = 0; k < n; k++) J(i, k) = (*j)[i * n + k]; } { sim::Rt r; delete f; delete j; }
    }
};
struct Clamp { template<class X, class Y> void evaluate(X& out, const Y& in) const { for (size_t i = 0; i < in.size(); i++) out(i) = in(i) > 3 ? 3 : in(i) < -3 ? -3 : in(i); } };
struct Huber { bool noWeights() const { return false; } template<class X, class Y> void computeWeights(const X& e, Y& w) const { for (size_t i = 0; i < e.size(); i++) w(i) = fabs(e(i)) < 1 ? 1 : 1 / fabs(e(i)); } };
struct Case { Problem p; std::vector<double> meas, start; int solver, weights; bool clamp; int maxit; double prec, step, factor; bool linear; };
double uni(double lo, double hi) { return lo + (hi - lo) * sim::unit(sim::WL); }
Case draw() {
    Case c; Problem& p = c.p; p.n = 1 + sim::wl(4); p.m = p.n + sim::wl(6); c.linear = sim::wl(3) == 1; p.throw_at = p.nan_at = p.inf_at = 0; p.wall = 0; p.calls = 0; p.log = 0;
    for (int i = 0; i < p.m; i++) { for (int j = 0; j < p.n; j++) { p.a.push_back((i % p.n == j ? 1.0 : 0.0) + uni(-0.4, 0.4)); p.b.push_back(uni(-1, 1)); } p.c.push_back(uni(0, 1.5)); p.kind.push_back(c.linear ? 0 : (int)sim::wl(5)); }
    std::vector<double> x, f; for (int j = 0; j < p.n; j++) { x.push_back(uni(-2, 2)); c.start.push_back(uni(-2, 2)); } p.at(x, c.meas, 0); if (sim::wl(2)) for (auto& v : c.meas) v += uni(-0.3, 0.3);
    c.solver = sim::wl(3); c.weights = sim::wl(4) == 1 ? 1 + (int)sim::wl(2) : 0; c.clamp = sim::wl(4) == 1; c.maxit = sim::wl(8) == 1 && c.linear && !c.weights && !c.clamp ? 0 : 1 + (int)sim::wl(30); c.prec = sim::wl(3) ? 1e-6 : 0; if (!c.maxit) c.prec = 1e-6; c.step = sim::wl(2) ? 1 : uni(0.001, 10); c.factor = sim::wl(2) ? 10 : uni(1.5, 20); return c;
}
struct Out { int how; std::vector<double> x; double res; std::string what; std::vector<Eval> log; int calls; };
template<class N, class W> double lm(Problem& p, um::Vector<double>& x, const um::Vector<double>& meas, const Case& c, const N& nrm, const W& w) { uo::LmSolverType t = c.solver == 0 ? uo::lmUseCholesky : c.solver == 1 ? uo::lmUseQR : uo::lmUseSVD; return uo::weightedLevenbergMarquardt(p, x, meas, uo::OptTerminate(c.maxit, c.prec), nrm, w, t, c.step, c.factor); }
Out optimize(const Case& c) {
    Out o; o.how = 0; o.res = -1; std::vector<Eval>* log; Problem* p; { sim::Rt r; log = new std::vector<Eval>; p = new Problem(c.p); p->log = log; p->calls = 0; }
    um::Vector<double>* x; um::Vector<double>* m; { sim::Rt r; x = new um::Vector<double>(c.start.size()); m = new um::Vector<double>(c.meas.size()); for (size_t i = 0; i < c.start.size(); i++) (*x)(i) = c.start[i]; for (size_t i = 0; i < c.meas.size(); i++) (*m)(i) = c.meas[i]; }
    try {
        if (c.weights == 0) o.res = c.clamp ? lm(*p, *x, *m, c, Clamp(), uo::OptNoWeightFunction()) : lm(*p, *x, *m, c, uo::OptNoNormalize(), uo::OptNoWeightFunction());
        else if (c.weights == 1) o.res = c.clamp ? lm(*p, *x, *m, c, Clamp(), Huber()) : lm(*p, *x, *m, c, uo::OptNoNormalize(), Huber());
        else o.res = lm(*p, *x, *m, c, uo::OptNoNormalize(), um::TukeyWeightFunction(1, 2.0));
    } catch (const Broken&) { o.how = 1; } catch (const std::bad_alloc&) { o.how = 2; } catch (const Ubitrack::Util::Exception& e) { sim::Rt r; o.how = 3; o.what = e.what(); } catch (const std::exception& e) { sim::Rt r; o.how = 4; o.what = e.what(); }
    { sim::Rt r; for (size_t i = 0; i < x->size(); i++) o.x.push_back((*x)(i)); o.log = *log; o.calls = p->calls; delete log; delete p; delete x; delete m; } return o;
}
double weight(const Case& c, double e) { if (c.weights == 1) return fabs(e) < 1 ? 1 : 1 / fabs(e); if (c.weights == 2) { double q = e * e; if (q == 0) return 0; double k = 4, ro = q > k ? k / 6 : k / 6 * (1 - pow(1 - q / k, 3)); return 1 / sqrt(ro); } return 1; }
double residual(const Case& c, const std::vector<double>& f) { double s = 0; for (size_t i = 0; i < f.size(); i++) { double e = c.meas[i] - f[i]; s += weight(c, e) * e * e; } return s; }
std::string str(const std::vector<double>& v) { std::string s; for (double d : v) s += sim::fmt(" %.17g", d); return s; }
bool same(const std::vector<double>& a, const std::vector<double>& b) { return a.size() == b.size() && (a.empty() || !memcmp(&a[0], &b[0], 8 * a.size())); }
void judge(const Case& c, const Out& o, bool memory) {
    sim::Rt q; sim::mix(sim::fnv(&o.x[0], 8 * o.x.size())); for (double v : o.x) SIM_CHECK(v == v, "not-a-number", "the parameters became NaN (%s)", str(o.x).c_str());
    SIM_CHECK(o.how != 2 || memory, "error", "out of memory"); SIM_CHECK(o.how != 4, "error", "foreign exception: %s", o.what.c_str()); SIM_CHECK(o.how != 1 || o.calls == c.p.throw_at, "error", "the exception of evaluation %d arrived after %d", c.p.throw_at, o.calls); SIM_CHECK(!(c.p.throw_at && o.calls >= c.p.throw_at) || o.how == 1 || o.how == 2, "swallowed", "evaluation %d failed but the optimization went on (%d)", c.p.throw_at, o.how);
    if (c.maxit) SIM_CHECK(o.calls <= c.maxit + 1, "too-long", "%d evaluations with %d iterations allowed", o.calls, c.maxit);
    SIM_CHECK(o.how != 3, "error", "the optimization failed: %s", o.what.c_str());
    if (o.log.empty()) { SIM_CHECK(same(o.x, c.start), "changed", "parameters changed without an evaluation"); return; }
    // the best of everything evaluated; equal residuals keep the earlier ones
    double best = residual(c, o.log[0].f); size_t at = 0; bool tie = false; for (size_t i = 1; i < o.log.size(); i++) { double r = residual(c, o.log[i].f); if (r == r && fabs(r - best) <= 1e-12 * (fabs(best) + 1e-20)) tie = true; if (r < best) { best = r; at = i; } }
    bool found = false; double mine = HUGE_VAL; for (auto& e : o.log) if (same(e.x, o.x)) { found = true; double r = residual(c, e.f); if (r < mine) mine = r; }
    SIM_CHECK(found, "not-evaluated", "the parameters returned (%s) were never evaluated", str(o.x).c_str());
    if (o.how == 0 || o.how == 1) {
        // a better evaluation may be the last one only when its acceptance was still to come (failure in between)
        SIM_CHECK(mine <= best * (1 + 1e-9) + 1e-300 || tie, "not-best", "the parameters returned have residual %.17g, but evaluation %zu of %zu had %.17g", mine, at, o.log.size(), best);
        if (o.how == 0) SIM_CHECK(fabs(o.res - mine) <= 1e-9 * mine + 1e-300, "residual", "the residual returned is %.17g, that of the parameters %.17g", o.res, mine);
    }
    if (o.how == 0) sim::probe("optimized"); if (o.how == 1) sim::probe("failure-passed-on"); if (at) sim::probe("improved");
}
// exact least squares by normal equations in extended precision
std::vector<double> exact(const Case& c) { int n = c.p.n, m = c.p.m; std::vector<long double> A(n * (n + 1), 0); for (int i = 0; i < n; i++) { for (int j = 0; j < n; j++) for (int k = 0; k < m; k++) A[i * (n + 1) + j] += (long double)c.p.a[k * n + i] * c.p.a[k * n + j]; for (int k = 0; k < m; k++) A[i * (n + 1) + n] += (long double)c.p.a[k * n + i] * c.meas[k]; } for (int i = 0; i < n; i++) { int pv = i; for (int r = i; r < n; r++) if (fabsl(A[r * (n + 1) + i]) > fabsl(A[pv * (n + 1) + i])) pv = r; for (int k = 0; k <= n; k++) std::swap(A[i * (n + 1) + k], A[pv * (n + 1) + k]); if (fabsl(A[i * (n + 1) + i]) < 0.02L) return std::vector<double>(); for (int r = 0; r < n; r++) if (r != i) { long double f = A[r * (n + 1) + i] / A[i * (n + 1) + i]; for (int k = 0; k <= n; k++) A[r * (n + 1) + k] -= f * A[i * (n + 1) + k]; } } std::vector<double> x; for (int i = 0; i < n; i++) x.push_back((double)(A[i * (n + 1) + n] / A[i * (n + 1) + i])); return x; }
void note(const Case& c, const char* what) { sim::Rt r; sim::sample(sim::fmt("%s: %d parameters, %d measurements, solver %d, weights %d, %d iterations", what, c.p.n, c.p.m, c.solver, c.weights, c.maxit)); }
}
SCENARIO(plain, 4) { Case c; { sim::Rt r; c = draw(); } note(c, "plain"); Out o = optimize(c); judge(c, o, false); sim::Rt r; if (c.linear && !c.weights && !c.clamp && c.maxit > 12 && c.prec == 0 && c.step == 1 && c.factor >= 5) { std::vector<double> x = exact(c); if (!x.empty()) { for (size_t i = 0; i < x.size(); i++) SIM_CHECK(fabs(x[i] - o.x[i]) < 1e-5 * (1 + fabs(x[i])), "not-optimal", "linear problem: parameters%s instead of%s", str(o.x).c_str(), str(x).c_str()); sim::probe("linear-solved"); } } sim::nontrivial(); }
SCENARIO(failing, 4) { Case c; { sim::Rt r; c = draw(); int k = 2 + sim::draw(sim::FA, 12); switch (sim::wl(4)) { case 0: c.p.throw_at = k - 1; break; case 1: c.p.nan_at = k; break; case 2: c.p.inf_at = k; break; default: c.p.wall = 2 + uni(0, 0.5); } } note(c, "failing"); Out o = optimize(c); { sim::Rt r; if (c.p.wall) for (auto& e : o.log) if (e.f[0] != e.f[0]) { sim::fault("evaluation-nan"); break; } } judge(c, o, false); sim::nontrivial(); }
SCENARIO(memory, 2) {
    Case c; { sim::Rt r; c = draw(); } note(c, "memory"); uint64_t b = sim::live_blocks(); sim::fail_alloc(1 + sim::draw(sim::FA, 30), sim::wl(2)); Out o = optimize(c); bool fired = sim::alloc_fault_fired(); sim::fail_alloc(0, false); if (fired) { sim::fault("out-of-memory"); sim::probe("out-of-memory"); } { sim::Rt r; SIM_CHECK(!fired || o.how == 2, "swallowed", "out of memory, but the optimization went on (%d)", o.how); if (o.how == 2) { bool start = same(o.x, c.start); bool ev = false; for (auto& e : o.log) ev |= same(e.x, o.x); SIM_CHECK(start || ev, "changed", "out of memory left parameters that were never evaluated"); } else judge(c, o, false); uint64_t l = sim::live_blocks(); SIM_CHECK(l <= b, "leak", "%llu blocks leaked", (unsigned long long)(l - b)); }
    Out again = optimize(c); judge(c, again, false); sim::nontrivial();
}
SCENARIO(parallel, 3) {
    int n = 2 + sim::wl(2); std::vector<Case>* cs; std::vector<Out>* alone; { sim::Rt r; cs = new std::vector<Case>; alone = new std::vector<Out>; for (int i = 0; i < n; i++) { Case c = draw(); if (sim::wl(3) == 1) c.p.throw_at = 1 + sim::draw(sim::FA, 8); cs->push_back(c); } } for (int i = 0; i < n; i++) { Out o = optimize((*cs)[i]); sim::Rt r; alone->push_back(o); }
    sim::sched_random(); for (int i = 0; i < n; i++) sim::spawn([cs, alone, i]() { Out o = optimize((*cs)[i]); judge((*cs)[i], o, false); sim::Rt r; SIM_CHECK(o.how == (*alone)[i].how && same(o.x, (*alone)[i].x), "disturbed", "with other optimizations running the parameters are%s instead of%s", str(o.x).c_str(), str((*alone)[i].x).c_str()); sim::probe("repeated-in-parallel"); }, "optimizer");
    sim::join_all(); sim::nontrivial();
}

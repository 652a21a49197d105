// P28: mixtures of normal distributions fitted to samples that arrive in any order, repeated, lost and with gross outliers; oracle: the same steps in extended precision, and what every mixture must be.
#include "sim.h"
#include <iostream>
#include <utMath/Vector.h>
#include <utMath/Matrix.h>
#include <utMath/Stochastic/expectation_maximization.h>
#include <utMath/Stochastic/Gaussian.h>
#include <utMath/Stochastic/Weighted.h>
#include <math.h>
#include <algorithm>
using namespace Ubitrack;
namespace {
namespace st = Math::Stochastic;
typedef long double L;
struct Nobuf : std::streambuf { int overflow(int c) { return c; } };
double uni(double a, double b) { return sim::uniform(sim::WL, a, b); }
struct Comp { std::vector<L> m, c; L w; };
typedef std::vector<std::vector<double> > Data;
// determinant and inverse of a small symmetric matrix
L invert(const std::vector<L>& c, size_t n, std::vector<L>& inv) { std::vector<L> a(c); inv.assign(n * n, 0); for (size_t i = 0; i < n; i++) inv[i * n + i] = 1; L det = 1; for (size_t k = 0; k < n; k++) { size_t p = k; for (size_t i = k; i < n; i++) if (fabsl(a[i * n + k]) > fabsl(a[p * n + k])) p = i; if (a[p * n + k] == 0) return 0; if (p != k) { for (size_t j = 0; j < n; j++) { std::swap(a[p * n + j], a[k * n + j]); std::swap(inv[p * n + j], inv[k * n + j]); } det = -det; } det *= a[k * n + k]; L d = a[k * n + k]; for (size_t j = 0; j < n; j++) { a[k * n + j] /= d; inv[k * n + j] /= d; } for (size_t i = 0; i < n; i++) if (i != k) { L f = a[i * n + k]; for (size_t j = 0; j < n; j++) { a[i * n + j] -= f * a[k * n + j]; inv[i * n + j] -= f * inv[k * n + j]; } } } return det; }
struct Own {
    size_t n; const Data* x; std::vector<Comp> g; bool tight; std::vector<std::vector<L> > lp; L lik;
    void logs() { lp.assign(g.size(), std::vector<L>(x->size())); for (size_t k = 0; k < g.size(); k++) { std::vector<L> inv; L det = invert(g[k].c, n, inv), had = 1; for (size_t i = 0; i < n; i++) had *= g[k].c[i * n + i]; if (!(det > 1e-7) || !(det > 1e-5 * had) || !(g[k].w > 1e-6)) tight = true; L c = -0.5L * (n * logl(2 * M_PIl) + logl(det)); for (size_t v = 0; v < x->size(); v++) { L s = 0; for (size_t i = 0; i < n; i++) for (size_t j = 0; j < n; j++) s += ((*x)[v][i] - g[k].m[i]) * inv[i * n + j] * ((*x)[v][j] - g[k].m[j]); lp[k][v] = logl(g[k].w) + c - s / 2; } }
        lik = 0; for (size_t v = 0; v < x->size(); v++) { L b = lp[0][v], s = 0; for (auto& l : lp) b = std::max(b, l[v]); for (auto& l : lp) s += expl(l[v] - b); lik += b + logl(s); } lik /= x->size(); }
    int fit() { logs(); L before = lik; for (int it = 0; it < 100; it++) {
            std::vector<L> b(x->size(), 0), s(x->size(), 0); for (size_t v = 0; v < x->size(); v++) { b[v] = lp[0][v]; for (auto& l : lp) b[v] = std::max(b[v], l[v]); for (auto& l : lp) s[v] += expl(l[v] - b[v]); }
            for (size_t k = 0; k < g.size(); k++) { L sum = 0; std::vector<L> r(x->size()); for (size_t v = 0; v < x->size(); v++) sum += r[v] = expl(lp[k][v] - b[v]) / s[v]; if (sum < 1e-6) tight = true; g[k].w = sum / x->size(); for (size_t i = 0; i < n; i++) { L m = 0; for (size_t v = 0; v < x->size(); v++) m += r[v] / sum * (*x)[v][i]; g[k].m[i] = m; } for (size_t i = 0; i < n; i++) for (size_t j = 0; j < n; j++) { L m = 0; for (size_t v = 0; v < x->size(); v++) m += r[v] / sum * ((*x)[v][i] - g[k].m[i]) * ((*x)[v][j] - g[k].m[j]); g[k].c[i * n + j] = m; } }
            logs(); if (tight) return it; L d = fabsl(before - lik), t = 1e-5L * fabsl(before); if (fabsl(d - t) < 1e-3L * t + 1e-12L) tight = true; if (d < t) return it + 1; before = lik; } return 100; }
};
template<class G> bool finite(const G& g) { bool ok = std::isfinite(g.weight) && std::isfinite(g.variance); for (size_t i = 0; i < G::size; i++) ok = ok && std::isfinite(g.mean[i]); for (size_t i = 0; i < G::size * G::size; i++) ok = ok && std::isfinite(g.covariance[i]); return ok; }
template<size_t N> void mixture() {
    typedef st::Weighted<st::Gaussian<double, N>, double> G; std::vector<Math::Vector<double, N> > pts; Data x; std::vector<G> g, again; size_t k; Own own; own.n = N; own.x = &x; own.tight = false; double ext; size_t far = 0, gone = 0; std::string what;
    { sim::Rt r; k = 1 + sim::wl(4); size_t n = 20 * k + sim::wl(80); ext = uni(1, 8); std::vector<std::vector<double> > ctr(k); std::vector<double> sg(k); for (size_t i = 0; i < k; i++) { for (size_t d = 0; d < N; d++) ctr[i].push_back(uni(-10, 10)); sg[i] = uni(0.3, 2); }
        for (size_t i = 0; i < n; i++) { size_t c = sim::wl((uint32_t)k); std::vector<double> p; for (size_t d = 0; d < N; d++) p.push_back(ctr[c][d] + sg[c] * sim::gauss(sim::WL)); if (sim::chance(sim::FA, 1, 30)) { sim::fault("message-lost"); gone++; continue; } if (sim::chance(sim::FA, 1, 60)) { double f = pow(10, sim::uniform(sim::FA, 1, 3)); for (auto& e : p) e *= f; far++; sim::fault("outlier"); } x.push_back(p); if (sim::chance(sim::FA, 1, 30)) { x.push_back(p); sim::fault("message-duplicated"); } if (sim::chance(sim::FA, 1, 10)) { std::swap(x.back(), x[sim::draw(sim::FA, (uint32_t)x.size())]); sim::fault("messages-reordered"); } }
        if (x.size() < N + 2 + k) return; for (auto& p : x) { Math::Vector<double, N> v; for (size_t d = 0; d < N; d++) v(d) = p[d]; pts.push_back(v); }
        double rest = 1; for (size_t i = 0; i < k; i++) { Comp c; std::vector<double> a(N * N); for (auto& e : a) e = uni(-1, 1); for (size_t d = 0; d < N; d++) { c.m.push_back(sim::wl(2) ? ctr[i][d] + uni(-1, 1) : x[sim::wl((uint32_t)x.size())][d]); a[d * N + d] += 1.5; } c.c.assign(N * N, 0); for (size_t p = 0; p < N; p++) for (size_t q = 0; q < N; q++) for (size_t s = 0; s < N; s++) c.c[p * N + q] += a[p * N + s] * a[q * N + s] * ext; double w = i + 1 == k ? rest : rest * uni(0.2, 0.8); rest -= w; c.w = w; 
            G q; for (size_t d = 0; d < N; d++) { q.mean[d] = (double)c.m[d]; c.m[d] = q.mean[d]; } for (size_t p = 0; p < N; p++) for (size_t s = p; s < N; s++) { q.covariance[p * N + s] = q.covariance[s * N + p] = (double)c.c[p * N + s]; c.c[p * N + s] = c.c[s * N + p] = q.covariance[p * N + s]; } q.variance = q.standardDeviation = 0; q.weight = w; g.push_back(q); own.g.push_back(c); }
        own.logs(); what = sim::fmt("%zu numbers each, %zu values (%zu far away), %zu components", (size_t)N, x.size(), far, k); sim::sample(what); }
    double first = st::log_likelihood<double>(g.begin(), g.end(), pts.begin(), pts.end()); { sim::Rt r; SIM_CHECK(fabs(first - (double)own.lik) <= 1e-6 * (1 + fabs((double)own.lik)), "likelihood", "the likelihood of a mixture is %.10g instead of %.10g (%s)", first, (double)own.lik, what.c_str()); sim::probe("likelihood"); again = g; }
    double end = st::expectation_maximization(pts.begin(), pts.end(), g.begin(), g.end());
    double sum = 0; for (auto& q : g) { sum += q.weight; SIM_CHECK(finite(q) && q.weight >= 0, "not-finite", "a component of weight %g is not finite (%s)", q.weight, what.c_str()); for (size_t i = 0; i < N; i++) { SIM_CHECK(q.covariance[i * N + i] >= 0, "variance", "a variance is %g (%s)", q.covariance[i * N + i], what.c_str()); for (size_t j = 0; j < N; j++) SIM_CHECK(q.covariance[i * N + j] == q.covariance[j * N + i], "variance", "a covariance is not symmetric (%s)", what.c_str()); } }
    sim::Rt r; SIM_CHECK(fabs(sum - 1) < 1e-9, "weights", "the weights of a mixture sum to %.10g (%s)", sum, what.c_str());
    // a component that collapses onto a few values is given up, which may cost likelihood
    int it = own.fit(); if (own.tight) { sim::probe("degenerate"); return; }
    SIM_CHECK(end >= first - 1e-9 * (1 + fabs(first)), "less-likely", "the fitted mixture is less likely (%.10g) than the one before (%.10g; %s)", end, first, what.c_str());
    for (size_t c = 0; c < k; c++) { L s = sqrtl(1e-12L), tol; for (size_t i = 0; i < N; i++) s = std::max(s, sqrtl(own.g[c].c[i * N + i])); tol = 1e-5L; bool ok = fabsl(g[c].weight - own.g[c].w) < tol; for (size_t i = 0; i < N; i++) ok = ok && fabsl(g[c].mean[i] - own.g[c].m[i]) <= tol * (s + fabsl(own.g[c].m[i])); for (size_t i = 0; i < N * N; i++) ok = ok && fabsl(g[c].covariance[i] - own.g[c].c[i]) <= tol * s * s; L v = 0; for (size_t i = 0; i < N; i++) v += own.g[c].c[i * N + i]; ok = ok && fabsl(g[c].variance - v) <= tol * v && fabsl(g[c].standardDeviation - sqrtl(v)) <= tol * sqrtl(v);
        SIM_CHECK(ok, "component", "component %zu of a mixture has weight %.9g, first mean %.9g, first variance %.9g, but exact steps (%d) give %.9g, %.9g, %.9g (%s)", c, g[c].weight, g[c].mean[0], g[c].covariance[0], it, (double)own.g[c].w, (double)own.g[c].m[0], (double)own.g[c].c[0], what.c_str()); }
    SIM_CHECK(fabs(end - (double)own.lik) <= 1e-6 * (1 + fabs((double)own.lik)), "likelihood", "a fitted mixture's likelihood is reported as %.10g instead of %.10g (%s)", end, (double)own.lik, what.c_str()); sim::mix(sim::fnv(&end, 8)); sim::probe("fitted"); if (far) sim::probe("fitted with outliers"); if (k > 1) sim::probe("several components");
}
// one distribution of plain, weighted or labelled samples
template<size_t N> void single() {
    std::vector<Math::Vector<double, N> > p; std::vector<double> w; std::vector<size_t> lab; size_t n, pick, cnt = 0; int how = sim::wl(3); { sim::Rt r; n = 1 + sim::wl(60); pick = sim::wl(3); double off = sim::wl(2) ? pow(10, uni(0, 5)) : 0, s = 0; for (size_t i = 0; i < n; i++) { Math::Vector<double, N> v; for (size_t d = 0; d < N; d++) v(d) = off + uni(-3, 3); int rep = sim::chance(sim::FA, 1, 10) ? 2 : 1; if (rep == 2) sim::fault("message-duplicated"); for (int k = 0; k < rep; k++) { p.push_back(v); w.push_back(uni(0, 1)); s += w.back(); lab.push_back(sim::wl(3)); } } if (how == 2) lab[sim::wl((uint32_t)p.size())] = pick; for (auto& e : w) e /= s; n = p.size(); }
    st::Gaussian<double, N> g; bool ok; if (how == 0) ok = st::estimate_gaussian(p.begin(), p.end(), g); else if (how == 1) ok = st::estimate_gaussian(p.begin(), p.end(), w.begin(), g); else ok = st::estimate_gaussian_index(p.begin(), p.end(), lab.begin(), pick, g);
    sim::Rt r; SIM_CHECK(ok, "failed", "a distribution of %zu samples is not estimated", n); std::vector<L> m(N, 0), c(N * N, 0), u(n); L sum = 0; for (size_t i = 0; i < n; i++) { u[i] = how == 0 ? 1 : how == 1 ? (L)w[i] : lab[i] == pick; if (how == 2 && lab[i] == pick) cnt++; sum += u[i]; } if (how == 1) sum = 1; for (size_t i = 0; i < n; i++) for (size_t d = 0; d < N; d++) m[d] += u[i] / sum * p[i](d); for (size_t i = 0; i < n; i++) for (size_t a = 0; a < N; a++) for (size_t b = 0; b < N; b++) c[a * N + b] += u[i] / sum * (p[i](a) - m[a]) * (p[i](b) - m[b]); L v = 0;
    for (size_t a = 0; a < N; a++) { v += c[a * N + a]; SIM_CHECK(fabsl(g.mean[a] - m[a]) < 1e-10 * (1 + fabsl(m[a])), "mean", "a mean is %.12g instead of %.12g", g.mean[a], (double)m[a]); for (size_t b = 0; b < N; b++) SIM_CHECK(fabsl(g.covariance[a * N + b] - c[a * N + b]) < 1e-9, "covariance", "a covariance is %.12g instead of %.12g", g.covariance[a * N + b], (double)c[a * N + b]); } SIM_CHECK(fabsl(g.variance - v) < 1e-8 && fabsl(g.standardDeviation - sqrtl(v)) < 1e-4, "variance", "a variance is %.12g instead of %.12g", g.variance, (double)v); sim::probe(how == 0 ? "estimated" : how == 1 ? "estimated with weights" : "estimated with labels");
}
void any() { switch (sim::wl(6)) { case 0: case 1: mixture<2>(); break; case 2: mixture<3>(); break; case 3: mixture<4>(); break; case 4: single<2>(); break; default: single<3>(); } }
void mute() { static Nobuf b; sim::Rt r; std::cout.rdbuf(&b); }
}
SCENARIO(fit, 5) { mute(); switch (sim::wl(4)) { case 0: case 1: mixture<2>(); break; case 2: mixture<3>(); break; default: mixture<4>(); } sim::nontrivial(); }
SCENARIO(one, 2) { mute(); switch (sim::wl(3)) { case 0: single<2>(); break; case 1: single<3>(); break; default: single<4>(); } sim::nontrivial(); }
SCENARIO(parallel, 1) { mute(); int n = 2 + sim::wl(2); sim::sched_random(); for (int i = 0; i < n; i++) sim::spawn([]() { any(); }, "fit"); sim::join_all(); sim::probe("at once"); sim::nontrivial(); }

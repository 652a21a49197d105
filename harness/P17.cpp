// P17: clustering and selection of movements for every state of the random generator and every layout of the data.
#include "sim.h"
#include "os.h"
#include <utMath/Pose.h>
#include <utMath/Vector.h>
#include <utMath/Quaternion.h>
#include <utMath/Random/Scalar.h>
#include <utMath/Random/Vector.h>
#include <utMath/Random/Matrix.h>
#include <utMath/Random/Rotation.h>
#include <utMath/Stochastic/k_means.h>
#include <utAlgorithm/PoseEstimation6D6D/DataSelection.h>
#include <utAlgorithm/PoseEstimation6D6D/HandEyeCalibration.h>
#include <memory>
#include <math.h>
#include <string.h>
using namespace Ubitrack;
namespace um = Ubitrack::Math;
namespace us = Ubitrack::Math::Stochastic;
namespace {
void stir() { uint32_t k = sim::wl(3) ? sim::wl(40) : sim::wl(3000); for (uint32_t i = 0; i < k; i++) um::Random::distribute_uniform<double>(0, 1); }
// a layout: spread, duplicates, clusters, all equal, on a line
template<class T, size_t D> std::vector<um::Vector<T, D> > points(uint32_t n) {
    std::vector<um::Vector<T, D> > p; uint32_t style = sim::wl(6); double s = sim::wl(2) ? 1 : pow(10, sim::uniform(sim::WL, -2, 3)); um::Vector<T, D> c[4]; for (int k = 0; k < 4; k++) for (size_t d = 0; d < D; d++) c[k](d) = (T)(s * sim::uniform(sim::WL, -5, 5));
    for (uint32_t i = 0; i < n; i++) {
        um::Vector<T, D> v; for (size_t d = 0; d < D; d++) v(d) = (T)(s * sim::uniform(sim::WL, -1, 1));
        if (style == 1 && i) { if (sim::wl(2)) v = p[sim::wl(i)]; } else if (style == 2) v = v * (T)0.05 + c[sim::wl(4)]; else if (style == 3) v = c[0]; else if (style == 4) { T t = v(0); v = c[1] + t * (c[2] - c[1]); } else if (style == 5) for (size_t d = 0; d < D; d++) v(d) = (T)sim::wl(3);
        p.push_back(v);
    }
    return p;
}
template<class T, size_t D> long double sq(const um::Vector<T, D>& a, const um::Vector<T, D>& b) { long double s = 0; for (size_t d = 0; d < D; d++) s += ((long double)a(d) - b(d)) * ((long double)a(d) - b(d)); return s; }
template<class T, size_t D> std::string str(const um::Vector<T, D>& v) { std::string s = "("; for (size_t d = 0; d < D; d++) s += sim::fmt(d ? ", %.9g" : "%.9g", (double)v(d)); return s + ")"; }
template<class T, size_t D> void judge(const std::vector<um::Vector<T, D> >& p, const std::vector<um::Vector<T, D> >& m, const std::vector<size_t>& ix, const std::vector<um::Vector<T, D> >* start) {
    sim::Rt r; T lo[D], hi[D]; long double scale = 0; for (size_t d = 0; d < D; d++) { lo[d] = hi[d] = p[0](d); for (auto& x : p) { if (x(d) < lo[d]) lo[d] = x(d); if (x(d) > hi[d]) hi[d] = x(d); } if (fabs(lo[d]) > scale) scale = fabs(lo[d]); if (fabs(hi[d]) > scale) scale = fabs(hi[d]); }
    long double e = std::numeric_limits<T>::epsilon() * 64 * (p.size() + 4); T tol = (T)(scale * e);
    for (auto& x : m) for (size_t d = 0; d < D; d++) { double v = x(d); sim::mix(sim::fnv(&v, 8)); }
    SIM_CHECK(ix.size() == p.size(), "count", "%zu labels for %zu elements", ix.size(), p.size());
    std::vector<int> used(m.size(), 0); for (size_t i : ix) { SIM_CHECK(i < m.size(), "label", "an element is assigned to cluster %zu of %zu", i, m.size()); used[i]++; }
    for (size_t k = 0; k < m.size(); k++) for (size_t d = 0; d < D; d++) {
        SIM_CHECK(std::isfinite(m[k](d)), "not-a-number", "centroid %zu of %zu is %s (%d elements)", k, m.size(), str(m[k]).c_str(), used[k]);
        bool untouched = start && used[k] == 0;     // a centroid nothing belongs to may stay where it was
        if (!untouched) SIM_CHECK(m[k](d) >= lo[d] - tol && m[k](d) <= hi[d] + tol, "outside", "centroid %zu is %s, outside the data", k, str(m[k]).c_str());
    }
    for (size_t i = 0; i < p.size(); i++) { long double own = sq(p[i], m[ix[i]]); for (size_t k = 0; k < m.size(); k++) { long double o = sq(p[i], m[k]); SIM_CHECK(own <= o + e * (own + o) + e * scale * scale * 1e-6L, "not-nearest", "element %zu %s belongs to %s but %s is nearer", i, str(p[i]).c_str(), str(m[ix[i]]).c_str(), str(m[k]).c_str()); } }
}
// the assignment and averaging steps on paper; false when the outcome hangs on rounding
template<class T, size_t D> bool model(const std::vector<um::Vector<T, D> >& p, std::vector<std::vector<long double> >& m) {
    sim::Rt r; size_t n = p.size(), k = m.size(); std::vector<size_t> ix(n); long double sc = 1; for (auto& x : p) for (size_t d = 0; d < D; d++) if (fabsl(x(d)) > sc) sc = fabsl(x(d));
    auto assign = [&]() { for (size_t i = 0; i < n; i++) { long double b = -1, b2 = -1; for (size_t c = 0; c < k; c++) { long double s = 0; for (size_t d = 0; d < D; d++) s += (p[i](d) - m[c][d]) * (p[i](d) - m[c][d]); if (b < 0 || s < b) { b2 = b; b = s; ix[i] = c; } else if (b2 < 0 || s < b2) b2 = s; } if (b2 >= 0 && b2 - b < 1e-9L * (b + sc * sc * 1e-3L)) return false; } return true; };
    if (!assign()) return false;
    for (int it = 0; it < 100; it++) {
        std::vector<std::vector<long double> > t(k, std::vector<long double>(D, 0)); std::vector<size_t> cnt(k, 0); for (size_t i = 0; i < n; i++) { cnt[ix[i]]++; for (size_t d = 0; d < D; d++) t[ix[i]][d] += p[i](d); }
        long double sum = 0; for (size_t c = 0; c < k; c++) { if (cnt[c]) for (size_t d = 0; d < D; d++) t[c][d] /= cnt[c]; else t[c] = m[c]; for (size_t d = 0; d < D; d++) sum += (t[c][d] - m[c][d]) * (t[c][d] - m[c][d]); }
        sum /= k; m = t; if (!assign()) return false; if (fabsl(sum - 1e-4L) < 1e-10L) return false; if (sum < 1e-4L) break;
    }
    return true;
}
template<class T, size_t D> void cluster() {
    uint32_t n = 2 + sim::wl(sim::wl(4) ? 30 : 200), k = 1 + sim::wl(n - 1 < 8 ? n - 1 : 8); std::vector<um::Vector<T, D> > p = points<T, D>(n), m; std::vector<size_t> ix;
    us::k_means(p.begin(), p.end(), (size_t)k, std::back_inserter(m), std::back_inserter(ix));
    SIM_CHECK(!m.empty() && m.size() <= k, "count", "%zu clusters instead of at most %u", m.size(), k); judge(p, m, ix, (std::vector<um::Vector<T, D> >*)0);
    { sim::Rt r; size_t distinct = 0; for (uint32_t i = 0; i < n && distinct <= k; i++) { bool nw = true; for (uint32_t j = 0; j < i; j++) if (sq(p[i], p[j]) == 0) { nw = false; break; } distinct += nw; } size_t want = distinct < k ? distinct : k; SIM_CHECK(m.size() >= want, "too-few", "%zu clusters found, %u asked for, %zu distinct elements", m.size(), k, distinct); if (m.size() < k) sim::probe("fewer-clusters"); }
    sim::probe("clustered");
}
template<size_t D> void given() {           // starting centroids chosen by the caller, also far away and equal ones
    uint32_t n = 3 + sim::wl(40), k = 1 + sim::wl(n - 1 < 6 ? n - 1 : 6); std::vector<um::Vector<double, D> > p = points<double, D>(n), m, s; std::vector<size_t> ix; uint32_t style = sim::wl(4);
    for (uint32_t i = 0; i < k; i++) { um::Vector<double, D> v = p[sim::wl(n)]; if (style == 1) { v = v * 1.0; for (size_t d = 0; d < D; d++) v(d) += sim::uniform(sim::WL, -1, 1); } if (style == 2 && sim::wl(2)) for (size_t d = 0; d < D; d++) v(d) = 1e4 * sim::uniform(sim::WL, 1, 2); if (style == 3) v = p[i % n]; s.push_back(v); }
    m = s; double e = us::k_means(p.begin(), p.end(), m.begin(), m.end(), std::back_inserter(ix), um::SquaredDistance<um::Vector<double, D> >());
    SIM_CHECK(std::isfinite(e) && e >= 0, "not-a-number", "the remaining change is %g", e); judge(p, m, ix, &s);
    sim::Rt r; long double a = 0, b = 0; for (auto& x : p) { long double u = sq(x, s[0]), v = sq(x, m[0]); for (uint32_t i = 1; i < k; i++) { u = std::min(u, sq(x, s[i])); v = std::min(v, sq(x, m[i])); } a += u; b += v; }
    SIM_CHECK(b <= a * (1 + 1e-9L) + 1e-9L, "worse", "clustering raised the sum of squared distances from %.9Lg to %.9Lg", a, b);
    std::vector<std::vector<long double> > w; for (auto& v : s) { w.push_back(std::vector<long double>()); for (size_t d = 0; d < D; d++) w.back().push_back(v(d)); }
    if (model(p, w)) { for (uint32_t i = 0; i < k; i++) for (size_t d = 0; d < D; d++) SIM_CHECK(fabsl(w[i][d] - m[i](d)) <= 1e-7L * (1 + fabsl(w[i][d])), "other-centroid", "centroid %u is %s, coordinate %zu should be %.9Lg", i, str(m[i]).c_str(), d, w[i][d]); sim::probe("compared"); }
    std::vector<int> used(k, 0); for (size_t i : ix) used[i]++; for (int u : used) if (!u) { sim::probe("empty-cluster"); break; }
}
template<class T, size_t D> void select() {
    uint32_t n = 1 + sim::wl(30), k = 1 + sim::wl(n); std::vector<um::Vector<T, D> > p = points<T, D>(n), o; size_t got = us::copy_probability(p.begin(), p.end(), (size_t)k, std::back_inserter(o), um::Distance<um::Vector<T, D> >());
    sim::Rt r; SIM_CHECK(got == o.size() && got >= 1 && got <= k, "count", "%zu elements selected, %zu reported, %u asked for", o.size(), got, k);
    for (auto& x : o) { double v = x(0); sim::mix(sim::fnv(&v, 8)); bool f = false; for (auto& y : p) f |= sq(x, y) == 0; SIM_CHECK(f, "invented", "selected element %s is not among the data", str(x).c_str()); }
    size_t distinct = 0; for (uint32_t i = 0; i < n; i++) { bool nw = true; for (uint32_t j = 0; j < i; j++) if (sq(p[i], p[j]) == 0) nw = false; distinct += nw; }
    SIM_CHECK(got >= (distinct < k ? distinct : k), "too-few", "%zu of %u elements selected although %zu are distinct", got, k, distinct); sim::probe("selected");
}
um::Quaternion rotation(double amp) { double x = sim::uniform(sim::WL, -1, 1), y = sim::uniform(sim::WL, -1, 1), z = sim::uniform(sim::WL, -1, 1.01), l = sqrt(x * x + y * y + z * z); if (l < 1e-3) return um::Quaternion(0, 0, 0, 1); double a = sim::uniform(sim::WL, 0, amp) / 2; return um::Quaternion(x / l * sin(a), y / l * sin(a), z / l * sin(a), cos(a)); }
double rdist(const um::Quaternion& a, const um::Quaternion& b) { double s = a.x() * b.x() + a.y() * b.y() + a.z() * b.z() + a.w() * b.w(), x = 0; double g = s < 0 ? -1 : 1; double d[4] = {a.x() - g * b.x(), a.y() - g * b.y(), a.z() - g * b.z(), a.w() - g * b.w()}; for (double v : d) x += v * v; return sqrt(x); }
double pdist(const um::Pose& a, const um::Pose& b) { double s = 0; for (int i = 0; i < 3; i++) s += fabs(a.translation()(i) - b.translation()(i)); return s + rdist(a.rotation(), b.rotation()); }
void movements() {
    uint32_t n = 3 + sim::wl(sim::wl(4) ? 8 : 18), k = 1 + sim::wl(n + 3), style = sim::wl(4); std::vector<um::Pose> eyes, hands, eo, ho;
    for (uint32_t i = 0; i < n; i++) { um::Vector<double, 3> t(sim::uniform(sim::WL, -1, 1), sim::uniform(sim::WL, -1, 1), sim::uniform(sim::WL, -1, 1)), u(sim::uniform(sim::WL, -1, 1), sim::uniform(sim::WL, -1, 1), sim::uniform(sim::WL, -1, 1)); um::Quaternion q = rotation(style == 0 ? 3.1 : 1.2); if (style == 1) q = um::Quaternion(0, 0, 0, 1); if (style == 2 && i && sim::wl(2)) q = eyes[sim::wl(i)].rotation(); eyes.push_back(um::Pose(q, t)); hands.push_back(um::Pose(rotation(3.1), u)); }
    for (uint32_t b = sim::wl(3); b; b--) { std::vector<um::Pose> x, y; Algorithm::PoseEstimation6D6D::select_6DPoses(hands, eyes, 1, x, y); }      // earlier draws
    Algorithm::PoseEstimation6D6D::select_6DPoses(eyes, hands, (size_t)k, eo, ho); sim::Rt r;
    uint32_t most = k < n - 1 ? k : n - 1; SIM_CHECK(eo.size() == ho.size() && eo.size() >= 1 && eo.size() <= most, "count", "%zu and %zu movements selected, at most %u possible", eo.size(), ho.size(), most);
    std::vector<std::pair<uint32_t, uint32_t> > taken;
    for (size_t s = 0; s < eo.size(); s++) {
        bool found = false; double tx = eo[s].translation()(0); sim::mix(sim::fnv(&tx, 8)); for (uint32_t i = 0; i < n && !found; i++) for (uint32_t j = 0; j < n && !found; j++) if (i != j) { um::Pose e1 = ~eyes[i] * eyes[j], e2 = eyes[i] * ~eyes[j], h1 = ~hands[i] * hands[j], h2 = hands[i] * ~hands[j]; bool e = pdist(eo[s], e1) < 1e-6 || pdist(eo[s], e2) < 1e-6, h = pdist(ho[s], h1) < 1e-6 || pdist(ho[s], h2) < 1e-6; if (e && h) { found = true; std::pair<uint32_t, uint32_t> pr(std::min(i, j), std::max(i, j)); SIM_CHECK(std::find(taken.begin(), taken.end(), pr) == taken.end(), "twice", "the movement between measurements %u and %u was selected twice", pr.first, pr.second); taken.push_back(pr); } }
        SIM_CHECK(found, "invented", "selected movement %zu of %zu is not a pair of movements between the same two measurements (%u measurements, %u asked for, style %u)", s, eo.size(), n, k, style);
    }
    if (style == 0) SIM_CHECK(eo.size() * 2 >= most, "too-few", "%zu movements selected instead of %u", eo.size(), most); if (eo.size() < most) sim::probe("fewer-movements"); sim::probe("movements");
}
void incremental() {     // a calibration that grows with the measurements: every update selects movements nearest to the cluster centres and finds the truth
    typedef um::Vector<double, 8> D8; typedef Algorithm::PoseEstimation6D6D::HandEyeCalibration<double> Cal; std::unique_ptr<Cal> cal(new Cal); um::Pose x(rotation(2.5), um::Vector<double, 3>(sim::uniform(sim::WL, -1, 1), sim::uniform(sim::WL, -1, 1), sim::uniform(sim::WL, -1, 1))), base(rotation(3), um::Vector<double, 3>(sim::uniform(sim::WL, -1, 1), 1, 2));
    std::vector<um::Pose> eyes, hands; uint32_t ups = 1 + sim::wl(6); bool worked = false;
    for (uint32_t u = 0; u < ups; u++) {
        uint32_t more = sim::wl(4) + (u == 0 ? sim::wl(6) : 0); for (uint32_t i = 0; i < more; i++) { um::Pose h(rotation(3.1), um::Vector<double, 3>(sim::uniform(sim::WL, -1, 1), sim::uniform(sim::WL, -1, 1), sim::uniform(sim::WL, -1, 1))); hands.push_back(h); eyes.push_back(x * ~h * base); }
        um::Pose got; bool ok = cal->estimatePose6D(eyes, got, hands); sim::Rt r; size_t n = eyes.size(), rel = n * (n - 1) / 2; if (n < 3) { SIM_CHECK(!ok, "count", "a hand-eye calibration from %zu measurements succeeded", n); continue; }
        SIM_CHECK(cal->relativePosesAllA.size() == rel && cal->relativePosesAllB.size() == rel, "count", "%zu and %zu movements kept between %zu measurements", cal->relativePosesAllA.size(), cal->relativePosesAllB.size(), n);
        auto& sel = cal->m_DataSelection; size_t k = sel.clusterPoseList.size(); SIM_CHECK(k >= 1 && k <= (size_t)sqrt(rel / 2.) && sel.indexList.size() == k && cal->relativePosesBestMatchA.size() == k && cal->relativePosesBestMatchB.size() == k, "count", "%zu clusters, %zu indices, %zu and %zu movements selected out of %zu", k, sel.indexList.size(), cal->relativePosesBestMatchA.size(), cal->relativePosesBestMatchB.size(), rel); SIM_CHECK(sel.comparisonPoseList.size() == rel, "count", "%zu movements compared out of %zu", sel.comparisonPoseList.size(), rel);
        auto dist = [&](size_t c, size_t i) { double s = 0; for (int d = 0; d < 3; d++) { double e = sel.clusterPoseList[c](d) - sel.comparisonPoseList[i](d); s += e * e; } return sqrt(s); };
        for (size_t c = 0; c < k; c++) { size_t ix = sel.indexList[c]; SIM_CHECK(ix < rel, "invented", "movement %zu of %zu selected", ix, rel); for (int d = 0; d < 8; d++) SIM_CHECK(cal->relativePosesBestMatchA[c](d) == cal->relativePosesAllA[ix](d) && cal->relativePosesBestMatchB[c](d) == cal->relativePosesAllB[ix](d), "mismatched", "selected movement %zu is not movement %zu of both lists", c, ix); double best = 1e9; size_t who = 0; for (size_t i = 0; i < rel; i++) { double e = dist(c, i); bool mine = true; for (size_t o = 0; o < k; o++) if (dist(o, i) < e - 1e-9) mine = false; if (mine && e < best) { best = e; who = i; } } if (best < 1e8) SIM_CHECK(dist(c, ix) <= best + 1e-9, "not-nearest", "cluster %zu selected movement %zu at distance %g, movement %zu is at %g", c, ix, dist(c, ix), who, best); else sim::probe("empty-cluster"); }
        if (ok) { double d = pdist(got, x); SIM_CHECK(d < 1e-4, "wrong", "hand-eye calibration from %zu exact measurements in %u updates is off by %g", n, u + 1, d); sim::probe("incremental"); worked = true; } else sim::probe("not-found"); sim::mix(ok + 2 * k); for (size_t ix : sel.indexList) sim::mix(ix);
    }
    sim::Rt r; if (worked) sim::nontrivial();
}
void stat(const char* what, double sum, double sq2, int n, double mu, double sd) { double m = sum / n, v = sqrt(fmax(0, sq2 / n - m * m)); SIM_CHECK(fabs(m - mu) <= 6 * sd / sqrt((double)n) + 1e-12 * fabs(mu), "distribution", "mean of %d %s values is %g instead of %g (deviation %g)", n, what, m, mu, sd); SIM_CHECK(fabs(v - sd) <= 6 * sd / sqrt((double)n), "distribution", "deviation of %d %s values is %g instead of %g", n, what, v, sd); }
template<class T> void generators() {
    const int n = 600; um::Vector<T, 3> lo, hi, mu, sd; for (int d = 0; d < 3; d++) { lo(d) = (T)sim::uniform(sim::WL, -10, 10); hi(d) = lo(d) + (T)sim::uniform(sim::WL, 0.1, 10); mu(d) = (T)sim::uniform(sim::WL, -5, 5); sd(d) = (T)sim::uniform(sim::WL, 0.1, 3); }
    typename um::Random::Vector<T, 3>::Uniform u(lo, hi), u1(hi(0), lo(0)); typename um::Random::Vector<T, 3>::Normal g(mu, sd), g1(mu(0), sd(0)); typename um::Random::Quaternion<T>::Uniform q; typename um::Random::Matrix<T, 2, 3>::Uniform mt(hi(1), lo(1));
    double su[3] = {0}, qu[3] = {0}, sg[3] = {0}, qg[3] = {0}, s1 = 0, q1 = 0, qs[4] = {0}; int il = (int)sim::wl(20) - 10, ih = il + (int)sim::wl(6), ic[6] = {0};
    for (int i = 0; i < n; i++) {
        um::Vector<T, 3> v = u(), w = u1(), x = g(), y = g1(); um::Quaternion r = q(); um::Matrix<T, 2, 3> m = mt(); int k = um::Random::distribute_uniform<int>(il, ih);
        for (int d = 0; d < 3; d++) { SIM_CHECK(v(d) >= lo(d) && v(d) <= hi(d), "range", "random value %g outside %g to %g", (double)v(d), (double)lo(d), (double)hi(d)); SIM_CHECK(w(d) >= lo(0) && w(d) <= hi(0), "range", "random value %g outside %g to %g", (double)w(d), (double)lo(0), (double)hi(0)); su[d] += v(d); qu[d] += (double)v(d) * v(d); sg[d] += x(d); qg[d] += (double)x(d) * x(d); s1 += y(d); q1 += (double)y(d) * y(d); for (int e = 0; e < 2; e++) SIM_CHECK(m(e, d) >= lo(1) && m(e, d) <= hi(1), "range", "random value %g outside %g to %g", (double)m(e, d), (double)lo(1), (double)hi(1)); }
        double l = sqrt(r.x() * r.x() + r.y() * r.y() + r.z() * r.z() + r.w() * r.w()); SIM_CHECK(fabs(l - 1) < 1e-5, "rotation", "random rotation of length %.9g", l); qs[0] += r.x() * r.x(); qs[1] += r.y() * r.y(); qs[2] += r.z() * r.z(); qs[3] += r.w() * r.w();
        SIM_CHECK(k >= il && k <= ih, "range", "random number %d outside %d to %d", k, il, ih); ic[k - il]++;
    }
    for (int d = 0; d < 3; d++) { double w = (double)hi(d) - lo(d); stat("uniform", su[d], qu[d], n, (double)lo(d) + w / 2, w / sqrt(12.0)); stat("normal", sg[d], qg[d], n, mu(d), sd(d)); } stat("normal", s1, q1, 3 * n, mu(0), sd(0));
    for (int d = 0; d < 4; d++) SIM_CHECK(fabs(qs[d] / n - 0.25) < 0.08, "distribution", "mean square of component %d of random rotations is %g", d, qs[d] / n); for (int k = 0; k <= ih - il; k++) SIM_CHECK(ic[k] > 0, "distribution", "%d was never drawn between %d and %d", il + k, il, ih);
    sim::mix(sim::fnv(su, sizeof su)); sim::probe("generators");
}
}
SCENARIO(generators, 1) { stir(); if (sim::wl(2)) generators<double>(); else generators<float>(); sim::nontrivial(); }
SCENARIO(cluster, 4) { stir(); int m = 1 + sim::wl(3); for (int i = 0; i < m; i++) switch (sim::wl(4)) { case 0: cluster<double, 2>(); break; case 1: cluster<double, 3>(); break; case 2: cluster<float, 2>(); break; default: cluster<double, 6>(); } sim::nontrivial(); }
SCENARIO(given, 4) { int m = 1 + sim::wl(3); for (int i = 0; i < m; i++) if (sim::wl(2)) given<2>(); else given<3>(); sim::nontrivial(); }
SCENARIO(selection, 2) { stir(); int m = 1 + sim::wl(4); for (int i = 0; i < m; i++) if (sim::wl(2)) select<double, 3>(); else select<float, 2>(); sim::nontrivial(); }
SCENARIO(movements, 3) { movements(); sim::nontrivial(); }
SCENARIO(incremental, 2) { stir(); incremental(); }

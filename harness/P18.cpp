// P18: online hand-eye calibration under loss, duplication, reordering, sign changes and interleaved use.
#include "sim.h"
#include "os.h"
#include <utMath/Quaternion.h>
#include <utMath/Vector.h>
#include <utMath/Matrix.h>
#include <utAlgorithm/OnlineRotHec.h>
#include <utAlgorithm/RotationHecKalmanFilter.h>
#include <math.h>
#include <string.h>
#include <algorithm>
using namespace Ubitrack;
namespace um = Ubitrack::Math;
typedef um::Quaternion Q;
namespace {
struct M { Q a, b; };
Q axisangle(double x, double y, double z, double a) { double l = sqrt(x * x + y * y + z * z); return Q(x / l * sin(a / 2), y / l * sin(a / 2), z / l * sin(a / 2), cos(a / 2)); }
Q randrot(sim::Stream s, double lo, double hi) { double x, y, z; do { x = sim::uniform(s, -1, 1); y = sim::uniform(s, -1, 1); z = sim::uniform(s, -1, 1.0001); } while (x * x + y * y + z * z < 0.01); return axisangle(x, y, z, sim::uniform(s, lo, hi)); }
Q neg(const Q& q) { return Q(-q.x(), -q.y(), -q.z(), -q.w()); }
double diff(const Q& a, const Q& b) { double s = 0, t = 0; double u[4] = {a.x(), a.y(), a.z(), a.w()}, v[4] = {b.x(), b.y(), b.z(), b.w()}; for (int i = 0; i < 4; i++) { s += (u[i] - v[i]) * (u[i] - v[i]); t += (u[i] + v[i]) * (u[i] + v[i]); } return sqrt(std::min(s, t)); }
std::string str(const Q& q) { return sim::fmt("(%.6f %.6f %.6f | %.6f)", q.x(), q.y(), q.z(), q.w()); }
// movements of eye and hand between pairs of frames, as they arrive
std::vector<M> arrivals(const Q& x, int n, double maxangle, double noise) {
    std::vector<M> v; Q xi(-x.x(), -x.y(), -x.z(), x.w()); bool lose = sim::wl(2), dup = sim::wl(2), ord = sim::wl(2), sign = sim::wl(2);
    for (int i = 0; i < n; i++) {
        M m; m.a = randrot(sim::WL, 0.2, maxangle); m.b = xi * m.a * x; if (noise > 0) m.b = m.b * randrot(sim::FA, 0, noise);
        if (sign) { if (sim::chance(sim::FA, 1, 3)) m.a = neg(m.a); if (sim::chance(sim::FA, 1, 3)) m.b = neg(m.b); sim::fault("sign-flipped"); }
        if (lose && sim::chance(sim::FA, 1, 4)) { sim::fault("message-lost"); continue; }
        v.push_back(m); if (dup && sim::chance(sim::FA, 1, 5)) { sim::fault("message-duplicated"); v.push_back(m); }
        if (ord && v.size() > 1 && sim::chance(sim::FA, 1, 3)) { std::swap(v[v.size() - 1], v[sim::draw(sim::FA, v.size())]); sim::fault("messages-reordered"); }
    }
    return v;
}
// what the measurements say, by solving the normal equations in extended precision
void solve(const std::vector<M>& v, size_t n, long double* r) {
    long double A[3][4] = {{0}}; for (int i = 0; i < 3; i++) A[i][i] = 1e-6L;
    for (size_t k = 0; k < n; k++) {
        long double sa = v[k].a.w() < 0 ? -1 : 1, sb = v[k].b.w() < 0 ? -1 : 1, q[3] = {v[k].a.x() * sa, v[k].a.y() * sa, v[k].a.z() * sa}, w[3] = {v[k].b.x() * sb, v[k].b.y() * sb, v[k].b.z() * sb}, s[3], d[3]; for (int i = 0; i < 3; i++) { s[i] = q[i] + w[i]; d[i] = w[i] - q[i]; }
        long double h[3][3] = {{0, -s[2], s[1]}, {s[2], 0, -s[0]}, {-s[1], s[0], 0}}; for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) { for (int l = 0; l < 3; l++) A[i][l] += h[j][i] * h[j][l]; A[i][3] += h[j][i] * d[j]; }
    }
    for (int c = 0; c < 3; c++) { int p = c; for (int i = c; i < 3; i++) if (fabsl(A[i][c]) > fabsl(A[p][c])) p = i; for (int j = 0; j < 4; j++) std::swap(A[c][j], A[p][j]); for (int i = 0; i < 3; i++) if (i != c) { long double f = A[i][c] / A[c][c]; for (int j = 0; j < 4; j++) A[i][j] -= f * A[c][j]; } }
    for (int i = 0; i < 3; i++) r[i] = A[i][3] / A[i][i];
}
Q toq(const long double* r) { long double n2 = r[0] * r[0] + r[1] * r[1] + r[2] * r[2], s = 1 / sqrtl(1 + n2); return Q((double)(r[0] * s), (double)(r[1] * s), (double)(r[2] * s), (double)s); }
void unit(const Q& q, const char* what) { double l = sqrt(q.x() * q.x() + q.y() * q.y() + q.z() * q.z() + q.w() * q.w()); SIM_CHECK(fabs(l - 1) < 1e-6, "not-unit", "%s: the result has length %.9g", what, l); }
void linear(const std::vector<M>& v, const Q& x, bool exact) {
    Algorithm::OnlineRotHec* h = new Algorithm::OnlineRotHec; SIM_CHECK(diff(h->computeResult(), Q(0, 0, 0, 1)) < 1e-12, "start", "without measurements the result is %s", str(h->computeResult()).c_str());
    for (size_t i = 0; i < v.size(); i++) {
        h->addMeasurement(v[i].a, v[i].b); Q r = h->computeResult(); unit(r, "online calibration"); sim::Rt q; long double e[3]; solve(v, i + 1, e); Q w = toq(e); double d = diff(r, w);
        SIM_CHECK(d < (i < 4 ? 1e-3 : 1e-4), "other-result", "after %zu measurements the result is %s, the measurements say %s", i + 1, str(r).c_str(), str(w).c_str()); sim::probe("steps-compared");
    }
    Q r = h->computeResult(); double d = r.x() + 2 * r.y() + 3 * r.z(); sim::mix(sim::fnv(&d, 8)); delete h; if (exact && v.size() >= 12) { SIM_CHECK(diff(r, x) < 1e-4, "not-found", "after %zu exact measurements the result is %s instead of %s", v.size(), str(r).c_str(), str(x).c_str()); sim::probe("found"); }
}
// the filter on paper, in extended precision
struct Exact {
    long double x[4], P[4][4];
    Exact() { for (int i = 0; i < 4; i++) { x[i] = i == 3; for (int j = 0; j < 4; j++) P[i][j] = i == j ? 1e2L : 0; } }
    void add(const Q& qa, const Q& qb) {
        long double g = (qa.w() < 0) != (qb.w() < 0) ? -1 : 1, a[4] = {qa.x(), qa.y(), qa.z(), qa.w()}, b[4] = {g * qb.x(), g * qb.y(), g * qb.z(), g * qb.w()};
        long double H[4][4] = {{a[3] - b[3], -a[2] - b[2], a[1] + b[1], a[0] - b[0]}, {a[2] + b[2], a[3] - b[3], -a[0] - b[0], a[1] - b[1]}, {-a[1] - b[1], a[0] + b[0], a[3] - b[3], a[2] - b[2]}, {-a[0] + b[0], -a[1] + b[1], -a[2] + b[2], a[3] - b[3]}};
        long double PH[4][4], S[4][8], K[4][4], N[4][4]; for (int i = 0; i < 4; i++) for (int j = 0; j < 4; j++) { PH[i][j] = 0; for (int k = 0; k < 4; k++) PH[i][j] += P[i][k] * H[j][k]; }
        for (int i = 0; i < 4; i++) for (int j = 0; j < 4; j++) { S[i][j] = i == j ? 1e-2L : 0; S[i][j + 4] = i == j; for (int k = 0; k < 4; k++) S[i][j] += H[i][k] * PH[k][j]; }
        for (int c = 0; c < 4; c++) { int p = c; for (int i = c; i < 4; i++) if (fabsl(S[i][c]) > fabsl(S[p][c])) p = i; for (int j = 0; j < 8; j++) std::swap(S[c][j], S[p][j]); long double d = S[c][c]; for (int j = 0; j < 8; j++) S[c][j] /= d; for (int i = 0; i < 4; i++) if (i != c) { long double f = S[i][c]; for (int j = 0; j < 8; j++) S[i][j] -= f * S[c][j]; } }
        for (int i = 0; i < 4; i++) for (int j = 0; j < 4; j++) { K[i][j] = 0; for (int k = 0; k < 4; k++) K[i][j] += PH[i][k] * S[k][j + 4]; }
        long double y[4], nx[4]; for (int i = 0; i < 4; i++) { y[i] = 0; for (int k = 0; k < 4; k++) y[i] -= H[i][k] * x[k]; } for (int i = 0; i < 4; i++) { nx[i] = x[i]; for (int k = 0; k < 4; k++) nx[i] += K[i][k] * y[k]; }
        for (int i = 0; i < 4; i++) for (int j = 0; j < 4; j++) { N[i][j] = P[i][j]; for (int k = 0; k < 4; k++) N[i][j] -= K[i][k] * PH[j][k]; }
        long double l = 0, J[4][4], T[4][4]; for (int i = 0; i < 4; i++) l += nx[i] * nx[i]; l = sqrtl(l); for (int i = 0; i < 4; i++) for (int j = 0; j < 4; j++) J[i][j] = ((i == j) - nx[i] * nx[j] / (l * l)) / l; for (int i = 0; i < 4; i++) x[i] = nx[i] / l;
        for (int i = 0; i < 4; i++) for (int j = 0; j < 4; j++) { T[i][j] = 0; for (int k = 0; k < 4; k++) T[i][j] += J[i][k] * N[k][j]; } for (int i = 0; i < 4; i++) for (int j = 0; j < 4; j++) { P[i][j] = i == j ? 1e-12L : 0; for (int k = 0; k < 4; k++) P[i][j] += T[i][k] * J[j][k]; }
    }
};
void filter(const std::vector<M>& v, const Q& x, bool exact) {
    Algorithm::RotationHecKalmanFilter* h = new Algorithm::RotationHecKalmanFilter; Exact e;
    for (size_t i = 0; i < v.size(); i++) {
        h->addMeasurement(v[i].a, v[i].b); Q r = h->getResult(); unit(r, "calibration filter"); sim::Rt q; e.add(v[i].a, v[i].b); Q w((double)e.x[0], (double)e.x[1], (double)e.x[2], (double)e.x[3]); double d = diff(r, w);
        SIM_CHECK(d < 1e-4, "other-result", "after %zu measurements the filter says %s instead of %s", i + 1, str(r).c_str(), str(w).c_str());
        const um::Matrix<double, 4, 4>& c = h->getCovariance(); for (int a = 0; a < 4; a++) { SIM_CHECK(c(a, a) >= 0 && c(a, a) < 1e12, "covariance", "variance %d is %g after %zu measurements", a, c(a, a), i + 1); for (int b = 0; b < 4; b++) { SIM_CHECK(fabs(c(a, b) - c(b, a)) <= 1e-9 * (1 + fabs(c(a, b))), "covariance", "not symmetric: %g and %g", c(a, b), c(b, a)); SIM_CHECK(fabsl(c(a, b) - e.P[a][b]) <= 1e-3L * (fabsl(e.P[a][a]) + fabsl(e.P[b][b])) + 1e-6L, "covariance", "entry %d,%d is %g instead of %Lg after %zu measurements", a, b, c(a, b), e.P[a][b], i + 1); } }
        sim::probe("filter-steps");
    }
    Q r = h->getResult(); double d = r.x() + 2 * r.y() + 3 * r.z(); sim::mix(sim::fnv(&d, 8)); delete h; if (exact && v.size() >= 20) { SIM_CHECK(diff(r, x) < 0.02, "not-found", "after %zu exact measurements the filter says %s instead of %s", v.size(), str(r).c_str(), str(x).c_str()); sim::probe("filter-found"); }
}
void once(bool parallel) {
    Q x = randrot(sim::WL, 0, 2.5); double noise = sim::wl(2) ? 0 : sim::uniform(sim::WL, 0, 0.05); int n = sim::wl(3) ? 25 + sim::wl(40) : 1 + sim::wl(12); std::vector<M> v = arrivals(x, n, sim::wl(2) ? 0.8 : 2.9, noise); bool kf = sim::wl(2);
    if (!parallel) sim::sample(sim::fmt("%s, calibration %s, %zu measurements, noise %.3f", kf ? "filter" : "online", str(x).c_str(), v.size(), noise));
    std::vector<M>* p = new std::vector<M>(v); bool exact = noise == 0; if (parallel) sim::spawn([p, x, kf, exact]() { if (kf) filter(*p, x, exact); else linear(*p, x, exact); }, "calibration"); else { if (kf) filter(v, x, exact); else linear(v, x, exact); }
}
}
SCENARIO(calibrate, 3) { once(false); sim::nontrivial(); }
SCENARIO(parallel, 1) { sim::sched_random(); int n = 2 + sim::wl(2); for (int i = 0; i < n; i++) once(true); sim::join_all(); sim::nontrivial(); }

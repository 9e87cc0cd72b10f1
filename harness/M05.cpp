// M05: Brownian velocity.  The normals are replaced by chosen values; which normal enters where is found by probing.
#define VP_DRAG_STUB
#include "vp.h"
#include <cmath>
#include <Eigen/Dense>
// Cholesky factor by its defining property: L L^T = N, positive diagonal (or zero for N = 0)
namespace Eigen {
static int vp_llt(Matrix3d &m) {
    bool zero = true;
    for (int i = 0; i < 3; i++) for (int j = 0; j <= i; j++) zero &= vp_identical(m(i, j), 0);
    if (zero) return 0;
    if (vp_identical(m(1, 0), 0) && vp_identical(m(2, 0), 0) && vp_identical(m(2, 1), 0) && vp_is_symbolic()) {
        for (int i = 0; i < 3; i++) { vp_assume(m(i, i) > 0); m(i, i) = ::sqrt(m(i, i)); }
        return -1;
    }
    if (!vp_is_symbolic()) return internal::llt_inplace<double, Lower>::unblocked(m);
    // the same matrix gets the same factor
    struct Known { double m[3][3], l[3][3]; };
    static Known *all[4][4]; static int count[4];
    Known **known = all[omp_get_thread_num()]; int &nknown = count[omp_get_thread_num()];
    for (int n = 0; n < nknown; n++) {
        bool same = true;
        for (int i = 0; i < 3; i++) for (int j = 0; j <= i; j++) same &= vp_identical(m(i, j), known[n]->m[i][j]);
        if (!same) continue;
        for (int i = 0; i < 3; i++) for (int j = 0; j <= i; j++) m(i, j) = known[n]->l[i][j];
        return -1;
    }
    double l[3][3] = {};
    for (int i = 0; i < 3; i++) for (int j = 0; j <= i; j++) l[i][j] = vp_double("cholesky");
    vp_assume((l[0][0] > 0) & (l[1][1] > 0) & (l[2][2] > 0));
    for (int i = 0; i < 3; i++) for (int j = 0; j <= i; j++) {
        double c = m(i, j);
        for (int k = 0; k < j; k++) c -= l[i][k] * l[j][k];
        if (i == j) vp_assume_eq(l[i][i] * l[i][i], c); else vp_assume_product(l[i][j], l[j][j], c);
    }
    if (nknown < 4) {
        Known *k = known[nknown++] = new Known;
        for (int i = 0; i < 3; i++) for (int j = 0; j <= i; j++) { k->m[i][j] = m(i, j); k->l[i][j] = l[i][j]; }
    }
    for (int i = 0; i < 3; i++) for (int j = 0; j <= i; j++) m(i, j) = l[i][j];
    return -1;
}
typedef Matrix<double, 3, 3, DontAlign> Vp3;
#define VP_LLT(F, A) template <> template <> inline LLT<F, Lower> &LLT<F, Lower>::compute(const EigenBase<A> &a) { \
    Matrix3d m = a.derived(); m_l1_norm = 1; m_isInitialized = true; \
    m_info = vp_llt(m) == -1 ? Success : NumericalIssue; m_matrix = m; return *this; }
VP_LLT(Matrix3d, Matrix3d) VP_LLT(Matrix3d, Vp3) VP_LLT(Vp3, Matrix3d) VP_LLT(Vp3, Vp3)
}
#include "sys.hpp"
static double W[2][24]; // normals of each thread in drawing order
static int drawn[4];
static double normal(const VpDraw &d) {
    vp_assert(d.kind == 1, "Brownian noise is normal");
    int t = omp_get_thread_num(), k = drawn[t]++;
    return k < 24 ? W[t][k] : 0;
}
struct Out { double v[6]; };
static Out get(SylinderSystem &s, int i);
static Out run(SylinderSystem &s, int i = 0) {
    for (int t = 0; t < 4; t++) drawn[t] = 0;
    s.calcVelocityBrown();
    return get(s, i);
}
static Out get(SylinderSystem &s, int i) {
    Out o;
    auto v = s.getVelocityBrown()->getLocalView<Kokkos::HostSpace>();
    auto &p = s.sylinderContainer[i];
    vp_assert(v.dimension_0() == (size_t)6 * s.sylinderContainer.getNumberOfParticleLocal(), "one velocity per degree of freedom");
    for (int k = 0; k < 3; k++) {
        o.v[k] = p.velBrown[k]; o.v[3 + k] = p.omegaBrown[k];
        vp_assert_eq(v(6 * i + k, 0), p.velBrown[k], "the particle and the vector agree");
        vp_assert_eq(v(6 * i + 3 + k, 0), p.omegaBrown[k], "the particle and the vector agree");
    }
    return o;
}
static Out minus(const Out &a, const Out &b) { Out o; for (int k = 0; k < 6; k++) o.v[k] = a.v[k] - b.v[k]; return o; }
static void any_normals(double *w, int n, double lo, double hi) { // each triple: a length times a direction
    for (int g = 0; g < n; g += 3) {
        double l = vp_double("length"), n = 0;
        vp_assume((l > lo) & (l < hi));
        for (int k = 0; k < 3; k++) { w[g + k] = vp_double("direction"); n += w[g + k] * w[g + k]; }
        vp_assume_eq(n, 1);
        for (int k = 0; k < 3; k++) w[g + k] *= l;
    }
}
static void zero() { for (auto &w : W) for (double &x : w) x = 0; }
static SylinderSystem *system1(Sylinder y, bool iso, int n = 1, int threads = 1) {
    std::vector<Sylinder> all(n, y);
    for (int i = 0; i < n; i++) all[i].gid = i;
    auto *s = make_system(all);
    s->runConfig.viscosity = vp_double("viscosity"); s->runConfig.dt = vp_double("dt"); s->runConfig.KBT = vp_double("KBT");
    vp_assume((s->runConfig.viscosity > 0) & (s->runConfig.dt > 0) & (s->runConfig.KBT > 0));
    vp_drag.clear();
    double al = vp_double("mobPara"), be = iso ? al : vp_double("mobPerp"), ro = vp_double("mobRot");
    vp_assume((al > 0) & (be > 0) & (ro > 0));
    for (int i = 0; i < n; i++) vp_drag.push_back({s->runConfig.viscosity, al, be, ro});
    s->rngPoolPtr = std::make_shared<TRngPool>(1);
    s->updateSylinderMap();
    vp_draw_hook = normal;
    return s;
}
static void cov(bool iso) {
    Sylinder y = any_sylinder(0);
    auto *s = system1(y, iso);
    double A[6][12];
    for (int k = 0; k < 12; k++) {
        zero(); W[0][k] = 1;
        Out o = run(*s);
        for (int r = 0; r < 6; r++) A[r][k] = o.v[r];
    }
    const double f = 2 * s->runConfig.KBT / s->runConfig.dt;
    Evec3 q = axis(y);
    for (int r = 0; r < 6; r++) for (int u = r; u < 6; u++) {
        double C = 0, want = 0;
        for (int k = 0; k < 12; k++) C += A[r][k] * A[u][k];
        if (u < 3) want = f * (q[r] * q[u] * vp_drag[0].para + ((r == u) - q[r] * q[u]) * vp_drag[0].perp);
        if (r >= 3 && u == r) want = f * vp_drag[0].rot;
        vp_assert_eq(C, want, "covariance of the noise is 2 kT/dt times the mobility");
    }
    vp_reach("covariance");
}
VP_ENTRY(m05_cov_sphere) { cov(true); }
VP_ENTRY(m05_cov_rod) { cov(false); }
VP_ENTRY(m05_immovable) {
    Sylinder y = any_sylinder(0); y.isImmovable = true;
    auto *s = system1(y, false);
    any_normals(W[0], 12, 1e-5, 1e300);
    Out o = run(*s);
    for (double x : o.v) vp_assert_eq(x, 0, "immovable particles get no Brownian velocity");
    vp_reach("immovable");
}
// what is not linear in the normals changes sign with three of them, so that its mean is zero
static void rest(bool iso) {
    Sylinder y = any_sylinder(0);
    auto *s = system1(y, iso);
    double w[12];
    Out A[12];
    bool lin[12];
    int other[12], n = 0;
    for (int k = 0; k < 12; k++) {
        zero(); W[0][k] = 1; A[k] = run(*s); lin[k] = false;
        for (double x : A[k].v) lin[k] |= !vp_identical(x, 0);
        if (!lin[k]) other[n++] = k;
    }
    const bool tiny = vp_choose("tiny", 0, 1);
    if (tiny) any_normals(w, 12, 0, 1e-8); else any_normals(w, 12, 1e-5, 1e300);
    auto remainder = [&](int flip) { // bits of the flipped ones among the others
        for (int k = 0; k < 12; k++) W[0][k] = w[k];
        for (int k = 0; k < n; k++) if (flip >> k & 1) W[0][other[k]] = -w[other[k]];
        Out o = run(*s);
        for (int k = 0; k < 12; k++) if (lin[k]) for (int r = 0; r < 6; r++) o.v[r] = o.v[r] - w[k] * A[k].v[r];
        return o;
    };
    Out r0 = remainder(0);
    vp_assert(n == 6, "six normals drive the two noises");
    static const int sets[] = {0, 56, 7, 11, 13, 14, 19, 21, 22, 25, 26, 28, 35, 37, 38, 41, 42, 44, 49, 50, 52};
    Out r1 = r0;
    for (int t : sets) {
        r1 = t ? remainder(t) : r0;
        bool odd = true;
        for (int r = 0; r < 6; r++) odd &= vp_identical(r1.v[r], -r0.v[r]);
        if (odd) { vp_reach("found"); break; }
        if (t == 56 && vp_is_symbolic()) break;
    }
    for (int r = 0; r < 6; r++) vp_assert_eq(r1.v[r], -r0.v[r], "the rest has zero mean");
    for (int r = 3; r < 6; r++) vp_assert_eq(r0.v[r], 0, "rotation is linear");
    vp_reach("rest");
}
VP_ENTRY(m05_rest_rod) { rest(false); }
VP_ENTRY(m05_rest_sphere) { rest(true); }
// two particles: each gets its own twelve normals from the stream of the thread that handles it
static void two(int threads) {
    omp_set_num_threads(threads);
    Sylinder y = any_sylinder(0);
    auto *s = system1(y, true, 2, threads), *one = system1(y, true);
    s->runConfig.viscosity = one->runConfig.viscosity; s->runConfig.dt = one->runConfig.dt; s->runConfig.KBT = one->runConfig.KBT;
    s->rngPoolPtr = std::make_shared<TRngPool>(1); // for the number of threads set above
    for (auto &w : W) any_normals(w, 24, 1e-5, 1e300);
    vp_drag.resize(1); vp_drag.push_back(vp_drag[0]);
    for (int k = 0; k < 4; k++) drawn[k] = 0;
    s->calcVelocityBrown();
    Out v[2] = {get(*s, 0), get(*s, 1)};
    double w[2][24];
    for (int t = 0; t < 2; t++) for (int k = 0; k < 24; k++) w[t][k] = W[t][k];
    int from[2] = {-1, -1};
    for (int t = 0; t < threads; t++) for (int o = 0; o < 24; o += 12) {
        for (int k = 0; k < 12; k++) W[0][k] = w[t][o + k];
        for (int k = 0; k < 4; k++) drawn[k] = 0;
        Out r = run(*one);
        for (int i = 0; i < 2; i++) {
            bool same = true;
            for (int k = 0; k < 6; k++) same &= vp_identical(r.v[k], v[i].v[k]);
            if (same && from[i] < 0 && from[1 - i] != 2 * t + o / 12) from[i] = 2 * t + o / 12;
        }
    }
    vp_assert((from[0] >= 0) & (from[1] >= 0) & (from[0] != from[1]), "every particle has its own noise");
    vp_reach("two");
}
VP_ENTRY(m05_two) { two(1); }
VP_ENTRY(m05_threads) { two(2); }

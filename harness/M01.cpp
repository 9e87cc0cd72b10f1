// M01: mobility matrix
#include "sys.hpp"
static void check(SylinderSystem &s, const std::vector<Sylinder> &v, int first) {
    s.updateSylinderMap();
    s.calcMobOperator();
    auto A = s.getMobMatrix();
    const int n = v.size();
    vp_assert(A->getRowMap()->getNodeNumElements() == (size_t)6 * n, "six rows per particle");
    vp_assert(A->getDomainMap()->isSameAs(*s.sylinderMobilityMapRcp) && A->getRangeMap()->isSameAs(*s.sylinderMobilityMapRcp), "acts on the particles' degrees of freedom");
    vp_assert(s.getMobOperator().get() == A.get(), "the operator is the matrix");
    for (int i = 0; i < n; i++) {
        double para, perp, rot;
        v[i].calcDragCoeff(s.runConfig.viscosity, para, perp, rot);
        const bool im = v[i].isImmovable;
        Evec3 q = axis(v[i]);
        double M[6][6] = {};
        for (int r = 0; r < 6; r++) {
            int row = 6 * i + r;
            vp_assert_eqi(A->getRowMap()->getMyGlobalIndices()[row], 6 * first + row, "rows follow storage order");
            for (size_t k = A->vp_ptr[row]; k < A->vp_ptr[row + 1]; k++) {
                int col = A->getColMap()->getMyGlobalIndices()[A->vp_ind[k]] - 6 * (first + i);
                vp_assert(col >= 0 && col < 6, "only the particle's own force acts");
                M[r][col] += A->vp_val[k];
            }
        }
        for (int a = 0; a < 6; a++) for (int b = 0; b < 6; b++) {
            double want = 0;
            if (!im && a < 3 && b < 3) want = q[a] * q[b] / para + ((a == b) - q[a] * q[b]) / perp;
            if (!im && a >= 3 && a == b) want = 1 / rot;
            vp_assert_eq(M[a][b], want, "mobility is the inverse drag");
        }
    }
    vp_reach("matrix");
}
static std::vector<Sylinder> some(int n, int gid0) {
    std::vector<Sylinder> v;
    for (int i = 0; i < n; i++) { Sylinder s = any_sylinder(gid0 + i); s.isImmovable = vp_bool("immovable"); v.push_back(s); }
    return v;
}
static void conf(SylinderSystem *s, double mu) { s->runConfig.viscosity = mu; }
static double mu() { double m = vp_double("viscosity"); vp_assume(m > 0); return m; }
VP_ENTRY(m01_one) { int n = vp_choose("particles", 0, 1); auto v = some(n, 0); auto *s = make_system(v); conf(s, mu()); check(*s, v, 0); }
VP_ENTRY(m01_two) { auto v = some(2, 3); auto *s = make_system(v); conf(s, mu()); check(*s, v, 0); }
VP_ENTRY(m01_threads) { auto v = some(2, 3); auto *s = make_system(v); conf(s, mu()); vp_threads(2); check(*s, v, 0); }
VP_ENTRY(m01_ranks) {
    std::vector<Sylinder> v[2] = {some(1, 0), some(1, 1)};
    double m = mu();
    SylinderSystem *s[2] = {make_system(v[0]), make_system(v[1])};
    vp_run_ranks(2, [&](int me) { conf(s[me], m); check(*s[me], v[me], me); });
    vp_reach("ranks");
}

// C01: constraint matrix and vectors
#include "con.hpp"
struct R { std::vector<ConstraintBlock> blk; };
// expected entry of a block's row in the given global column
static double entry(const ConstraintBlock &b, int col) {
    int p = col / 6, k = col % 6;
    double v = 0;
    for (int s = 0; s < 2; s++) {
        if (s == 1 && b.oneSide) continue;
        if ((s ? b.globalIndexJ : b.globalIndexI) != p) continue;
        const double *n = s ? b.normJ : b.normI, *x = s ? b.posJ : b.posI;
        v += k == 0 ? n[0] : k == 1 ? n[1] : k == 2 ? n[2] : k == 3 ? x[1] * n[2] - x[2] * n[1] : k == 4 ? x[2] * n[0] - x[0] * n[2] : x[0] * n[1] - x[1] * n[0];
    }
    return v;
}
static void check(ConstraintCollector &c, int nloc, int np, int row0, int rows) {
    auto blk = flat(c);
    Teuchos::RCP<const TCOMM> comm = getMPIWORLDTCOMM();
    Teuchos::RCP<const TMAP> mob = getTMAPFromLocalSize(6 * nloc, comm);
    Teuchos::RCP<TCMAT> D; Teuchos::RCP<TV> delta0, invK, bi, gam;
    c.buildConstraintMatrixVector(mob, D, delta0, invK, bi, gam);
    vp_assert(D->getRowMap()->getNodeNumElements() == blk.size() && D->getRowMap()->getGlobalNumElements() == (size_t)rows, "one row per block");
    vp_assert(D->getDomainMap()->isSameAs(*mob), "columns are the particles' degrees of freedom");
    vp_assert(D->getRangeMap()->isSameAs(*D->getRowMap()) && delta0->getMap()->isSameAs(*D->getRowMap()) && invK->getMap()->isSameAs(*D->getRowMap()) && bi->getMap()->isSameAs(*D->getRowMap()) && gam->getMap()->isSameAs(*D->getRowMap()), "vectors and rows share one map");
    auto cm = D->getColMap();
    for (size_t i = 0; i < blk.size(); i++) {
        const auto &b = blk[i];
        vp_assert_eqi(D->getRowMap()->getMyGlobalIndices()[i], row0 + (int)i, "rows follow queue order");
        std::vector<double> got(6 * np, 0.0); std::vector<int> used(6 * np, 0);
        for (size_t k = D->vp_ptr[i]; k < D->vp_ptr[i + 1]; k++) { int col = cm->getMyGlobalIndices()[D->vp_ind[k]]; vp_assert(col >= 0 && col < 6 * np, "column of an existing particle"); got[col] += D->vp_val[k]; used[col]++; }
        for (int col = 0; col < 6 * np; col++) vp_assert_eq(got[col], entry(b, col), "matrix entry is the block's generalised force");
        vp_assert_eqi(D->vp_ptr[i + 1] - D->vp_ptr[i], b.oneSide ? 6 : 12, "six entries per involved particle");
        auto v = [&](Teuchos::RCP<TV> &x) { return x->getLocalView<Kokkos::HostSpace>()(i, 0); };
        vp_assert_eq(v(delta0), b.delta0, "separation"); vp_assert_eq(v(gam), b.gamma, "initial multiplier");
        vp_assert_eq(v(bi), b.bilateral ? 1 : 0, "bilateral flag");
        if (b.bilateral && b.kappa > 0) { vp_assert_eq(v(invK) * b.kappa, 1, "inverse stiffness"); }
        else vp_assert_eq(v(invK), 0, "no compliance for unilateral or stiffness-free blocks");
    }
    vp_reach("built");
}
static void one(int nq, int mx, int tot, int np, int threads) {
    if (tot > 1) vp_fixed = 0;
    ConstraintCollector c; any_pool(c, nq, mx, tot, np); int n = flat(c).size(); vp_threads(threads); check(c, np, np, 0, n);
}
VP_ENTRY(c01_queues) { one(3, 2, VP_TOT, 2, 1); }
VP_ENTRY(c01_particles) { one(1, 1, 1, 4, 1); }
VP_ENTRY(c01_threads) { one(2, 1, 2, 2, 2); }
static void ranks(int nr, int nloc0, int nloc1, int tot) {
    ConstraintCollector c[2] = {ConstraintCollector(), ConstraintCollector()};
    int np = nloc0 + nloc1, nl[2] = {nloc0, nloc1}, off[3] = {0, 0, 0};
    for (int r = 0; r < 2; r++) { any_pool(c[r], nloc0 && r == 0 ? 2 : 1, 1, tot, np); off[r + 1] = off[r] + flat(c[r]).size(); }
    vp_run_ranks(2, [&](int me) { check(c[me], nl[me], np, off[me], off[2]); });
    vp_reach("ranks");
}
VP_ENTRY(c01_ranks) { ranks(2, 1, 1, 1); }
VP_ENTRY(c01_ranks_empty) { ranks(2, 0, 2, 1); }

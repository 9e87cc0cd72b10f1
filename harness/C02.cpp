// C02: constraint operator
#include "con.hpp"
#define private public
#include "Constraint/ConstraintOperator.cpp"
#undef private
#include "mat.hpp"
// nm mobility unknowns and nc constraints per rank, nr ranks, cols columns
struct W { int nr, nm, nc, cols; double D[4][4], M[4][4], k[4], X[2][4], Y[2][4], X2[4], al, be; };
static void fill(W &w, int nr, int nm, int nc, int cols) {
    w.nr = nr; w.nm = nm; w.nc = nc; w.cols = cols;
    for (int i = 0; i < nr * nc; i++) { for (int j = 0; j < nr * nm; j++) w.D[i][j] = vp_double("D"); w.k[i] = vp_double("invK"); w.X2[i] = vp_double("X2"); for (int c = 0; c < cols; c++) { w.X[c][i] = vp_double("X"); w.Y[c][i] = vp_double("Y"); } }
    for (int i = 0; i < nr * nm; i++) for (int j = 0; j < nr * nm; j++) w.M[i][j] = vp_double("M");
    w.al = vp_double("alpha"); w.be = vp_double("beta");
}
static double force(const W &w, const double *x, int j) { double s = 0; for (int i = 0; i < w.nr * w.nc; i++) s += w.D[i][j] * x[i]; return s; }
static double vel(const W &w, const double *x, int j) { double s = 0; for (int i = 0; i < w.nr * w.nm; i++) s += w.M[j][i] * force(w, x, i); return s; }
static double ref(const W &w, const double *x, int i) { double s = w.k[i] * x[i]; for (int j = 0; j < w.nr * w.nm; j++) s += w.D[i][j] * vel(w, x, j); return s; }
static void rank(const W &w, int me) {
    Teuchos::RCP<const TCOMM> comm = getMPIWORLDTCOMM();
    Teuchos::RCP<const TMAP> mob = getTMAPFromLocalSize(w.nm, comm), gam = getTMAPFromLocalSize(w.nc, comm);
    Teuchos::RCP<TCMAT> Dt = dense_matrix(gam, mob, [&](int i, int j) { return w.D[i][j]; }), M = dense_matrix(mob, mob, [&](int i, int j) { return w.M[i][j]; });
    Teuchos::RCP<TOP> Mop = M;
    Teuchos::RCP<TV> k(new TV(gam, true));
    for (int i = 0; i < w.nc; i++) k->replaceLocalValue(i, w.k[me * w.nc + i]);
    ConstraintOperator op(Mop, Dt, k);
    vp_assert(op.getDomainMap()->isSameAs(*gam) && op.getRangeMap()->isSameAs(*gam), "domain and range are the multipliers");
    TMV X(gam, w.cols, true), Y(gam, w.cols, true);
    auto x = X.getLocalView<Kokkos::HostSpace>(), y = Y.getLocalView<Kokkos::HostSpace>();
    for (int c = 0; c < w.cols; c++) for (int i = 0; i < w.nc; i++) { x(i, c) = w.X[c][me * w.nc + i]; y(i, c) = w.Y[c][me * w.nc + i]; }
    op.apply(X, Y, Teuchos::NO_TRANS, w.al, w.be);
    for (int c = 0; c < w.cols; c++)
        for (int i = 0; i < w.nc; i++) {
            vp_assert_eq(y(i, c), w.al * ref(w, w.X[c], me * w.nc + i) + w.be * w.Y[c][me * w.nc + i], "alpha*(D^T M D + K^-1) X + beta*Y");
            vp_assert_eq(x(i, c), w.X[c][me * w.nc + i], "the input is not changed");
        }
    auto f = op.getForce()->getLocalView<Kokkos::HostSpace>(), v = op.getVel()->getLocalView<Kokkos::HostSpace>();
    for (int j = 0; j < w.nm; j++) { vp_assert_eq(f(j, 0), force(w, w.X[w.cols - 1], me * w.nm + j), "force of the last input"); vp_assert_eq(v(j, 0), vel(w, w.X[w.cols - 1], me * w.nm + j), "velocity of the last input"); }
    // defaults: overwrites the output
    TV x2(gam, true), y2(gam, true);
    y2.putScalar(3);
    for (int i = 0; i < w.nc; i++) x2.replaceLocalValue(i, w.X2[me * w.nc + i]);
    op.apply(x2, y2);
    auto z = y2.getLocalView<Kokkos::HostSpace>();
    for (int i = 0; i < w.nc; i++) vp_assert_eq(z(i, 0), ref(w, w.X2, me * w.nc + i), "default call is the product");
    for (int j = 0; j < w.nm; j++) vp_assert_eq(f(j, 0), force(w, w.X2, me * w.nm + j), "force of the last input");
}
VP_ENTRY(c02_one) { W w; fill(w, 1, VP_NM, VP_NC, 1); rank(w, 0); vp_reach("one"); }
VP_ENTRY(c02_columns) { W w; fill(w, 1, 2, 1, 2); rank(w, 0); vp_reach("columns"); }
VP_ENTRY(c02_threads) { W w; fill(w, 1, 1, 2, 1); vp_threads(2); rank(w, 0); vp_reach("threads"); }
VP_ENTRY(c02_ranks) { W w; fill(w, 2, 1, 1, 1); vp_run_ranks(2, [&](int me) { rank(w, me); }); vp_reach("ranks"); }
VP_ENTRY(c02_empty) { W w; fill(w, 1, 2, 0, 1); rank(w, 0); vp_reach("empty"); }

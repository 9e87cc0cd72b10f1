// C03: bound-constrained quadratic program solvers
#include "con.hpp"
#include "Constraint/BCQPSolver.cpp"
#include "mat.hpp"
#include "anyop.hpp"
struct P { int n; double A[3][3], b[3], x0[3], lb[3], ub[3], tol; };
static void any(P &p, int n, bool mat) {
    p.n = n;
    if (mat) for (int i = 0; i < n; i++) for (int j = 0; j <= i; j++) p.A[i][j] = p.A[j][i] = num("A");
    for (int i = 0; i < n; i++) { p.b[i] = num("b"); p.x0[i] = num("x0"); p.lb[i] = num("lb"); p.ub[i] = num("ub"); vp_assume(p.lb[i] <= p.ub[i]); }
    p.tol = vp_double("tol"); vp_assume((p.tol > 0) & (p.tol < BIG));
}
static void solve(const P &p, int which, int iteMax, bool bounds, bool mat, int limit = 100) {
    auto b = vec(p.b, p.n), x = vec(p.x0, p.n);
    Teuchos::RCP<AnyOp> anyop(new AnyOp(b->getMap(), limit));
    Teuchos::RCP<const TOP> Aop;
    if (mat) { Teuchos::RCP<TCMAT> A = dense_matrix(b->getMap(), b->getMap(), [&](int i, int j) { return p.A[i][j]; }); Aop = A; }
    else Aop = anyop;
    Teuchos::RCP<const TV> bc = b;
    BCQPSolver s(Aop, bc);
    if (bounds) { auto l = vec(p.lb, p.n), u = vec(p.ub, p.n); s.setLowerBound(l); s.setUpperBound(u); }
    s.prepareSolver();
    IteHistory h;
    int ret = which ? s.solveAPGD(x, p.tol, iteMax, h) : s.solveBBPGD(x, p.tol, iteMax, h);
    auto v = x->getLocalView<Kokkos::HostSpace>();
    vp_assert_eqi(v.dimension_0(), p.n, "solution length");
    vp_assert(!h.empty() && h.size() <= (size_t)iteMax + 1, "at most one record per iteration");
    const double eps = std::numeric_limits<double>::epsilon() * 100;
    std::vector<double> sol(p.n), g(p.n);
    for (int i = 0; i < p.n; i++) {
        sol[i] = v(i, 0);
        vp_assert(!vp_is_nan(sol[i]), "solution is a number");
        if (bounds) { vp_assert_le(p.lb[i], sol[i], "solution is not below its lower bound"); vp_assert_le(sol[i], p.ub[i], "solution is not above its upper bound"); }
    }
    if (mat) for (int i = 0; i < p.n; i++) { g[i] = p.b[i]; for (int j = 0; j < p.n; j++) g[i] += p.A[i][j] * sol[j]; }
    else { anyop->limit = 1000; g = anyop->eval(sol); for (int i = 0; i < p.n; i++) g[i] += p.b[i]; }
    vp_reach(iteMax == 0 ? "none" : "iterated");
    // residual reported for the returned vector: the last one (BBPGD) or the smallest one (APGD returns its best iterate)
    if (which != 0 && h.size() == 1) return;
    double rep = h.back()[4];
    if (which) for (size_t k = 1; k + 1 < h.size(); k++) rep = h[k][4] < rep ? h[k][4] : rep;
    double r2 = 0;
    for (int i = 0; i < p.n; i++) {
        double q = bounds && sol[i] <= p.lb[i] + eps ? (g[i] < 0 ? g[i] : 0) : bounds && sol[i] >= p.ub[i] - eps ? (g[i] > 0 ? g[i] : 0) : g[i];
        r2 += q * q;
    }
    vp_assert(!(rep < 0), "residual is not negative");
    vp_assert_eq(rep * rep, r2, "reported residual is that of the returned vector");
    if (ret == 0 && h.size() <= (size_t)iteMax) { vp_assert_lt(rep, p.tol, "converged: residual below the tolerance"); vp_reach("converged"); }
}
VP_ENTRY(c03_bb1) { P p; any(p, 1, true); vp_assume(p.A[0][0] > 0); solve(p, 0, vp_choose("iteMax", 0, 1), true, true); }
VP_ENTRY(c03_bb2) { P p; any(p, 2, true); solve(p, 0, vp_choose("iteMax", 0, 1), true, true); }
VP_ENTRY(c03_bbany) { P p; any(p, 1, false); solve(p, 0, vp_choose("iteMax", 0, VP_IT), true, false); }
VP_ENTRY(c03_bbany2) { P p; any(p, 2, false); solve(p, 0, vp_choose("iteMax", 0, VP_IT2), true, false); }
VP_ENTRY(c03_bbfree) { P p; any(p, 1, true); vp_assume(p.A[0][0] > 1e-6); solve(p, 0, vp_choose("iteMax", 0, 1), false, true); }
VP_ENTRY(c03_ap1) { P p; any(p, 1, true); vp_assume(p.A[0][0] > 0); solve(p, 1, vp_choose("iteMax", 0, 1), true, true); }
VP_ENTRY(c03_apfix) { P p; any(p, 1, false); p.A[0][0] = 2; solve(p, 1, vp_choose("iteMax", 0, VP_IT), true, true); }
VP_ENTRY(c03_apones) { P p; any(p, 1, false); p.A[0][0] = vp_choose("A", 0, 3); p.x0[0] = 1; p.ub[0] = BIG; p.lb[0] = 0; solve(p, 1, vp_choose("iteMax", 0, 1), true, true); }
VP_ENTRY(c03_ap2) { P p; any(p, 2, false); bool d = vp_choose("diag", 0, 1); p.A[0][0] = d ? 2 : 3; p.A[1][1] = 6; p.A[0][1] = p.A[1][0] = d ? 0 : 4; p.lb[0] = p.lb[1] = -2; p.ub[0] = p.ub[1] = 1; p.x0[0] = 0; p.x0[1] = 1; solve(p, 1, vp_choose("iteMax", 0, 1), true, true); }
// two steps in a fixed interval: the residual may rise again
VP_ENTRY(c03_aprise) { P p; any(p, 1, false); p.lb[0] = -1; p.ub[0] = 1; p.x0[0] = 0; p.tol = 1e-3; solve(p, 1, 2, true, false, 5); }
VP_ENTRY(c03_apany) { P p; any(p, 1, false); vp_assume((p.lb[0] <= 0) & (p.ub[0] >= 0)); p.x0[0] = 0; solve(p, 1, vp_choose("iteMax", 0, VP_ITA), true, false, VP_LIM); }
// floating point: an initial guess inside or on the bounds is accepted whatever the magnitude of the bounds
VP_ENTRY(c03_fp) {
    P p; p.n = 1; p.A[0][0] = 0; p.b[0] = vp_choose("b", -1, 1); p.tol = 1e-5;
    p.lb[0] = vp_double("lb"); p.ub[0] = vp_double("ub"); p.x0[0] = vp_double("x0");
    vp_assume((p.lb[0] >= -BIG) & (p.ub[0] <= BIG) & (p.lb[0] <= p.ub[0]) & (p.lb[0] <= p.x0[0]) & (p.x0[0] <= p.ub[0]));
    auto b = vec(p.b, 1), x = vec(p.x0, 1), l = vec(p.lb, 1), u = vec(p.ub, 1);
    Teuchos::RCP<TCMAT> A = dense_matrix(b->getMap(), b->getMap(), [&](int i, int j) { return 0.0; });
    Teuchos::RCP<const TOP> Aop = A; Teuchos::RCP<const TV> bc = b;
    BCQPSolver s(Aop, bc);
    s.setLowerBound(l); s.setUpperBound(u); s.prepareSolver();
    IteHistory h;
    s.solveBBPGD(x, p.tol, 0, h);
    auto v = x->getLocalView<Kokkos::HostSpace>();
    vp_assert(v(0, 0) == p.x0[0], "feasible guess kept");
    vp_assert(h.size() == 1, "one record");
    vp_reach("fp");
}

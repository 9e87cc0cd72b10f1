// C04: linear complementarity solvers
#include "con.hpp"
#include "nocout.hpp"
#define cout vp_cout
#include "Collision/CPSolver.cpp"
#include "mat.hpp"
#include "anyop.hpp"
struct P { int n; double A[3][3], b[3], x0[3], tol; };
static void any(P &p, int n, bool mat) {
    p.n = n;
    if (mat) for (int i = 0; i < n; i++) for (int j = 0; j <= i; j++) p.A[i][j] = p.A[j][i] = num("A");
    for (int i = 0; i < n; i++) { p.b[i] = num("b"); p.x0[i] = num("x0"); }
    p.tol = vp_double("tol"); vp_assume((p.tol > 0) & (p.tol < BIG));
}
enum { BB, AP, MM };
static void solve(const P &p, int which, int iteMax, bool mat, int limit = 100) {
    auto b = vec(p.b, p.n), x = vec(p.x0, p.n);
    Teuchos::RCP<AnyOp> anyop(new AnyOp(b->getMap(), limit));
    Teuchos::RCP<const TOP> Aop;
    if (mat) anyop->A = p.A;
    Aop = anyop;
    Teuchos::RCP<const TV> bc = b;
    CPSolver s(Aop, bc);
    IteHistory h;
    int ret = which == BB ? s.LCP_BBPGD(x, p.tol, iteMax, h) : which == AP ? s.LCP_APGD(x, p.tol, iteMax, h) : s.LCP_mmNewton(x, p.tol, iteMax, h);
    if (ret != 0) { vp_reach("failure reported"); return; }
    auto v = x->getLocalView<Kokkos::HostSpace>();
    vp_assert_eqi(v.dimension_0(), p.n, "solution length");
    vp_assert(h.size() <= (size_t)iteMax + 1, "at most one record per iteration");
    std::vector<double> sol(p.n), g(p.n);
    for (int i = 0; i < p.n; i++) {
        sol[i] = v(i, 0);
        vp_assert(!vp_is_nan(sol[i]), "solution is a number");
        if (which != MM) vp_assert_le(0, sol[i], "solution is not negative");
    }
    if (mat) for (int i = 0; i < p.n; i++) { g[i] = p.b[i]; for (int j = 0; j < p.n; j++) g[i] += p.A[i][j] * sol[j]; }
    else { anyop->limit = 1000; g = anyop->eval(sol); for (int i = 0; i < p.n; i++) g[i] += p.b[i]; }
    vp_reach(iteMax == 0 ? "none" : "iterated");
    double r2 = 0;
    for (int i = 0; i < p.n; i++) { double q = g[i] < sol[i] ? g[i] : sol[i]; r2 += q * q; }
    if (which == MM) {
        if (h.size() >= (size_t)iteMax) return;
        double rep = h.back()[4];
        vp_assert_eq(rep * rep, r2, "stopped early: reported residual is that of the returned vector");
        vp_reach("converged");
        return;
    }
    if (which == AP && h.size() == 1) return;
    double rep = h.back()[4];
    if (which == AP) for (size_t k = 1; k + 1 < h.size(); k++) rep = h[k][4] < rep ? h[k][4] : rep;
    vp_assert(!(rep < 0), "residual is not negative");
    vp_assert_eq(rep * rep, r2, "reported residual is that of the returned vector");
    if (h.size() <= (size_t)iteMax) { vp_assert_lt(rep, p.tol, "stopped early: residual below the tolerance"); vp_reach("converged"); }
}
VP_ENTRY(c04_bb1) { P p; any(p, 1, true); vp_assume(p.A[0][0] > 0); solve(p, BB, vp_choose("iteMax", 0, 1), true); }
VP_ENTRY(c04_bbany) { P p; any(p, 1, false); solve(p, BB, vp_choose("iteMax", 0, VP_ITB), false); }
VP_ENTRY(c04_bbfix) { P p; any(p, 1, false); p.A[0][0] = 2; solve(p, BB, vp_choose("iteMax", 0, VP_IT), true); }
VP_ENTRY(c04_bbany2) { P p; any(p, 2, false); solve(p, BB, vp_choose("iteMax", 0, 1), false); }
VP_ENTRY(c04_ap1) { P p; any(p, 1, true); vp_assume(p.A[0][0] > 0); solve(p, AP, vp_choose("iteMax", 0, 1), true); }
VP_ENTRY(c04_apfix) { P p; any(p, 1, false); p.A[0][0] = 2; solve(p, AP, vp_choose("iteMax", 0, VP_IT), true); }
VP_ENTRY(c04_apones) { P p; any(p, 1, false); p.A[0][0] = vp_choose("A", 0, 3); p.x0[0] = 1; solve(p, AP, vp_choose("iteMax", 0, 1), true); }
VP_ENTRY(c04_ap2) { P p; any(p, 2, false); bool d = vp_choose("diag", 0, 1); p.A[0][0] = d ? 2 : 3; p.A[1][1] = 6; p.A[0][1] = p.A[1][0] = d ? 0 : 4; p.x0[0] = 0; p.x0[1] = 1; solve(p, AP, vp_choose("iteMax", 0, 1), true); }
VP_ENTRY(c04_mm1) { P p; any(p, 1, false); p.A[0][0] = 2; solve(p, MM, vp_choose("iteMax", 0, VP_ITM), true, VP_LIM); }
VP_ENTRY(c04_mmany) { P p; any(p, 1, false); solve(p, MM, VP_ITM, false, VP_LIM); }
VP_ENTRY(c04_mm2) { P p; any(p, 2, false); p.A[0][0] = 2; p.A[1][1] = 3; p.A[0][1] = p.A[1][0] = 1; solve(p, MM, 2, true, VP_LIM2); }

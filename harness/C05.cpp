// C05: the constraint step.  The quadratic solver is replaced by one that checks the problem and gives any answer.
#include "con.hpp"
#include "mat.hpp"
#include "Constraint/ConstraintOperator.cpp"
#include "Constraint/ConstraintSolver.hpp"
struct W {
    int np, off, nloc; // particles in total, first one of this rank, their number
    std::vector<ConstraintBlock> all; int row0, rows; // all blocks (all ranks); this rank's rows
    double m[12], c, v[12], dt, res; int ite, choice, calls; double sol[4], other[4];
};
static W *ws[2];
#define w (ws[vp_rank()])
static double entry(const ConstraintBlock &b, int col) {
    int p = col / 6, k = col % 6;
    double v = 0;
    for (int s = 0; s < 2; s++) {
        if (s == 1 && b.oneSide) continue;
        if ((s ? b.globalIndexJ : b.globalIndexI) != p) continue;
        const double *n = s ? b.normJ : b.normI, *x = s ? b.posJ : b.posI;
        v += k == 0 ? n[0] : k == 1 ? n[1] : k == 2 ? n[2] : k == 3 ? x[1] * n[2] - x[2] * n[1] : k == 4 ? x[2] * n[0] - x[0] * n[2] : x[0] * n[1] - x[1] * n[0];
    }
    return v;
}
// D g restricted to bilateral (1), unilateral (0) or all (2) rows
static double force(const double *g, int col, int kind) { double s = 0; for (size_t i = 0; i < w->all.size(); i++) if (kind == 2 || (kind == 1) == w->all[i].bilateral) s += entry(w->all[i], col) * g[i]; return s; }
static double mob(int i, int j) { return i == j ? w->m[i] : i == 0 && j == 3 ? w->c : 0; }
static double vel(const double *g, int col, int kind) { double s = w->m[col] * force(g, col, kind); return col == 0 ? s + w->c * force(g, 3, kind) : s; }
static double opref(const double *g, int i) {
    const auto &b = w->all[i];
    double s = b.bilateral && b.kappa > 0 ? g[i] / b.kappa / w->dt : 0;
    for (int j = 0; j < 6 * w->np; j++) s += entry(b, j) * vel(g, j, 2);
    return s;
}
static double at(const Teuchos::RCP<const TV> &x, int i) { return x->getLocalView<Kokkos::HostSpace>()(i, 0); }
static int stub(const BCQPSolver *s, const Teuchos::RCP<const TOP> &A, const Teuchos::RCP<const TV> &b, Teuchos::RCP<TV> &x, double tol, int iteMax, IteHistory &h, int which) {
    w->calls++;
    auto self = const_cast<BCQPSolver *>(s);
    Teuchos::RCP<TV> lb = self->getLowerBound(), ub = self->getUpperBound();
    int nl = b->getMap()->getNodeNumElements();
    vp_assert(tol == w->res && iteMax == w->ite, "tolerance and iteration limit as requested");
    vp_assert_eqi(which, w->choice == 1 ? 1 : 0, "solver as requested");
    vp_assert(x->getMap()->isSameAs(*b->getMap()) && lb->getMap()->isSameAs(*b->getMap()) && ub->getMap()->isSameAs(*b->getMap()), "one map for all vectors");
    TV xt(b->getMap(), true), yt(b->getMap(), true);
    for (int i = 0; i < nl; i++) {
        const auto &k = w->all[w->row0 + i];
        vp_assert_eq(at(x, i), k.gamma, "initial guess is the block's multiplier");
        double q = k.delta0 / w->dt;
        for (int j = 0; j < 6 * w->np; j++) q += entry(k, j) * w->v[j];
        vp_assert_eq(at(b, i), q, "linear term is separation over time step plus constraint rate of the known velocity");
        if (k.bilateral) vp_assert(at(lb, i) <= -1e8, "bilateral rows are not bounded below"); else vp_assert(at(lb, i) == 0, "unilateral rows are bounded below by zero");
        vp_assert(at(ub, i) >= 1e8, "no upper bound");
        xt.replaceLocalValue(i, w->sol[w->row0 + i]);
    }
    A->apply(xt, yt);
    for (int i = 0; i < nl; i++) vp_assert_eq(yt.getLocalView<Kokkos::HostSpace>()(i, 0), opref(w->sol, w->row0 + i), "operator is D^T M D plus inverse stiffness over time step");
    // the operator may have been applied last to something else than the answer
    for (int i = 0; i < nl; i++) xt.replaceLocalValue(i, w->other[w->row0 + i]);
    A->apply(xt, yt);
    Teuchos::RCP<TV> r(new TV(b->getMap(), true));
    for (int i = 0; i < nl; i++) r->replaceLocalValue(i, w->sol[w->row0 + i]);
    x = r;
    h.push_back(std::array<double, 6>{{0, 0, 0, 0, 1, 1}});
    if (w->calls % 2) h.push_back(std::array<double, 6>{{1, 0, 0, 0, 1, 1}});
    return 0;
}
struct Keep { const BCQPSolver *s; Teuchos::RCP<const TOP> A; Teuchos::RCP<const TV> b; };
static Keep keeps[2];
#define keep (keeps[vp_rank()])
BCQPSolver::BCQPSolver(const Teuchos::RCP<const TOP> &A_, const Teuchos::RCP<const TV> &b_) {
    keep.s = this; keep.A = A_; keep.b = b_;
    Teuchos::RCP<TV> l(new TV(b_->getMap(), false)), u(new TV(b_->getMap(), false));
    l->putScalar(-std::numeric_limits<double>::max() / 10); u->putScalar(std::numeric_limits<double>::max() / 10);
    setLowerBound(l); setUpperBound(u);
}
int BCQPSolver::solveBBPGD(Teuchos::RCP<TV> &x, const double tol, const int iteMax, IteHistory &h) const { return stub(this, keep.A, keep.b, x, tol, iteMax, h, 0); }
int BCQPSolver::solveAPGD(Teuchos::RCP<TV> &x, const double tol, const int iteMax, IteHistory &h) const { return stub(this, keep.A, keep.b, x, tol, iteMax, h, 1); }
extern "C" void vp_set_default_bounds(BCQPSolver *) __asm__("_ZN10BCQPSolver16setDefaultBoundsEv");
extern "C" void vp_set_default_bounds(BCQPSolver *) {}
#undef w
#include "Constraint/ConstraintSolver.cpp"
#define w (ws[vp_rank()])
static void step(ConstraintSolver &s, ConstraintCollector &c, W &ww) {
    w = &ww;
    int calls = w->calls;
    auto mine = flat(c);
    Teuchos::RCP<const TCOMM> comm = getMPIWORLDTCOMM();
    Teuchos::RCP<const TMAP> mm = getTMAPFromLocalSize(6 * w->nloc, comm);
    Teuchos::RCP<TCMAT> M = dense_matrix(mm, mm, [&](int i, int j) { return mob(i, j); });
    Teuchos::RCP<TOP> Mop = M;
    Teuchos::RCP<TV> v(new TV(mm, true));
    for (int i = 0; i < 6 * w->nloc; i++) v->replaceLocalValue(i, w->v[6 * w->off + i]);
    s.setup(c, Mop, v, w->dt);
    s.setControlParams(w->res, w->ite, w->choice);
    s.solveConstraints();
    vp_assert_eqi(w->calls, calls + 1, "the problem is solved once");
    for (int j = 0; j < 6 * w->nloc; j++) {
        int col = 6 * w->off + j;
        vp_assert_eq(at(s.getForceUni(), j), force(w->sol, col, 0), "unilateral force is that of the unilateral multipliers");
        vp_assert_eq(at(s.getForceBi(), j), force(w->sol, col, 1), "bilateral force is that of the bilateral multipliers");
        vp_assert_eq(at(s.getVelocityUni(), j), vel(w->sol, col, 0), "unilateral velocity is the mobility times the unilateral force");
        vp_assert_eq(at(s.getVelocityBi(), j), vel(w->sol, col, 1), "bilateral velocity is the mobility times the bilateral force");
    }
    for (int i = 0; i < 6 * w->nloc; i++) vp_assert_eq(at(v, i), w->v[6 * w->off + i], "known velocity unchanged");
    s.writebackGamma();
    auto after = flat(c);
    vp_assert_eqi(after.size(), mine.size(), "no block is added or lost");
    for (size_t i = 0; i < mine.size(); i++) vp_assert_eq(after[i].gamma, w->sol[w->row0 + i], "each block stores its own multiplier");
    vp_reach("step");
}
static void fill(W &a, int np, bool choice = false) {
    a.np = np; a.calls = 0; a.c = vp_double("c"); a.dt = vp_double("dt"); vp_assume(a.dt > 0);
    a.res = vp_double("res"); a.ite = vp_i32("ite"); a.choice = choice ? vp_choose("choice", 0, 2) : 0;
    for (int i = 0; i < 6 * np; i++) { a.m[i] = vp_double("m"); a.v[i] = vp_double("v"); }
    for (int i = 0; i < 4; i++) { a.sol[i] = vp_double("sol"); a.other[i] = vp_double("other"); }
}
static void one(int np, int nq, int tot) {
    ConstraintCollector c; vp_fixed = 0; any_pool(c, nq, 2, tot, np);
    W a; fill(a, np, np == 2); a.off = 0; a.nloc = np; a.all = flat(c); a.row0 = 0; a.rows = a.all.size();
    ConstraintSolver s;
    step(s, c, a);
}
VP_ENTRY(c05_one) { one(1, 2, VP_TOT); }
VP_ENTRY(c05_two) { one(2, 1, 1); }
VP_ENTRY(c05_again) { // a second step with the same solver object
    ConstraintCollector c, d; vp_fixed = 0; any_pool(c, 1, 1, 1, 1);
    W a; fill(a, 1); a.off = 0; a.nloc = 1; a.all = flat(c); a.row0 = 0; a.rows = a.all.size();
    ConstraintSolver s; step(s, c, a);
    any_pool(d, 1, 1, 1, 1);
    W b; fill(b, 1); b.off = 0; b.nloc = 1; b.all = flat(d); b.row0 = 0; b.rows = b.all.size();
    step(s, d, b);
    vp_reach("again");
}
VP_ENTRY(c05_ranks) {
    ConstraintCollector c[2] = {ConstraintCollector(), ConstraintCollector()};
    W a[2]; fill(a[0], 2); a[1] = a[0];
    vp_fixed = 0;
    for (int r = 0; r < 2; r++) { any_pool(c[r], 1, 1, 1, 2); auto f = flat(c[r]); a[r].row0 = r ? a[0].all.size() : 0; a[r].off = r; a[r].nloc = 1; a[0].all.insert(a[0].all.end(), f.begin(), f.end()); }
    a[1].all = a[0].all;
    vp_run_ranks(2, [&](int me) { ConstraintSolver s; step(s, c[me], a[me]); });
    vp_reach("ranks");
}

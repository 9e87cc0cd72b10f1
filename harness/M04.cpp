// M04: what a step adds up.  The constraint solver gives any forces and velocities; the mobility is any function.
#define VP_OWN_SOLVER
#define VP_DRAG_STUB
#include "sys.hpp"
#include "anyop.hpp"
static int draws;
static double normals(const VpDraw &) { if (draws++ % 3) return 0; double w = num("W"); vp_assume(w > 0.01); return w; }
struct Seen { int setup = 0, control = 0, solve = 0, write = 0, order = 0; double dt; TOP *mob = nullptr; TV *vnc = nullptr; std::vector<double> known; ConstraintBlockPool *pool; };
static Seen seen[2];
static std::vector<double> host(const TV &v) { auto h = v.getLocalView<Kokkos::HostSpace>(); std::vector<double> r(h.dimension_0()); for (size_t i = 0; i < r.size(); i++) r[i] = h(i, 0); return r; }
void ConstraintSolver::reset() {}
void ConstraintSolver::setup(ConstraintCollector &c, Teuchos::RCP<TOP> &m, Teuchos::RCP<TV> &v, double dt_) {
    Seen &s = seen[vp_rank()];
    vp_assert(s.setup == 0, "one problem per step");
    s.setup = 1; s.dt = dt_; s.mob = m.get(); s.pool = c.constraintPoolPtr.get(); s.known = host(*v);
    mobMapRcp = v->getMap();
}
static Teuchos::RCP<TV> some(const Teuchos::RCP<const TMAP> &m, const char *name) {
    auto v = Teuchos::rcp(new TV(m, true)); auto h = v->getLocalView<Kokkos::HostSpace>();
    for (size_t i = 0; i < h.dimension_0(); i++) h(i, 0) = num(name);
    return v;
}
static ConstraintSolver *the[2];
void ConstraintSolver::solveConstraints() {
    Seen &s = seen[vp_rank()];
    vp_assert(s.setup == 1 && s.solve == 0, "the problem is solved once, after it is set up");
    s.solve = 1;
    forceuRcp = some(mobMapRcp, "forceUni"); forcebRcp = some(mobMapRcp, "forceBi"); veluRcp = some(mobMapRcp, "velUni"); velbRcp = some(mobMapRcp, "velBi");
    the[vp_rank()] = this;
}
void ConstraintSolver::writebackGamma() {
    Seen &s = seen[vp_rank()];
    vp_assert(s.solve == 1 && s.write == 0, "the multipliers are written back once, after the solution");
    s.write = 1;
}
struct Setup { bool force, vel, mono; int parts; std::vector<double> f, v; };
static SylinderSystem *sys(int n, const Setup &c, int gid0 = 0) {
    std::vector<Sylinder> all;
    for (int i = 0; i < n; i++) {
        Sylinder y; y.gid = gid0 + i; y.isImmovable = false; y.group = 0; y.radius = 1; y.length = 0; y.radiusCollision = 1; y.lengthCollision = 0;
        y.clear();
        for (int k = 0; k < 3; k++) y.pos[k] = num("pos");
        y.orientation[0] = y.orientation[1] = y.orientation[2] = 0; y.orientation[3] = 1;
        all.push_back(y);
    }
    auto *s = make_system(all);
    s->runConfig.monolayer = c.mono; s->runConfig.conResTol = 0.25; s->runConfig.conMaxIte = 7; s->runConfig.conSolverChoice = 3;
    s->runConfig.dt = 0.5; s->runConfig.timeSnap = 4; s->stepCount = 3; s->runConfig.viscosity = 2; s->runConfig.KBT = 0;
    s->runConfig.linkKappa = 1; s->runConfig.linkGap = 0;
    s->conCollectorPtr = std::make_shared<ConstraintCollector>();
    s->conSolverPtr = std::make_shared<ConstraintSolver>();
    return s;
}
static AnyOp *ready(SylinderSystem *s, Setup &c, int n) {
    s->updateSylinderMap();
    AnyOp *op = new AnyOp(s->sylinderMobilityMapRcp);
    s->mobilityOperatorRcp = Teuchos::rcp(op);
    s->sylinderNearDataDirectoryPtr = std::make_shared<ZDD<SylinderNearEP>>(n);
    s->buildSylinderNearDataDirectory();
    s->setTreeSylinder();
    if (c.force) { for (int i = 0; i < 6 * n; i++) c.f.push_back(num("force")); s->setForceNonBrown(c.f); }
    if (c.vel) { for (int i = 0; i < 6 * n; i++) c.v.push_back(num("vel")); s->setVelocityNonBrown(c.v); }
    return op;
}
static bool flat(const Setup &c, int k) { return c.mono && k >= 2 && k <= 4; } // out of the plane
static double &part(double (&a)[3], double (&b)[3], int k) { return k < 3 ? a[k] : b[k - 3]; }
static void known(SylinderSystem *s, const Setup &c, AnyOp *op, int n, const std::vector<double> &brown) {
    auto got = host(*s->velocityNonConRcp);
    vp_assert((int)got.size() == 6 * n, "one known velocity per degree of freedom");
    std::vector<double> mf(6 * n, 0);
    if (c.force) {
        vp_assert(op->calls >= 1, "the mobility acts on the force");
        mf = op->eval(c.f);
    }
    for (int i = 0; i < n; i++) {
        auto &y = s->sylinderContainer[i];
        for (int k = 0; k < 6; k++) {
            double nb = flat(c, k) ? 0 : mf[6 * i + k] + (c.vel ? c.v[6 * i + k] : 0), b = flat(c, k) || brown.empty() ? 0 : brown[6 * i + k];
            vp_assert_eq(part(y.velNonB, y.omegaNonB, k), nb, "non-Brownian velocity");
            vp_assert_eq(part(y.velBrown, y.omegaBrown, k), b, "Brownian velocity");
            vp_assert_eq(got[6 * i + k], nb + b, "known velocity is the sum of its parts");
            vp_assert_eq(part(y.forceNonB, y.torqueNonB, k), c.force ? c.f[6 * i + k] : 0, "non-Brownian force");
        }
    }
    vp_reach("known");
}
static void total(SylinderSystem *s, const Setup &c, int n) {
    Seen &e = seen[vp_rank()];
    vp_assert(e.setup && e.solve && e.write, "constraints are solved and their multipliers written back");
    vp_assert_eq(e.dt, s->runConfig.dt, "the configured time step");
    vp_assert(e.mob == s->mobilityOperatorRcp.get(), "the mobility of the particles");
    vp_assert(e.pool == s->conCollectorPtr->constraintPoolPtr.get(), "the collected constraints");
    auto *cs = the[vp_rank()];
    vp_assert(cs->res == 0.25 && cs->maxIte == 7 && cs->solverChoice == 3, "the configured tolerances and solver");
    auto k0 = host(*s->velocityNonConRcp), fu = host(*cs->getForceUni()), fb = host(*cs->getForceBi()), vu = host(*cs->getVelocityUni()), vb = host(*cs->getVelocityBi());
    for (int i = 0; i < n; i++) {
        auto &y = s->sylinderContainer[i];
        for (int k = 0; k < 6; k++) {
            int j = 6 * i + k;
            vp_assert_eq(e.known[j], k0[j], "constraints are solved for the known velocity");
            vp_assert_eq(part(y.velCol, y.omegaCol, k), vu[j], "collision velocity"); vp_assert_eq(part(y.velBi, y.omegaBi, k), vb[j], "link velocity");
            vp_assert_eq(part(y.forceCol, y.torqueCol, k), fu[j], "collision force"); vp_assert_eq(part(y.forceBi, y.torqueBi, k), fb[j], "link force");
            vp_assert_eq(part(y.vel, y.omega, k), k0[j] + vu[j] + vb[j], "total velocity is the sum of its parts");
            vp_assert_eq(part(y.force, y.torque, k), part(y.forceNonB, y.torqueNonB, k) + fu[j] + fb[j], "total force is the sum of its parts");
        }
    }
    vp_reach("total");
}
static void sums(int n, int threads) {
    Setup c; c.force = vp_choose("force", 0, 1); c.vel = vp_choose("vel", 0, 1); c.mono = vp_choose("monolayer", 0, 1);
    bool brown = vp_choose("brown", 0, 1);
    if (threads > 1) vp_threads(threads);
    auto *s = sys(n, c);
    AnyOp *op = ready(s, c, n);
    std::vector<double> b;
    if (brown) {
        for (int i = 0; i < 6 * n; i++) b.push_back(num("brown"));
        s->velocityBrownRcp = getTVFromVector(b, s->commRcp);
        for (int i = 0; i < n; i++) for (int k = 0; k < 6; k++) part(s->sylinderContainer[i].velBrown, s->sylinderContainer[i].omegaBrown, k) = b[6 * i + k];
    }
    s->calcVelocityNonCon();
    known(s, c, op, n, b);
    s->resolveConstraints();
    s->sumForceVelocity();
    total(s, c, n);
}
VP_ENTRY(m04_one) { sums(1, 1); }
VP_ENTRY(m04_two) { sums(2, 1); }
VP_ENTRY(m04_none) { sums(0, 1); }
VP_ENTRY(m04_threads) { sums(2, 2); }
VP_ENTRY(m04_ranks) {
    Setup c[2]; SylinderSystem *s[2];
    for (int r = 0; r < 2; r++) { c[r].force = c[r].vel = true; c[r].mono = false; s[r] = sys(1, c[r], r); }
    vp_run_ranks(2, [&](int me) {
        AnyOp *op = ready(s[me], c[me], 1);
        s[me]->calcVelocityNonCon();
        known(s[me], c[me], op, 1, {});
        s[me]->resolveConstraints();
        s[me]->sumForceVelocity();
        total(s[me], c[me], 1);
    });
    vp_reach("ranks");
}
// a whole step: particles move with the total velocity
static void step(bool thermal) {
    Setup c; c.force = true; c.vel = true; c.mono = vp_choose("monolayer", 0, 1);
    auto *s = sys(1, c);
    s->runConfig.sylinderFixed = vp_choose("fixed", 0, 1);
    s->runConfig.KBT = thermal ? 2 : 0;
    vp_drag.clear(); vp_drag.push_back({2, 0.5, 0.5, 0.25});
    s->rngPoolPtr = std::make_shared<TRngPool>(1);
    vp_draw_hook = normals;
    AnyOp *op = ready(s, c, 1);
    auto &y = s->sylinderContainer[0];
    double p[3] = {y.pos[0], y.pos[1], y.pos[2]};
    s->runStep();
    total(s, c, 1);
    std::vector<double> b;
    if (thermal) for (int k = 0; k < 6; k++) b.push_back(part(y.velBrown, y.omegaBrown, k));
    known(s, c, op, 1, b);
    for (int k = 0; k < 3; k++) vp_assert_eq(y.pos[k], p[k] + (s->runConfig.sylinderFixed ? 0 : 0.5 * y.vel[k]), "particles move with the total velocity");
    vp_assert_eqi(s->stepCount, 4, "one more step");
    vp_reach("step");
}
VP_ENTRY(m04_step) { step(false); }
VP_ENTRY(m04_step_brown) { step(true); }

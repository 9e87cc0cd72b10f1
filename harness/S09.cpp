// S09: preparing a step
#define VP_DRAG_STUB
#include "vp.h"
#include <vector>
#include "Util/EigenDef.hpp"
#include <Eigen/Dense>
// Eigen's rotation between two vectors: some unit quaternion that we remember with its arguments (see S06)
struct Rot { double a[3], b[3], q[4]; };
static std::vector<Rot> rots;
template <> template <> Emapq &Eigen::QuaternionBase<Emapq>::setFromTwoVectors(const Eigen::MatrixBase<Evec3> &a, const Eigen::MatrixBase<Evec3> &b) {
    Rot r;
    double n = 0;
    for (int k = 0; k < 3; k++) { r.a[k] = a[k]; r.b[k] = b[k]; }
    for (int k = 0; k < 4; k++) { r.q[k] = vp_double("quaternion"); n += r.q[k] * r.q[k]; }
    vp_assume_eq(n, 1);
    x() = r.q[0]; y() = r.q[1]; z() = r.q[2]; w() = r.q[3];
    rots.push_back(r);
    return derived();
}
#include "sys.hpp"
struct Box { int pbc; double lo[3], hi[3], L[3]; };
static Box box() {
    Box b;
    b.pbc = vp_choose("periodic", 0, 7);
    for (int k = 0; k < 3; k++) { b.lo[k] = vp_double("low"); b.L[k] = vp_double("length"); vp_assume((b.L[k] > 1e-3) & (b.L[k] < 1e6) & (b.lo[k] > -1e6) & (b.lo[k] < 1e6)); b.hi[k] = b.lo[k] + b.L[k]; }
    return b;
}
typedef double (Sylinder::*Field)[3];
static const Field fields[] = {&Sylinder::vel, &Sylinder::omega, &Sylinder::velCol, &Sylinder::omegaCol, &Sylinder::velBi, &Sylinder::omegaBi, &Sylinder::velNonB, &Sylinder::omegaNonB, &Sylinder::velBrown, &Sylinder::omegaBrown,
    &Sylinder::force, &Sylinder::torque, &Sylinder::forceCol, &Sylinder::torqueCol, &Sylinder::forceBi, &Sylinder::torqueBi, &Sylinder::forceNonB, &Sylinder::torqueNonB};
// a particle after some step; inside: its wrapped position
struct Part { Sylinder y; double inside[3]; };
static Part particle(int gid, const Box &b, bool flat) {
    Part p; Sylinder &y = p.y;
    y = any_sylinder(gid);
    for (int k = 0; k < 3; k++) {
        p.inside[k] = y.pos[k];
        if (b.pbc >> k & 1) { double f = vp_double("fraction"); vp_assume((f >= 0) & (f < 1)); p.inside[k] = b.lo[k] + f * b.L[k]; y.pos[k] = p.inside[k] + (double)(gid % 3 - 1) * b.L[k]; }
        else vp_assume((y.pos[k] > -1e12) & (y.pos[k] < 1e12));
    }
    y.radiusCollision = vp_double("old"); y.lengthCollision = vp_double("old"); y.colBuf = vp_double("old"); y.sepmin = vp_double("old");
    for (auto f : fields) for (int k = 0; k < 3; k++) (y.*f)[k] = 1 + k;
    y.isImmovable = gid % 2; y.group = 3 + gid; y.rank = 5; y.globalIndex = 17;
    return p;
}
struct Conf { double dr, lr, buf; };
static SylinderSystem *sys(const std::vector<Part> &v, const Box &b, const Conf &c, int step, bool flat) {
    std::vector<Sylinder> y; for (auto &p : v) y.push_back(p.y);
    auto *s = make_system(y);
    for (int k = 0; k < 3; k++) { s->runConfig.simBoxPBC[k] = b.pbc >> k & 1; s->runConfig.simBoxLow[k] = b.lo[k]; s->runConfig.simBoxHigh[k] = b.hi[k]; }
    s->runConfig.sylinderDiameterColRatio = c.dr; s->runConfig.sylinderLengthColRatio = c.lr; s->runConfig.sylinderColBuf = c.buf;
    s->runConfig.monolayer = flat; s->runConfig.viscosity = 2; s->stepCount = step;
    s->conCollectorPtr = std::make_shared<ConstraintCollector>();
    for (auto &q : *s->conCollectorPtr->constraintPoolPtr) q.resize(1);
    rots.clear();
    s->dinfo.initialize();
    s->setDomainInfo();
    return s;
}
static void dirty(SylinderSystem *s) { // what users and the step before left
    s->sylinderNearDataDirectoryPtr = std::make_shared<ZDD<SylinderNearEP>>(4);
    s->updateSylinderMap();
    const int n = s->sylinderContainer.getNumberOfParticleLocal();
    s->setForceNonBrown(std::vector<double>(6 * n, 1.0)); s->setVelocityNonBrown(std::vector<double>(6 * n, 2.0));
    s->velocityNonBrownRcp = s->forcePartNonBrownRcp; s->velocityBrownRcp = s->forcePartNonBrownRcp;
    for (int i = 0; i < n; i++) s->sylinderContainer[i].globalIndex = 17;
}
static bool cut(double x, double lo, double L) { double r = (x - lo) / L; return !vp_is_symbolic() && (r < 1e-9 || r > 1 - 1e-9); } // on a face, with rounding
// the axis is the horizontal part of what it was, normalised
static void level(const Sylinder &y, const Evec3 &d) {
    Evec3 n = axis(y);
    for (auto &r : rots) if (vp_identical(r.q[0], y.orientation[0])) {
        for (int k = 0; k < 4; k++) vp_assert_eq(y.orientation[k], r.q[k], "the rotation from z");
        for (int k = 0; k < 3; k++) { vp_assert_eq(r.a[k], k == 2 ? 1 : 0, "the rotation from z"); n[k] = r.b[k]; }
    }
    vp_assert_eq(n[2], 0, "axis in the plane");
    vp_assert_eq(n[0] * d[1], n[1] * d[0], "axis keeps its direction in the plane"); vp_assert_lt(0, n[0] * d[0] + n[1] * d[1], "axis keeps its direction in the plane");
    vp_reach("flat");
}
static void check(SylinderSystem *s, const std::vector<Part> &v, const Box &b, const Conf &c, int first, bool flat) {
    auto &ct = s->sylinderContainer;
    const int n = v.size();
    vp_assert_eqi(ct.getNumberOfParticleLocal(), n, "no particle is lost");
    auto &dir = *s->sylinderNearDataDirectoryPtr;
    vp_assert_eqi(dir.gidOnLocal.size(), n, "neighbour data of every particle"); vp_assert_eqi(dir.dataOnLocal.size(), n, "neighbour data of every particle");
    vp_assert_eqi(s->sylinderMapRcp->getNodeNumElements(), n, "map of the particles"); vp_assert_eqi(s->sylinderMobilityMapRcp->getNodeNumElements(), 6 * n, "map of the degrees of freedom");
    if (n) { vp_assert_eqi(s->sylinderMapRcp->getMinGlobalIndex(), first, "map follows the ranks"); vp_assert_eqi(s->sylinderMobilityMapRcp->getMinGlobalIndex(), 6 * first, "map follows the ranks"); }
    for (int i = 0; i < n; i++) {
        Sylinder &y = ct[i]; const Sylinder &o = v[i].y;
        vp_assert_eqi(y.gid, o.gid, "storage order");
        vp_assert_eq(y.radius, o.radius, "physical size"); vp_assert_eq(y.length, o.length, "physical size");
        vp_assert_eq(y.radiusCollision, o.radius * c.dr, "collision radius"); vp_assert_eq(y.lengthCollision, o.length * c.lr, "collision length");
        vp_assert_eq(y.colBuf, c.buf, "collision buffer");
        vp_assert(y.isImmovable == o.isImmovable, "immovable stays"); vp_assert_eqi(y.group, o.group, "group stays");
        vp_assert_eqi(y.globalIndex, first + i, "global index"); vp_assert_eqi(y.rank, vp_rank(), "rank");
        for (auto f : fields) for (int k = 0; k < 3; k++) vp_assert_eq((y.*f)[k], 0, "forces and velocities are cleared");
        for (int k = 0; k < 3; k++) {
            if (flat && k == 2) vp_assert_eq(y.pos[2], 0.5 * (b.lo[2] + b.hi[2]), "in the mid plane");
            else if (!cut(v[i].inside[k], b.lo[k], b.L[k])) vp_assert_eq(y.pos[k], v[i].inside[k], "wrapped into the periodic box");
        }
        if (!flat) for (int k = 0; k < 4; k++) vp_assert_eq(y.orientation[k], o.orientation[k], "orientation stays");
        else level(y, axis(o));
        auto &d = dir.dataOnLocal[i];
        vp_assert_eqi(dir.gidOnLocal[i], o.gid, "neighbour data by id"); vp_assert_eqi(d.gid, o.gid, "neighbour data: id"); vp_assert_eqi(d.globalIndex, first + i, "neighbour data: global index");
        vp_assert_eq(d.radiusCollision, y.radiusCollision, "neighbour data: collision radius"); vp_assert_eq(d.lengthCollision, y.lengthCollision, "neighbour data: collision length");
        for (int k = 0; k < 3; k++) vp_assert_eq(d.pos[k], y.pos[k], "neighbour data: position");
    }
    for (auto &q : *s->conCollectorPtr->constraintPoolPtr) vp_assert(q.empty(), "no constraint is left");
    vp_assert(s->forcePartNonBrownRcp.is_null() && s->velocityPartNonBrownRcp.is_null() && s->velocityNonBrownRcp.is_null() && s->velocityBrownRcp.is_null(), "no force or velocity is left");
    vp_assert(!s->mobilityOperatorRcp.is_null() && s->mobilityOperatorRcp->getDomainMap()->isSameAs(*s->sylinderMobilityMapRcp), "the mobility is that of the particles");
    vp_reach("prepared");
}
static Conf conf() { Conf c; c.dr = vp_double("diameterRatio"); c.lr = vp_double("lengthRatio"); c.buf = vp_double("buffer"); return c; }
static void drags(int n) { vp_drag.clear(); for (int i = 0; i < n; i++) vp_drag.push_back({2, 0.5, 0.5, 0.25}); }
static void one(int n, int threads) {
    vp_threads(threads); drags(n);
    Box b = box(); Conf c = conf();
    std::vector<Part> v; for (int i = 0; i < n; i++) v.push_back(particle(i, b, false));
    auto *s = sys(v, b, c, vp_choose("step", 49, 50), false);
    dirty(s);
    vp_exchange_calls = 0;
    s->prepareStep();
    vp_assert(vp_exchange_calls > 0, "particles are exchanged");
    check(s, v, b, c, 0, false);
}
VP_ENTRY(s09_flat) {
    drags(1);
    Box b = box(); Conf c = conf();
    std::vector<Part> v; v.push_back(particle(0, b, true));
    Evec3 d = axis(v[0].y); vp_assume(d[0] * d[0] + d[1] * d[1] > 1e-4);
    auto *s = sys(v, b, c, 7, true);
    dirty(s);
    s->prepareStep();
    check(s, v, b, c, 0, true);
}
VP_ENTRY(s09_one) { one(vp_choose("n", 0, 1), 1); }
VP_ENTRY(s09_two) { one(2, 2); }
// particles that the exchange moves to the other rank
static void swap(PS::ParticleSystem<Sylinder> &p) {
    static Sylinder kept;
    if (vp_rank() == 0) { kept = p[1]; p.setNumberOfParticleLocal(1); }
    MPI_Barrier(MPI_COMM_WORLD);
    if (vp_rank() == 1) { int n = p.getNumberOfParticleLocal(); p.setNumberOfParticleLocal(n + 1); p[n] = kept; }
}
VP_ENTRY(s09_ranks) {
    vp_threads(1); drags(4);
    int pbc = vp_choose("wrapped", 0, 1);
    Box b; b.pbc = pbc ? 7 : 0; for (int k = 0; k < 3; k++) { b.lo[k] = -1; b.L[k] = 4; b.hi[k] = 3; }
    Conf c = conf();
    std::vector<Part> v[2]; int n1 = vp_choose("n", 0, 1);
    for (int i = 0; i < 2; i++) v[0].push_back(particle(i, b, false));
    for (int i = 0; i < n1; i++) v[1].push_back(particle(2 + i, b, false));
    bool move = vp_choose("move", 0, 1);
    SylinderSystem *s[2] = {sys(v[0], b, c, 3, false), sys(v[1], b, c, 3, false)};
    vp_exchange_hook = move ? swap : nullptr;
    vp_run_ranks(2, [&](int r) { dirty(s[r]); s[r]->prepareStep(); });
    vp_exchange_hook = nullptr;
    if (move) { v[1].push_back(v[0][1]); v[0].pop_back(); }
    vp_run_ranks(2, [&](int r) { check(s[r], v[r], b, c, r ? v[0].size() : 0, false); });
    vp_reach("ranks");
}

// S06: generated initial configurations
#include "vp.h"
#include <vector>
#include "Util/EigenDef.hpp"
#include <Eigen/Dense>
// Eigen's rotation between two vectors gives some quaternion that we remember with its arguments; away from opposite
// vectors its result is as documented (s06_axes has the real one)
struct Rot { double a[3], b[3], q[4]; };
static std::vector<Rot> rots;
#ifndef VP_FP
template <> template <> Equatn &Eigen::QuaternionBase<Equatn>::setFromTwoVectors(const Eigen::MatrixBase<Evec3> &a, const Eigen::MatrixBase<Evec3> &b) {
    Rot r;
    for (int k = 0; k < 3; k++) { r.a[k] = a[k]; r.b[k] = b[k]; }
    double n = 0;
    for (int k = 0; k < 4; k++) { r.q[k] = vp_double("quaternion"); n += r.q[k] * r.q[k]; }
    vp_assume_eq(n, 1);
    x() = r.q[0]; y() = r.q[1]; z() = r.q[2]; w() = r.q[3];
    rots.push_back(r);
    return derived();
}
#endif
#include "sys.hpp"
static int normals = 0;
static double draw(const VpDraw &d) {
    if (d.kind == 0) { double u = vp_double("U01"); vp_assume((u >= 0) & (u < 1)); return u; }
    if (++normals > VP_NORMALS) vp_ignore(); // bound on rejected lengths
    return vp_double("N01");
}
struct Box { double lo[3], hi[3], edge[3]; };
static Box box(SylinderSystem *s) {
    Box b;
    for (int k = 0; k < 3; k++) {
        b.lo[k] = vp_double("low"); b.hi[k] = vp_double("high"); b.edge[k] = b.hi[k] - b.lo[k];
        vp_assume((b.edge[k] > 1e-3) & (b.hi[k] < 1e3) & (b.lo[k] > -1e3));
        s->runConfig.initBoxLow[k] = b.lo[k]; s->runConfig.initBoxHigh[k] = b.hi[k];
    }
    return b;
}
static SylinderSystem *sys(int threads, int n) {
    vp_draw_hook = draw; normals = 0; rots.clear();
    vp_threads(threads);
    auto *s = make_system({});
    s->rngPoolPtr = std::make_shared<TRngPool>(1);
    s->runConfig.sylinderNumber = n; s->runConfig.sylinderDiameter = vp_double("diameter"); s->runConfig.sylinderLength = vp_double("length"); s->runConfig.sylinderLengthSigma = 0;
    s->runConfig.initCircularX = false;
    vp_assume((s->runConfig.sylinderDiameter > 0) & (s->runConfig.sylinderLength >= 0));
    return s;
}
static double prescribed[3];
// the prescribed components, anything else asks for a random one
static void orient(SylinderSystem *s, int random) {
    for (int k = 0; k < 3; k++) {
        double p = vp_double("orient"), q = vp_double("outside");
        vp_assume((p >= -1) & (p <= 1)); vp_assume(q * q > 1);
        prescribed[k] = p;
        s->runConfig.initOrient[k] = (random >> k & 1) ? q : p;
    }
}
static void common(SylinderSystem *s, const Box &b, int n) {
    auto &c = s->sylinderContainer;
    vp_assert_eqi(c.getNumberOfParticleLocal(), n, "the configured number of particles");
    const double r = s->runConfig.sylinderDiameter / 2;
    for (int i = 0; i < n; i++) {
        vp_assert_eqi(c[i].gid, i, "consecutive ids from zero");
        vp_assert(!c[i].isImmovable, "movable"); vp_assert_eqi(c[i].group, -1, "no group");
        vp_assert_eq(c[i].radius, r, "configured radius"); vp_assert_eq(c[i].radiusCollision, r, "configured radius");
        vp_assert_eq(c[i].lengthCollision, c[i].length, "one length");
        for (int k = 0; k < 3; k++) {
            vp_assert_eq(c[i].vel[k], 0, "at rest"); vp_assert_eq(c[i].omega[k], 0, "at rest"); vp_assert_eq(c[i].force[k], 0, "no force");
            vp_assert_le(b.lo[k], c[i].pos[k], "inside the box"); vp_assert_lt(c[i].pos[k], b.hi[k], "inside the box");
        }
    }
}
static void unit(const Sylinder &y) { double n = 0; for (int k = 0; k < 4; k++) n += y.orientation[k] * y.orientation[k]; vp_assert_eq(n, 1, "unit orientation"); }
// the axis is a positive multiple of (x,y,z)
static void along(const Sylinder &y, const double p[3]) {
    for (auto &r : rots) {
        if (!vp_identical(r.q[0], y.orientation[0])) continue;
        for (int k = 0; k < 4; k++) vp_assert_eq(y.orientation[k], r.q[k], "the rotation from z");
        double dot = 0;
        for (int k = 0; k < 3; k++) {
            vp_assert_eq(r.a[k], k == 2 ? 1 : 0, "the rotation from z");
            vp_assert_eq(r.b[k] * p[(k + 1) % 3], r.b[(k + 1) % 3] * p[k], "axis along the prescribed direction");
            dot += r.b[k] * p[k];
        }
        vp_assert_lt(0, dot, "axis along the prescribed direction");
        return;
    }
    const Evec3 a = axis(y);
    const double n = std::sqrt(p[0] * p[0] + p[1] * p[1] + p[2] * p[2]);
    for (int k = 0; k < 3; k++) vp_assert_eq(a[k] * n, p[k], "axis along the prescribed direction");
}
// all components given: the same axis for all
VP_ENTRY(s06_fixed) {
    auto *s = sys(1, 1);
    Box b = box(s);
    orient(s, 0);
    const double *p = prescribed;
    vp_assume(p[0] * p[0] + p[1] * p[1] > 1e-4);
    s->setInitialFromConfig();
    common(s, b, 1);
    vp_assert_eq(s->sylinderContainer[0].length, s->runConfig.sylinderLength, "configured length");
    unit(s->sylinderContainer[0]); along(s->sylinderContainer[0], p);
    vp_reach("fixed");
}
// some components random: getOrient alone, each random one is 2u-1 of the next draw
static std::vector<double> us;
static double keep(const VpDraw &) { double u = vp_double("U01"); vp_assume((u >= 0) & (u < 1)); us.push_back(u); return u; }
VP_ENTRY(s06_mixed) {
    auto *s = sys(1, 1);
    int random = vp_choose("random", 1, 6);
    orient(s, random);
    us.clear(); vp_draw_hook = keep;
    Equatn e;
    double p[3];
    s->getOrient(e, s->runConfig.initOrient[0], s->runConfig.initOrient[1], s->runConfig.initOrient[2], 0);
    size_t t = 0;
    for (int k = 0; k < 3; k++) p[k] = (random >> k & 1) ? 2 * us[t++] - 1 : prescribed[k];
    vp_assume(p[0] * p[0] + p[1] * p[1] > 1e-4);
    vp_assert_eqi(us.size(), t, "one draw per random component");
    Sylinder y; y.orientation[0] = e.x(); y.orientation[1] = e.y(); y.orientation[2] = e.z(); y.orientation[3] = e.w();
    unit(y); along(y, p);
    vp_reach("mixed");
}
VP_ENTRY(s06_random) {
    auto *s = sys(1, 2);
    Box b = box(s);
    orient(s, 7);
    s->setInitialFromConfig();
    common(s, b, 2);
    for (int i = 0; i < 2; i++) unit(s->sylinderContainer[i]);
    vp_reach("random");
}
VP_ENTRY(s06_threads) {
    auto *s = sys(2, 2);
    Box b = box(s);
    orient(s, 7);
    s->setInitialFromConfig();
    common(s, b, 2);
    vp_reach("threads");
}
VP_ENTRY(s06_lengths) {
    auto *s = sys(1, 1);
    Box b = box(s);
    orient(s, 7);
    s->runConfig.sylinderLengthSigma = vp_double("sigma"); vp_assume(s->runConfig.sylinderLengthSigma > 0);
    s->setInitialFromConfig();
    common(s, b, 1);
    const double len = s->sylinderContainer[0].length;
    for (int k = 0; k < 3; k++) vp_assert_lt(len, 0.5 * b.edge[k], "no rod is longer than half of the box");
    vp_assert_lt(0, len, "a positive length");
    vp_reach("lengths");
}
VP_ENTRY(s06_circle) {
    auto *s = sys(1, vp_choose("n", 0, 1));
    const int n = s->runConfig.sylinderNumber;
    Box b = box(s);
    orient(s, 7);
    s->runConfig.initCircularX = true;
    s->setInitialFromConfig();
    common(s, b, n);
    double R = b.edge[1] < b.edge[2] ? 0.5 * b.edge[1] : 0.5 * b.edge[2];
    for (int i = 0; i < n; i++) {
        double y = s->sylinderContainer[i].pos[1] - 0.5 * (b.lo[1] + b.hi[1]), z = s->sylinderContainer[i].pos[2] - 0.5 * (b.lo[2] + b.hi[2]);
        vp_assert_le(y * y + z * z, R * R, "inside the inscribed circle");
    }
    vp_reach("circle");
}
VP_ENTRY(s06_ranks) {
    SylinderSystem *s[2] = {sys(1, 1), sys(1, 1)};
    Box b = box(s[0]);
    for (int k = 0; k < 3; k++) { s[1]->runConfig.initBoxLow[k] = b.lo[k]; s[1]->runConfig.initBoxHigh[k] = b.hi[k]; }
    s[1]->runConfig.sylinderDiameter = s[0]->runConfig.sylinderDiameter; s[1]->runConfig.sylinderLength = s[0]->runConfig.sylinderLength;
    bool circle = vp_choose("circle", 0, 1);
    for (int r = 0; r < 2; r++) { s[r]->runConfig.initCircularX = circle; for (int k = 0; k < 3; k++) s[r]->runConfig.initOrient[k] = 2; }
    vp_run_ranks(2, [&](int r) { s[r]->setInitialFromConfig(); });
    vp_assert_eqi(s[1]->sylinderContainer.getNumberOfParticleLocal(), 0, "only rank 0 generates");
    if (!circle) common(s[0], b, 1);
    vp_reach("ranks");
}
#ifdef VP_FP
// directions along the axes, -z included
VP_ENTRY(s06_axes) {
    auto *s = sys(1, 0);
    double p[3] = {0, 0, 0};
    int a = vp_choose("axis", 0, 2);
    p[a] = vp_choose("sign", 0, 1) ? 1 : -0.5;
    Equatn e;
    s->getOrient(e, p[0], p[1], p[2], 0);
    Sylinder y; y.orientation[0] = e.x(); y.orientation[1] = e.y(); y.orientation[2] = e.z(); y.orientation[3] = e.w();
    const Evec3 d = axis(y);
    double n = 0; for (int k = 0; k < 4; k++) n += y.orientation[k] * y.orientation[k];
    vp_assert(std::fabs(n - 1) < 1e-14, "unit orientation");
    for (int k = 0; k < 3; k++) vp_assert(std::fabs(d[k] - (k == a ? (p[a] > 0 ? 1 : -1) : 0)) < 1e-14, "axis along the prescribed direction");
    vp_reach("axes");
}
#endif

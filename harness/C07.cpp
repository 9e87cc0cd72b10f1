// C07: link constraints
#define VP_STRESS_STUB
#include "sys.hpp"
struct Box { bool pbc[3]; double lo[3], hi[3]; };
static Box any_box(int periodic) {
    Box b;
    for (int k = 0; k < 3; k++) {
        b.pbc[k] = periodic >> k & 1;
        b.lo[k] = vp_double("low"); b.hi[k] = vp_double("high");
        vp_assume((b.hi[k] > b.lo[k] + 1e-3) & (b.hi[k] < 1e3) & (b.lo[k] > -1e3));
    }
    return b;
}
static bool aligned = false; // axes along x and z only, keeps the periodic cases linear
static Sylinder particle(int gid, int index, const Box &b) {
    Sylinder y = any_sylinder(gid);
    if (aligned) { if (index % 2) y.orientation[0] = y.orientation[1] = y.orientation[2] = y.orientation[3] = 0.5; else { y.orientation[0] = y.orientation[1] = y.orientation[2] = 0; y.orientation[3] = 1; } }
    y.globalIndex = index;
    y.radiusCollision = vp_double("radiusCollision"); y.lengthCollision = vp_double("lengthCollision"); // not what is used
    for (int k = 0; k < 3; k++) if (b.pbc[k]) vp_assume((y.pos[k] >= b.lo[k]) & (y.pos[k] < b.hi[k])); // wrapped, see S01
    return y;
}
static SylinderSystem *sys(const std::vector<Sylinder> &v, const Box &b) {
    auto *s = make_system(v);
    for (int k = 0; k < 3; k++) { s->runConfig.simBoxPBC[k] = b.pbc[k]; s->runConfig.simBoxLow[k] = b.lo[k]; s->runConfig.simBoxHigh[k] = b.hi[k]; }
    return s;
}
static void conf(SylinderSystem *s, double kappa, double gap) { s->runConfig.linkKappa = kappa; s->runConfig.linkGap = gap; }
static void collect(SylinderSystem *s) {
    s->conCollectorPtr = std::make_shared<ConstraintCollector>();
    s->sylinderNearDataDirectoryPtr = std::make_shared<ZDD<SylinderNearEP>>(s->sylinderContainer.getNumberOfParticleLocal());
    s->buildSylinderNearDataDirectory();
    s->collectLinkBilateral();
}
static void check(const ConstraintBlock &g, const Sylinder &I, const Sylinder &J, const Box &b, double kappa, double gap, bool stress) {
    vp_assert(g.bilateral && !g.oneSide, "bilateral and two sided");
    vp_assert_eq(g.kappa, kappa, "the configured stiffness");
    vp_assert(g.globalIndexI == I.globalIndex && g.globalIndexJ == J.globalIndex, "the particles' own indices");
    Evec3 dI = axis(I), dJ = axis(J), r;
    double image[3];
    for (int k = 0; k < 3; k++) {
        vp_assert_eq(g.posI[k], 0.5 * I.length * dI[k], "plus end of the first relative to its centre");
        vp_assert_eq(g.posJ[k], -0.5 * J.length * dJ[k], "minus end of the second relative to its centre");
        vp_assert_eq(g.labI[k], I.pos[k] + 0.5 * I.length * dI[k], "plus end of the first");
        image[k] = g.labJ[k] + 0.5 * J.length * dJ[k];
        if (b.pbc[k]) {
            const double L = b.hi[k] - b.lo[k], d = image[k] - J.pos[k];
            if (vp_is_symbolic()) vp_assert((d == 0) | (d == L) | (d == -L), "the second particle is moved by whole boxes");
            else { double m = d / L; vp_assert(std::fabs(m - std::round(m)) < 1e-6, "the second particle is moved by whole boxes"); }
            vp_assert_le(image[k] - I.pos[k], 0.5 * L, "nearest image");
            vp_assert_le(-0.5 * L, image[k] - I.pos[k], "nearest image");
        } else vp_assert_eq(image[k], J.pos[k], "no image in directions that are not periodic");
        r[k] = g.labJ[k] - g.labI[k];
    }
    const double n = std::sqrt(r[0] * r[0] + r[1] * r[1] + r[2] * r[2]);
    const double rest = n - I.radius - J.radius - gap;
    vp_assert_eq(g.delta0, rest, "end distance minus radii and gap");
    if (rest > 0) vp_assert_eq(g.gamma, 0, "initial multiplier"); else vp_assert_eq(g.gamma, -rest, "initial multiplier");
    vp_assert_eq(g.gammaLB, 0, "lower bound");
    if (!(n > 1e-3)) { vp_reach("touching"); return; }
    double s = 0;
    for (int k = 0; k < 3; k++) {
        vp_assert_eq(g.normI[k] * n, -r[k], "along the joining line"); vp_assert_eq(g.normJ[k], -g.normI[k], "opposite normals");
    }
    Evec3 cI(I.pos[0], I.pos[1], I.pos[2]), cJ(image[0], image[1], image[2]), P(g.labI[0], g.labI[1], g.labI[2]), Q(g.labJ[0], g.labJ[1], g.labJ[2]);
    if (stress) {
        Emat3 want;
        CalcSylinderNearForce::collideStress(dI, dJ, cI, cJ, I.length, J.length, I.radius, J.radius, 1.0, P, Q, want);
        for (int k = 0; k < 9; k++) vp_assert_eq(g.stress[k], want(k / 3, k % 3), "the stress of this pair");
    } else {
        const VpStress *t = nullptr;
        for (auto &q : vp_stress) if (vp_identical(q.out(0, 0), g.stress[0])) t = &q;
        vp_assert(t != nullptr, "the stress of a pair");
        for (int k = 0; k < 9; k++) vp_assert_eq(g.stress[k], t->out(k / 3, k % 3), "the stress");
        for (int k = 0; k < 3; k++) {
            vp_assert_eq(t->dI[k], dI[k], "stress: axis of the first"); vp_assert_eq(t->dJ[k], dJ[k], "stress: axis of the second");
            vp_assert_eq(t->cI[k], cI[k], "stress: centre of the first"); vp_assert_eq(t->cJ[k], cJ[k], "stress: centre of the second");
            vp_assert_eq(t->P[k], P[k], "stress: end of the first"); vp_assert_eq(t->Q[k], Q[k], "stress: end of the second");
        }
        vp_assert_eq(t->hI, I.length, "stress: length"); vp_assert_eq(t->hJ, J.length, "stress: length"); vp_assert_eq(t->rho, 1, "stress: density");
        vp_assert_eq(t->rI, I.radius, "stress: radius"); vp_assert_eq(t->rJ, J.radius, "stress: radius");
    }
    vp_reach("link");
}
typedef std::vector<std::pair<int, int>> Links;
static void matched(SylinderSystem *s, const std::vector<Sylinder> &all, const Links &mine, const Box &b, double kappa, double gap, bool stress) {
    std::vector<ConstraintBlock> got;
    for (auto &q : *s->conCollectorPtr->constraintPoolPtr) for (auto &c : q) got.push_back(c);
    vp_assert(got.size() == mine.size(), "one constraint per link");
    std::vector<char> taken(got.size(), 0);
    for (auto &l : mine) {
        const ConstraintBlock *g = nullptr;
        for (size_t k = 0; k < got.size() && !g; k++) if (!taken[k] && got[k].gidI == all[l.first].gid && got[k].gidJ == all[l.second].gid) { g = &got[k]; taken[k] = 1; }
        vp_assert(g != nullptr, "every link has its constraint");
        check(*g, all[l.first], all[l.second], b, kappa, gap, stress);
    }
}
static void one(int n, const Links &links, int periodic, int threads, bool stress) {
    Box b = any_box(periodic);
    std::vector<Sylinder> v;
    for (int i = 0; i < n; i++) v.push_back(particle(7 + 3 * ((i * 2) % 3), i, b));
    vp_threads(threads);
    auto *s = sys(v, b);
    double kappa = vp_double("kappa"), gap = vp_double("gap");
    conf(s, kappa, gap);
    vp_stress_real = stress;
    for (auto &l : links) { s->linkMap.emplace(v[l.first].gid, v[l.second].gid); s->linkReverseMap.emplace(v[l.second].gid, v[l.first].gid); }
    collect(s);
    matched(s, v, links, b, kappa, gap, stress);
    vp_reach("checked");
}
VP_ENTRY(c07_pair) { one(2, {{0, 1}}, 0, 1, false); }
VP_ENTRY(c07_stress) { one(2, {{0, 1}}, 0, 1, true); }
VP_ENTRY(c07_periodic) { aligned = true; one(2, {{1, 0}}, 1 << vp_choose("direction", 0, 2), 1, false); }
VP_ENTRY(c07_periodic3) { aligned = true; one(2, {{0, 1}}, 7, 1, false); }
VP_ENTRY(c07_chain) { one(3, {{0, 1}, {1, 2}, {0, 2}}, 0, 1, false); }
VP_ENTRY(c07_none) { one(2, {}, 7, 1, false); }
VP_ENTRY(c07_threads) { one(2, {{0, 1}, {1, 0}}, 0, 2, false); }
VP_ENTRY(c07_ranks) {
    aligned = true;
    Box b = any_box(1);
    std::vector<Sylinder> v;
    for (int i = 0; i < 3; i++) v.push_back(particle(4 + i, i, b)); // rank 0 has the first, rank 1 the others
    double kappa = vp_double("kappa"), gap = vp_double("gap");
    SylinderSystem *s[2] = {sys({v[0]}, b), sys({v[1], v[2]}, b)};
    vp_run_ranks(2, [&](int me) {
        conf(s[me], kappa, gap);
        for (int l = 0; l < 2; l++) s[me]->linkMap.emplace(v[l].gid, v[l + 1].gid); // on every rank, see S04
        collect(s[me]);
    });
    for (int me = 0; me < 2; me++) matched(s[me], v, me ? Links{{1, 2}} : Links{{0, 1}}, b, kappa, gap, false);
    vp_reach("ranks");
}
#ifdef VP_FP
// a link may be half a box long: rounding does not end the program
VP_ENTRY(c07_tie) {
    Box b; std::vector<Sylinder> v;
    for (int k = 0; k < 3; k++) { b.pbc[k] = k == 0; b.lo[k] = 0; b.hi[k] = 1; }
    for (int i = 0; i < 2; i++) {
        Sylinder y; y.gid = y.globalIndex = i; y.isImmovable = false; y.group = 0; y.radius = 0.1; y.length = 0.5; y.radiusCollision = 0.1; y.lengthCollision = 0.5; y.colBuf = 0.3;
        y.clear();
        y.orientation[0] = y.orientation[1] = y.orientation[2] = 0; y.orientation[3] = 1;
        y.pos[0] = vp_double("pos"); y.pos[1] = 0; y.pos[2] = 0.25 * i;
        const double w = vp_choose(i ? "slab2" : "slab1", 0, 1);
        vp_assume((y.pos[0] >= 0.5 * w) & (y.pos[0] < 0.5 * (w + 1)));
        v.push_back(y);
    }
    auto *s = sys(v, b);
    conf(s, 1, 0.1);
    s->linkMap.emplace(0, 1); s->linkReverseMap.emplace(1, 0);
    collect(s);
    vp_reach("tie");
}
#endif

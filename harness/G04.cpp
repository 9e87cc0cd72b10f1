// G04: each pair in range is recorded exactly once
#include "near.hpp"
static bool in_range(const SylinderNearEP &a, const SylinderNearEP &b, double d) {
    return d - reff(a) - reff(b) < reff(a) * a.colBuf + reff(b) * b.colBuf;
}
static int count(const std::vector<ConstraintBlock> &v, int x, int y) {
    int n = 0;
    for (auto &b : v) n += (b.globalIndexI == x && b.globalIndexJ == y) || (b.globalIndexI == y && b.globalIndexJ == x);
    return n;
}
static const double C[3][3] = {{1, 2, 3}, {5, 5, 3}, {1, 2, 15}}; // distances 5, 12, 13
static SylinderNearEP part(int i, bool sph, int gid) {
    SylinderNearEP e = any_ep(gid, sph);
    e.globalIndex = i;
    for (int k = 0; k < 3; k++) { e.pos[k] = C[i][k]; e.direction[k] = k == i; }
    return e;
}
static double link(const SylinderNearEP &a, const SylinderNearEP &b) {
    vp_pair p; p.cA = Evec3(a.pos); p.cB = Evec3(b.pos); p.hA = Evec3(a.direction) * (0.5 * a.lengthCollision); p.hB = Evec3(b.direction) * (0.5 * b.lengthCollision);
    p.sA = p.sB = 0; p.ballA = sphere(a); p.ballB = sphere(b);
    if (sphere(a) && sphere(b)) p.d = (p.cA - p.cB).norm();
    else { p.d = vp_double("distance"); vp_assume(p.d >= 0); }
    p.P = p.cA; p.Q = p.cB;
    vp_pairs.push_back(p);
    return p.d;
}
static void two(bool sa, bool sb, int threads) {
    int ga = vp_i32("gidA"), gb = vp_i32("gidB");
    SylinderNearEP A = part(0, sa, ga), B = part(1, sb, gb);
    double d = link(A, B);
    SylinderNearEP t[2] = {A, B}, s[2] = {B, A};
    auto pool = std::make_shared<ConstraintBlockPool>(threads);
    CalcSylinderNearForce f(pool);
    ForceNear force[2];
    if (threads == 1) {
        int how = vp_choose("lists", 0, 3);
        if (how == 0) f(t, 2, t, 2, force);
        if (how == 1) f(t, 2, s, 2, force);
        if (how == 2) { f(t, 1, s, 2, force); f(t + 1, 1, t, 2, force); }
        if (how == 3) { f(t, 1, s, 1, force); f(t + 1, 1, t, 1, force); }
    } else {
        vp_threads(threads);
#pragma omp parallel for schedule(dynamic)
        for (int i = 0; i < 2; i++) { ForceNear g; f(t + i, 1, s, 2, &g); }
    }
    std::vector<ConstraintBlock> v;
    for (auto &q : *pool) for (auto &b : q) v.push_back(b);
    int want = ga != gb && in_range(A, B, d);
    vp_observe_i("recorded", v.size());
    vp_assert_eqi(v.size(), want, "one block for a pair of distinct particles in range, none otherwise");
    vp_assert_eqi(count(v, 0, 1), want, "the block joins the two particles");
    if (want) vp_reach("recorded"); else vp_reach("none");
}
VP_ENTRY(g04_ss) { two(true, true, 1); }
VP_ENTRY(g04_sr) { two(true, false, 1); }
VP_ENTRY(g04_rs) { two(false, true, 1); }
VP_ENTRY(g04_rr) { two(false, false, 1); }
VP_ENTRY(g04_threads) { two(vp_choose("shapeA", 0, 1), vp_choose("shapeB", 0, 1), 2); }
VP_ENTRY(g04_three) {
    SylinderNearEP p[3]; double d[3];
    static const int G[4][3] = {{1, 2, 3}, {7, -2, 0}, {5, 9, 5}, {4, 3, 2}};
    int g = vp_choose("ids", 0, 3);
    for (int i = 0; i < 3; i++) p[i] = part(i, vp_choose("sphere", 0, 1), G[g][i]);
    int k = 0; bool in[3];
    for (int i = 0; i < 3; i++) for (int j = i + 1; j < 3; j++, k++) d[k] = link(p[i], p[j]);
    SylinderNearEP s[3] = {p[2], p[0], p[1]};
    auto v = collect(p, 3, s, 3);
    k = 0; int tot = 0;
    for (int i = 0; i < 3; i++) for (int j = i + 1; j < 3; j++, k++) {
        int want = G[g][i] != G[g][j] && in_range(p[i], p[j], d[k]);
        tot += want;
        vp_assert_eqi(count(v, i, j), want, "each pair in range exactly once");
    }
    vp_assert_eqi(v.size(), tot, "no other blocks");
    vp_reach("three");
}

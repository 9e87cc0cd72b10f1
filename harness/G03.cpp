// G03: geometry of a recorded pair constraint
#include "near.hpp"
static void body(bool sa, bool sb) {
    SylinderNearEP A = any_ep(3, sa), B = any_ep(8, sb);
    Evec3 n; vp_pairs.push_back(place(A, B, n));
    vp_pair p = vp_pairs[0];
    int role = vp_choose("role", 0, 1); // 1: the particle of higher id is A in the geometry
    if (role) { A.gid = 8; B.gid = 3; }
    SylinderNearEP t[2] = {A, B};
    std::vector<ConstraintBlock> v = collect(role ? t + 1 : t, 1, role ? t : t + 1, 1);
    if (v.empty()) { vp_reach("out of range"); return; }
    vp_assert_eqi(v.size(), 1, "one block for the pair");
    ConstraintBlock b = v[0];
    if (b.gidI == B.gid) { // roles within the block are free
        vp_assert(b.gidJ == A.gid && b.globalIndexI == B.globalIndex && b.globalIndexJ == A.globalIndex, "ids and indices of both particles");
        b.reverseIJ();
        vp_assert(b.gidI == A.gid && b.gidJ == B.gid && b.globalIndexI == A.globalIndex && b.globalIndexJ == B.globalIndex, "reversing a block swaps ids and indices");
    }
    vp_assert((b.gidI == A.gid) & (b.gidJ == B.gid), "ids of the two particles");
    vp_assert((b.globalIndexI == A.globalIndex) & (b.globalIndexJ == B.globalIndex), "indices of the two particles");
    double sep = p.d - reff(A) - reff(B);
    vp_observe("delta0", b.delta0);
    vp_assert_eq(b.delta0, sep, "separation is the distance minus both radii");
    vp_assert_eq(b.gamma, sep < 0 ? -sep : 0, "initial multiplier is max(0,-separation)");
    vp_assert(!b.oneSide & !b.bilateral, "unilateral and two sided");
    for (int k = 0; k < 3; k++) {
        vp_assert_eq(b.normI[k], n[k], "normal of I is the unit vector from J's to I's closest point");
        vp_assert_eq(b.normJ[k], -n[k], "normal of J is opposite");
        vp_assert_eq(b.labI[k], p.P[k], "contact point on I in the laboratory frame");
        vp_assert_eq(b.labJ[k], p.Q[k], "contact point on J in the laboratory frame");
        vp_assert_eq(b.posI[k], p.P[k] - p.cA[k], "contact point relative to the centre of I");
        vp_assert_eq(b.posJ[k], p.Q[k] - p.cB[k], "contact point relative to the centre of J");
    }
    vp_reach("recorded");
}
VP_ENTRY(g03_ss) { body(true, true); }
VP_ENTRY(g03_sr) { body(true, false); }
VP_ENTRY(g03_rs) { body(false, true); }
VP_ENTRY(g03_rr) { body(false, false); }
// the tree particle is the full particle's copy
VP_ENTRY(g03_copy) {
    Sylinder s; double q[4];
    for (int k = 0; k < 4; k++) q[k] = vp_double("q");
    vp_assume_eq(q[0] * q[0] + q[1] * q[1] + q[2] * q[2] + q[3] * q[3], 1);
    for (int k = 0; k < 4; k++) s.orientation[k] = q[k];
    s.gid = vp_i32("gid"); s.globalIndex = vp_i32("index"); s.rank = vp_i32("rank");
    s.radius = vp_double("r"); s.length = vp_double("l"); s.radiusCollision = vp_double("rc"); s.lengthCollision = vp_double("lc"); s.colBuf = vp_double("buf");
    for (int k = 0; k < 3; k++) s.pos[k] = vp_double("pos");
    SylinderNearEP e; e.copyFromFP(s);
    vp_assert((e.getGid() == s.gid) & (e.getGlobalIndex() == s.globalIndex) & (e.rank == s.rank), "ids copied");
    vp_assert((e.radius == s.radius) & (e.length == s.length) & (e.radiusCollision == s.radiusCollision) & (e.lengthCollision == s.lengthCollision) & (e.colBuf == s.colBuf), "sizes copied");
    double z[3] = {2 * (q[0] * q[2] + q[1] * q[3]), 2 * (q[1] * q[2] - q[0] * q[3]), 1 - 2 * (q[0] * q[0] + q[1] * q[1])};
    auto g = e.getPos(); double gp[3] = {g.x, g.y, g.z};
    for (int k = 0; k < 3; k++) { vp_assert_eq(e.pos[k], s.pos[k], "position copied"); vp_assert_eq(gp[k], s.pos[k], "position published"); vp_assert_eq(e.direction[k], z[k], "direction is the rotated z axis"); }
    PS::F64vec3 np(vp_double("new"), vp_double("new"), vp_double("new")); e.setPos(np);
    vp_assert((e.pos[0] == np.x) & (e.pos[1] == np.y) & (e.pos[2] == np.z), "position set");
    vp_reach("copied");
}

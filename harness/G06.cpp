// G06: virial stress of a pair contact
#include "near.hpp"
// stress of one particle for the force f at x (relative to the centre c): c f^T + N [alpha x]^T with Gamma alpha = x cross f
static Emat3 one(const Evec3 &c, const Evec3 &x, const Evec3 &f, const Evec3 &dir, double h, double r) {
    // second moments of a spherocylinder of unit density: cylinder plus two half balls
    double across = M_PI * r * r * h * r * r / 4 + 2 * (2.0 * M_PI * r * r * r * r * r / 15 + 0);
    double along = M_PI * r * r * h * h * h / 12 + M_PI * h * h * r * r * r / 3 + M_PI * h * r * r * r * r / 2 + 4 * M_PI * r * r * r * r * r / 15;
    // half balls: their mass 2/3 pi r^3 contributes r^2/5 across the axis each
    Emat3 I = Emat3::Identity(), dd = dir * dir.transpose();
    Emat3 N = across * I + (along - across) * dd;
    Evec3 T = x.cross(f);
    Evec3 ax = dir * dir.dot(T);
    Evec3 alpha = (T - ax) / (across + along) + ax / (2 * across);
    Emat3 S = c * f.transpose();
    for (int i = 0; i < 3; i++)
        for (int l = 0; l < 3; l++) { Evec3 e(l == 0, l == 1, l == 2), w = alpha.cross(e); for (int j = 0; j < 3; j++) S(i, j) += N(i, l) * w[j]; }
    return S;
}
static void body(bool sa, bool sb, int mode = 0) {
    SylinderNearEP A = any_ep(3, sa), B = any_ep(8, sb);
    if (mode == 3) { // fixed sizes, everything else arbitrary
        static const double Z[4][4] = {{1, 2, 1, 2}, {0.5, 7, 1, 3}, {2, 4, 0.25, 10}, {0.125, 0.75, 0.125, 2.5}};
        int k = vp_choose("sizes", 0, 3);
        A.radiusCollision = Z[k][0]; A.lengthCollision = Z[k][1]; B.radiusCollision = Z[k][2]; B.lengthCollision = Z[k][3];
    }
    vp_zeroA = mode == 2; vp_zeroB = mode == 1;
    Evec3 n; vp_pairs.push_back(place(A, B, n));
    vp_pair p = vp_pairs[0];
    int role = vp_choose("role", 0, 1);
    if (role) { A.gid = 8; B.gid = 3; }
    SylinderNearEP t[2] = {A, B};
    std::vector<ConstraintBlock> v = collect(role ? t + 1 : t, 1, role ? t : t + 1, 1);
    if (v.empty()) return;
    Evec3 f = n; // unit force on A
    Evec3 dA(A.direction), dB(B.direction);
    Emat3 S = one(p.cA, p.P - p.cA, f, dA, sa ? 0 : A.lengthCollision, reff(A)) + one(p.cB, p.Q - p.cB, -f, dB, sb ? 0 : B.lengthCollision, reff(B));
    for (int i = 0; i < 3; i++)
        for (int j = 0; j < 3; j++) vp_assert_eq(v[0].stress[3 * i + j], S(i, j), "stress of the pair for a unit contact force");
    vp_reach("stress");
}
VP_ENTRY(g06_ss) { body(true, true); }
VP_ENTRY(g06_sr) { body(true, false); }
VP_ENTRY(g06_rs) { body(false, true); }
VP_ENTRY(g06_rr_a) { body(false, false, 1); }
VP_ENTRY(g06_rr_b) { body(false, false, 2); }
VP_ENTRY(g06_rr) { body(false, false, 3); }

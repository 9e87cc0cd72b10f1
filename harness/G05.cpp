// G05: the published search radius covers every contact in range
#include "near.hpp"
static void body(bool sa, bool sb) {
    SylinderNearEP A = any_ep(3, sa), B = any_ep(8, sb);
    Evec3 n; vp_pairs.push_back(place(A, B, n));
    vp_pair &p = vp_pairs[0];
    double RA = A.getRSearch(), RB = B.getRSearch();
    vp_observe("rsA", RA); vp_observe("rsB", RB);
    vp_assert_le(0.5 * A.lengthCollision + A.radiusCollision, RA, "search radius covers the particle itself");
    if (collect(&A, 1, &B, 1).empty()) return;
    // triangle inequality: centre distance <= |sA| L/2 + d + |sB| L/2
    double c12 = p.cA[0] - p.cB[0], c3 = 0; (void)c12; (void)c3;
    double reach = (sa ? 0 : 0.5 * A.lengthCollision) + (sb ? 0 : 0.5 * B.lengthCollision) + p.d;
    vp_assert_le(reach, RA < RB ? RB : RA, "centres of a pair in range are within the larger search radius");
    vp_reach("in range");
}
VP_ENTRY(g05_ss) { body(true, true); }
VP_ENTRY(g05_sr) { body(true, false); }
VP_ENTRY(g05_rr) { body(false, false); }

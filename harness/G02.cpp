// G02: point-segment distance
#include "vp.h"
#include "Util/EigenDef.hpp"
#include "Collision/DCPQuery.hpp"
static void in3(const char *n, Evec3 &v) { for (int i = 0; i < 3; i++) v[i] = vp_double(n); }
static void body(bool degenerate) {
    Evec3 q, a, b;
    in3("q", q); in3("a", a);
    if (degenerate) b = a; else in3("b", b);
    Evec3 p(0, 0, 0);
    double d = DistPointSeg<Evec3>(q, a, b, p);
    vp_observe("d", d);
    for (int i = 0; i < 3; i++) vp_observe("p", p[i]);
    // distance is the distance to the reported point
    Evec3 r = q - p;
    vp_assert_eq(d * d, r.dot(r), "distance equals distance to the reported point");
    vp_assert_le(0, d, "distance is non-negative");
    // point of the segment: p = a + t(b-a), 0<=t<=1  <=> p-a parallel to b-a and 0<=(p-a).(b-a)<=|b-a|^2
    Evec3 e = b - a, w = p - a;
    vp_assert_eq(w[0] * e[1], w[1] * e[0], "reported point on the line (xy)");
    vp_assert_eq(w[1] * e[2], w[2] * e[1], "reported point on the line (yz)");
    vp_assert_eq(w[0] * e[2], w[2] * e[0], "reported point on the line (xz)");
    vp_assert_le(0, w.dot(e), "reported point not before the start");
    vp_assert_le(w.dot(e), e.dot(e), "reported point not after the end");
    if (degenerate) for (int i = 0; i < 3; i++) vp_assert_eq(p[i], a[i], "degenerate segment: the reported point is the segment");
    // optimality (convex): moving towards either end point does not get closer
    vp_assert_le(r.dot(a - p), 0, "no point towards the start is closer");
    vp_assert_le(r.dot(b - p), 0, "no point towards the end is closer");
}
VP_ENTRY(g02_generic) { body(false); }
VP_ENTRY(g02_degenerate) { body(true); }

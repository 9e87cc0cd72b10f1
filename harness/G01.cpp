// G01: segment-segment distance.  The template is instantiated with an abstract vector type: coordinates in the basis
// (P1-P0, Q1-Q0, P0-Q0) with a symbolic Gram matrix, so that one run covers all segments of 3D space (every positive
// semidefinite Gram matrix is realised by vectors of R^3, which is what the native replay constructs).
#include "vp.h"
#include "Util/EigenDef.hpp"
#include "Collision/DCPQuery.hpp"
static double ga, gb, gc, gd, ge, gf; // Gram: a=e1.e1 b=e1.e2 c=e2.e2 d=e1.e3 e=e2.e3 f=e3.e3
struct AV {
    double c[3];
    double dot(const AV &o) const {
        return ga * c[0] * o.c[0] + gb * (c[0] * o.c[1] + c[1] * o.c[0]) + gc * c[1] * o.c[1] + gd * (c[0] * o.c[2] + c[2] * o.c[0]) + ge * (c[1] * o.c[2] + c[2] * o.c[1]) + gf * c[2] * o.c[2];
    }
    double squaredNorm() const { return dot(*this); }
    double norm() const { return std::sqrt(dot(*this)); }
    void normalize() { double n = norm(); for (double &x : c) x /= n; }
    AV operator-() const { return AV{{-c[0], -c[1], -c[2]}}; }
    AV &operator+=(const AV &o) { for (int i = 0; i < 3; i++) c[i] += o.c[i]; return *this; }
    AV &operator-=(const AV &o) { for (int i = 0; i < 3; i++) c[i] -= o.c[i]; return *this; }
    AV &operator*=(double s) { for (double &x : c) x *= s; return *this; }
};
static AV operator+(const AV &a, const AV &b) { return AV{{a.c[0] + b.c[0], a.c[1] + b.c[1], a.c[2] + b.c[2]}}; }
static AV operator-(const AV &a, const AV &b) { return AV{{a.c[0] - b.c[0], a.c[1] - b.c[1], a.c[2] - b.c[2]}}; }
static AV operator*(double s, const AV &a) { return AV{{s * a.c[0], s * a.c[1], s * a.c[2]}}; }
static AV operator*(const AV &a, double s) { return s * a; }
static AV operator/(const AV &a, double s) { return AV{{a.c[0] / s, a.c[1] / s, a.c[2] / s}}; }

// kind: 0 generic (both non-degenerate), 1 P degenerate, 2 Q degenerate, 3 both, 4 parallel (e2 = k e1)
static void body(int kind) {
    ga = gb = gc = gd = ge = gf = 0;
    double k = 0;
    gf = vp_double("f"); vp_assume(gf >= 0); vp_assume(gf <= 10000);
    if (kind == 0 || kind == 2 || kind == 4) { ga = vp_double("a"); gd = vp_double("d"); vp_assume(ga >= 0.01); vp_assume(ga <= 100); vp_assume(ga * gf - gd * gd >= 0); }
    if (kind == 0 || kind == 1) { gc = (kind == 0 && vp_choose("cfix", 0, 1)) ? 4.0 : vp_double("c"); ge = vp_double("e"); vp_assume(gc >= 0.01); vp_assume(gc <= 100); vp_assume(gc * gf - ge * ge >= 0); }
    if (kind == 0) {
        // f enters the distance only; any a..e with ac-b^2>0 is realised by vectors once f is large enough
        gb = vp_double("b"); if (vp_choose("bpos", 0, 1)) vp_assume(gb > 0); else vp_assume(gb <= 0);
        switch (vp_choose("region", 0, 3)) { // split of the input space for parallel work only
        case 0: vp_assume(gd >= 0); vp_assume(ge >= 0); break;
        case 1: vp_assume(gd < 0); vp_assume(ge >= 0); break;
        case 2: vp_assume(gd >= 0); vp_assume(ge < 0); break;
        default: vp_assume(gd < 0); vp_assume(ge < 0);
        }
        vp_assume(ga * gc - gb * gb > 0);
    }
    if (kind == 4) { k = vp_double("k"); vp_assume(k * k * ga >= 0.01); vp_assume(k * k * ga <= 100); gb = k * ga; gc = k * k * ga; ge = k * gd; }
    double s = -1, t = -1, dist;
    double r2; // squared distance between the reported points
    bool okP, okQ;
#ifdef VP_NATIVE
    typedef Evec3 V;
    // vectors with this Gram matrix (Cholesky, degenerate cases handled)
    Evec3 e1(0, 0, 0), e2(0, 0, 0), e3(0, 0, 0);
    double l11 = std::sqrt(ga), l21 = l11 > 0 ? gb / l11 : 0, l31 = l11 > 0 ? gd / l11 : 0;
    double q22 = gc - l21 * l21; double l22 = q22 > 1e-14 ? std::sqrt(q22) : 0, l32 = l22 > 0 ? (ge - l21 * l31) / l22 : 0;
    if (kind == 0) gf = std::max(gf, l31 * l31 + l32 * l32);
    double q33 = gf - l31 * l31 - l32 * l32; double l33 = q33 > 0 ? std::sqrt(q33) : 0;
    e1 << l11, 0, 0; e2 << l21, l22, 0; e3 << l31, l32, l33;
    Evec3 Q0(0.25, -0.5, 0.125), Q1 = Q0 + e2, P0 = Q0 + e3, P1 = P0 + e1, P(0, 0, 0), Q(0, 0, 0);
#else
    typedef AV V;
    AV Q0{{0, 0, 0}}, Q1{{0, 1, 0}}, P0{{0, 0, 1}}, P1{{1, 0, 1}}, P{{9, 9, 9}}, Q{{9, 9, 9}};
#endif
    DCPQuery<3, double, V> query;
    dist = query(P0, P1, Q0, Q1, P, Q, s, t);
    vp_observe("s", s); vp_observe("t", t); if (kind != 0) vp_observe("dist", dist);
    vp_assert_le(0, s, "s >= 0"); vp_assert_le(s, 1, "s <= 1"); vp_assert_le(0, t, "t >= 0"); vp_assert_le(t, 1, "t <= 1");
#ifdef VP_NATIVE
    Evec3 Ps = P0 + s * (P1 - P0), Qt = Q0 + t * (Q1 - Q0);
    for (int i = 0; i < 3; i++) { vp_assert_eq(P[i], Ps[i], "first point is the point at s"); vp_assert_eq(Q[i], Qt[i], "second point is the point at t"); }
    r2 = (P - Q).squaredNorm();
#else
    vp_assert_eq(P.c[0], s, "first point is the point at s"); vp_assert_eq(P.c[1], 0, "first point is the point at s"); vp_assert_eq(P.c[2], 1, "first point is the point at s");
    vp_assert_eq(Q.c[0], 0, "second point is the point at t"); vp_assert_eq(Q.c[1], t, "second point is the point at t"); vp_assert_eq(Q.c[2], 0, "second point is the point at t");
    AV w = P - Q; r2 = w.dot(w);
#endif
    vp_assume(r2 >= 0);
    vp_assert_le(0, dist, "distance non-negative");
    vp_assert_eq(dist * dist, r2, "distance is the distance of the reported points");
    // R(s,t) is convex on the unit square: (s,t) minimises it iff the derivative towards every corner is non-negative
    double Fs = ga * s - gb * t + gd, Gt = -gb * s + gc * t - ge;
    const double delta = 2e-6;
    // min over corners separates: min(0-s,1-s) and so on
    double slack0 = Fs * (0 - s), slack1 = Fs * (1 - s), slack2 = Gt * (0 - t), slack3 = Gt * (1 - t);
    vp_assert_le(-delta, slack0, "moving the first point back does not get closer");
    vp_assert_le(-delta, slack1, "moving the first point forward does not get closer");
    vp_assert_le(-delta, slack2, "moving the second point back does not get closer");
    vp_assert_le(-delta, slack3, "moving the second point forward does not get closer");
    vp_reach("end");
}
VP_ENTRY(g01_generic) { body(0); }
VP_ENTRY(g01_p_point) { body(1); }
VP_ENTRY(g01_q_point) { body(2); }
VP_ENTRY(g01_points) { body(3); }
VP_ENTRY(g01_parallel) { body(4); }

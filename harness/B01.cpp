// B01: projection on the analytic boundaries
#include "vp.h"
#include "Boundary/Boundary.cpp"
static void in3(const char *n, double *v) { for (int i = 0; i < 3; i++) v[i] = vp_double(n); }
static Evec3 V(const double *x) { return Evec3(x[0], x[1], x[2]); }
static void obs(const double *p, const double *d) { for (int i = 0; i < 3; i++) { vp_observe("proj", p[i]); vp_observe("delta", d[i]); } }
// delta is the true offset, up to the sign that turns it along n (n: any vector along the surface normal at P into the allowed side)
static void checkDelta(const Evec3 &q, const Evec3 &P, const Evec3 &d, const Evec3 &n, bool allowed) {
    double sg = allowed ? 1 : -1;
    for (int i = 0; i < 3; i++) vp_assert_eq(d[i], sg * (q[i] - P[i]), "delta is the offset between query and projection with the sign of its side");
    vp_assert_le(0, d.dot(n), "delta points into the allowed region");
}
VP_ENTRY(b01_sphere) {
    double c[3], q[3], p[3] = {7, 7, 7}, d[3] = {7, 7, 7};
    in3("c", c); in3("q", q);
    double r = vp_double("r"); vp_assume(r > 0);
    bool inside = vp_choose("inside", 0, 1);
    Evec3 w = V(q) - V(c); double w2 = w.dot(w); vp_assume(w2 > 0);
    SphereShell b(c, r, inside);
    b.project(q, p, d); obs(p, d);
    Evec3 u = V(p) - V(c);
    vp_assert_eq(u.dot(u), r * r, "projection lies on the sphere");
    for (int i = 0; i < 3; i++) vp_assert_eq(u[i] * w[(i + 1) % 3], u[(i + 1) % 3] * w[i], "projection along the ray through the query");
    vp_assert_lt(0, u.dot(w), "projection on the side of the query (nearest, not farthest)");
    bool allowed = inside ? w2 <= r * r : w2 > r * r;
    checkDelta(V(q), V(p), V(d), inside ? Evec3(-u) : u, allowed);
    vp_reach("sphere");
}
VP_ENTRY(b01_wall) {
    double c[3], n[3], q[3], p[3] = {7, 7, 7}, d[3] = {7, 7, 7};
    in3("c", c); in3("n", n); in3("q", q);
    Evec3 N = V(n); vp_assume(N.dot(N) > 0);
    Wall b(c, n);
    b.project(q, p, d); obs(p, d);
    Evec3 P = V(p), w = V(q) - V(c);
    vp_assert_eq((P - V(c)).dot(N), 0, "projection lies on the plane");
    Evec3 o = V(q) - P;
    for (int i = 0; i < 3; i++) vp_assert_eq(o[i] * N[(i + 1) % 3], o[(i + 1) % 3] * N[i], "offset perpendicular to the plane (nearest point)");
    checkDelta(V(q), P, V(d), N, w.dot(N) >= 0);
    vp_reach("wall");
}
// query = centre + w; axis = k * n with a unit vector n: every non-zero axis.  The nearest point of the tube is known in
// closed form: with rho the component of w across the axis it is centre + (w.n) n + r rho/|rho|.
static void tube(bool scaled) {
    double c[3], a[3], q[3], w[3], p[3] = {7, 7, 7}, d[3] = {7, 7, 7}, k = 1;
    double n[3]; in3("n", n); vp_assume_eq(n[0] * n[0] + n[1] * n[1] + n[2] * n[2], 1);
    if (scaled) { k = vp_double("k"); vp_assume(k > 0); }
    in3("c", c); in3("w", w);
    for (int i = 0; i < 3; i++) { q[i] = c[i] + w[i]; a[i] = k * n[i]; }
    double r = vp_double("r"); vp_assume(r > 0);
    bool inside = vp_choose("inside", 0, 1);
    Evec3 N = V(n), W = V(w);
    double t = W.dot(N); Evec3 rho = W - t * N; double r2 = rho.dot(rho);
    double len = std::sqrt(r2); vp_assume(len > 0); // off the axis
    Tube b(c, a, r, inside);
    b.project(q, p, d); obs(p, d);
    bool allowed = inside ? len <= r : len > r;
    double sg = allowed ? 1 : -1; // delta = +-(query - projection), turned into the allowed region
    for (int i = 0; i < 3; i++) {
        double ref = c[i] + t * n[i] + r * (rho[i] / len);
        vp_assert_eq(p[i], ref, "projection is the nearest point of the tube");
        vp_assert_eq(d[i], sg * (q[i] - p[i]), "delta is the offset between query and projection with the sign of its side");
        vp_assert_eq(d[i] * len, (inside ? -1 : 1) * (len > r ? len - r : r - len) * rho[i], "delta points into the allowed region");
    }
    vp_reach("tube");
}
VP_ENTRY(b01_tube_unit) { tube(false); }
VP_ENTRY(b01_tube_axis) { tube(true); }

// F02: box predicates
#include "vp.h"
#include "FDPS/particle_simulator.hpp"
namespace PS = ParticleSimulator;
typedef PS::F64vec V; typedef PS::F64ort Box;
static V in(const char *n) { double x = vp_double(n), y = vp_double(n), z = vp_double(n); return V(x, y, z); }
static Box box(const char *l, const char *h) { V a = in(l), b = in(h); vp_assume(a.x <= b.x); vp_assume(a.y <= b.y); vp_assume(a.z <= b.z); return Box(a, b); }
static double gap(double al, double ah, double bl, double bh) { double d1 = al - bh, d2 = bl - ah; double d = d1 > d2 ? d1 : d2; return d > 0 ? d : 0; }
VP_ENTRY(f02_boxbox) {
    Box a = box("al", "ah"), b = box("bl", "bh");
    double dx = gap(a.low_.x, a.high_.x, b.low_.x, b.high_.x), dy = gap(a.low_.y, a.high_.y, b.low_.y, b.high_.y), dz = gap(a.low_.z, a.high_.z, b.low_.z, b.high_.z);
    double d = a.getDistanceMinSQ(b);
    vp_assert_eq(d, dx * dx + dy * dy + dz * dz, "squared distance of two boxes is the sum of the squared gaps");
    vp_assert_eq(b.getDistanceMinSq(a), d, "box distance is symmetric");
    bool ov = a.overlapped(b) != 0;
    vp_assert(ov == (dx == 0 && dy == 0 && dz == 0), "overlap exactly when the distance is zero");
    vp_assert((a.notOverlapped(b) != 0) == !ov, "notOverlapped is the negation");
    vp_reach("boxbox");
}
VP_ENTRY(f02_boxpoint) {
    Box a = box("al", "ah"); V p = in("p");
    double dx = gap(a.low_.x, a.high_.x, p.x, p.x), dy = gap(a.low_.y, a.high_.y, p.y, p.y), dz = gap(a.low_.z, a.high_.z, p.z, p.z);
    double d = a.getDistanceMinSQ(p);
    vp_assert_eq(d, dx * dx + dy * dy + dz * dz, "squared distance of box and point is the sum of the squared gaps");
    vp_assert_eq(a.getDistanceMinSq(p), d, "both spellings agree");
    vp_assert((a.overlapped(p) != 0) == (dx == 0 && dy == 0 && dz == 0), "a point overlaps the closed box exactly when its distance is zero");
    bool in = p.x >= a.low_.x && p.x < a.high_.x && p.y >= a.low_.y && p.y < a.high_.y && p.z >= a.low_.z && p.z < a.high_.z;
    vp_assert((a.contained(p) != 0) == in, "a point is contained exactly when every coordinate is in the half-open interval");
    vp_assert((a.notContained(p) != 0) == !in, "notContained is the negation");
    vp_reach("boxpoint");
}
static double mn(double a, double b) { return a < b ? a : b; }
static double mx(double a, double b) { return a > b ? a : b; }
static void same(const Box &r, V lo, V hi) {
    vp_assert_eq(r.low_.x, lo.x, "merge low x"); vp_assert_eq(r.low_.y, lo.y, "merge low y"); vp_assert_eq(r.low_.z, lo.z, "merge low z");
    vp_assert_eq(r.high_.x, hi.x, "merge high x"); vp_assert_eq(r.high_.y, hi.y, "merge high y"); vp_assert_eq(r.high_.z, hi.z, "merge high z");
}
VP_ENTRY(f02_merge) {
    Box a = box("al", "ah"), b = box("bl", "bh"); V p = in("p"); double s = vp_double("s"); vp_assume(s >= 0);
    Box m = a; m.merge(b);
    same(m, V(mn(a.low_.x, b.low_.x), mn(a.low_.y, b.low_.y), mn(a.low_.z, b.low_.z)), V(mx(a.high_.x, b.high_.x), mx(a.high_.y, b.high_.y), mx(a.high_.z, b.high_.z)));
    Box q = a; q.merge(p);
    same(q, V(mn(a.low_.x, p.x), mn(a.low_.y, p.y), mn(a.low_.z, p.z)), V(mx(a.high_.x, p.x), mx(a.high_.y, p.y), mx(a.high_.z, p.z)));
    Box t = a; t.merge(p, s);
    same(t, V(mn(a.low_.x, p.x - s), mn(a.low_.y, p.y - s), mn(a.low_.z, p.z - s)), V(mx(a.high_.x, p.x + s), mx(a.high_.y, p.y + s), mx(a.high_.z, p.z + s)));
    Box e; e.init(); // empty box is neutral for points of moderate size
    vp_assume(p.x > -1e30); vp_assume(p.x < 1e30); vp_assume(p.y > -1e30); vp_assume(p.y < 1e30); vp_assume(p.z > -1e30); vp_assume(p.z < 1e30);
    e.merge(p); same(e, p, p);
    V c = a.getCenter(), h = a.getHalfLength(), f = a.getFullLength(); V d = in("d"); Box sh = a.shift(d);
    same(Box(c - h, c + h), a.low_, a.high_); same(Box(c - h, c - h + f), a.low_, a.high_); same(sh, a.low_ + d, a.high_ + d);
    vp_reach("merge");
}

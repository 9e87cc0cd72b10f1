// S01: periodic wrapping and nearest image
#include "vp.h"
#include "Util/GeoUtil.hpp"
#ifndef VP_FP
// every position is lb + (k + f) L with a whole number k of boxes and 0 <= f < 1
static void box(double &lb, double &ub, double &L) { lb = vp_double("low"); L = vp_double("length"); vp_assume(L > 0); ub = lb + L; }
static double frac(const char *n) { double f = vp_double(n); vp_assume((f >= 0) & (f < 1)); return f; }
// replaying with rounded numbers: positions on a face may go either way
static bool edge(double f) { return !vp_is_symbolic() && (f < 1e-9 || f > 1 - 1e-9); }
static void wrap(double lb, double ub, double L, bool exact) {
    int k = vp_choose("boxes", -VP_K, VP_K); double f = frac("fraction");
    if (!exact && edge(f)) return;
    double x = lb + (k + f) * L, lb0 = lb, ub0 = ub;
    findPBCImage(lb, ub, x);
    vp_assert_eq(x, lb + f * L, "wrapped position is the image in [low, high)");
    vp_assert_eq(lb, lb0, "the box is unchanged"); vp_assert_eq(ub, ub0, "the box is unchanged");
    vp_reach("wrapped");
}
VP_ENTRY(s01_wrap) { double lb, ub, L; box(lb, ub, L); wrap(lb, ub, L, false); }
VP_ENTRY(s01_unit) { wrap(0, 1, 1, true); }
VP_ENTRY(s01_nearest) {
    double lb, ub, L; box(lb, ub, L);
    int k = vp_choose("boxes", -VP_K2, VP_K2), kt = vp_choose("target_boxes", -VP_K2, VP_K2);
    double f = frac("fraction"), ft = frac("target_fraction");
    if (edge(f) || edge(ft)) return;
    double x = lb + (k + f) * L, trg = lb + (kt + ft) * L;
    findPBCImage(lb, ub, x, trg);
    vp_assert_eq(trg, lb + ft * L, "the target is wrapped into the box");
    double m = (x - lb) - f * L; // whole number of boxes between the image and the original position
    vp_assert((std::fabs(m) <= 1e-9 * L) | (std::fabs(m - L) <= 1e-9 * L) | (std::fabs(m + L) <= 1e-9 * L), "the image differs by a whole number of boxes");
    vp_assert_le(x - trg, 0.5 * L, "no image is nearer"); vp_assert_le(trg - x, 0.5 * L, "no image is nearer");
    vp_reach("nearest");
}
#else
static double bounded(const char *n, double m) { double x = vp_double(n); vp_assume((x >= -m) & (x <= m)); return x; }
// fixed boxes, every double within two box lengths
VP_ENTRY(s01_fp) {
    const double B[4][2] = {{0, 1}, {-0.3, 0.1}, {1.1, 17.3}, {-5, -1.7}};
    int b = vp_choose("box", 0, 3);
    const double lb = B[b][0], ub = B[b][1], L = ub - lb;
    double x = vp_double("x"); vp_assume((x >= lb - L) & (x <= ub + L));
    findPBCImage(lb, ub, x);
    vp_assert((x >= lb) & (x < ub), "the wrapped position is in the half-open box, with rounding");
    vp_reach("fp");
}
#endif

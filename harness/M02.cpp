// M02: drag coefficients
#include "vp.h"
#include "Sylinder/Sylinder.cpp"
static const double PI = 3.14159265358979323846;
VP_ENTRY(m02_sphere) {
    Sylinder sy;
    double L = vp_double("L"), R = vp_double("R"), mu = vp_double("mu"), a, b, c;
    vp_assume(R > 0); vp_assume(L >= 0); vp_assume(mu > 0); vp_assume(L < 2 * R);
    sy.length = L; sy.radius = R; sy.lengthCollision = 100; sy.radiusCollision = 1;
    vp_assert(sy.isSphere(), "length below the diameter is a sphere");
    sy.calcDragCoeff(mu, a, b, c);
    vp_observe("para", a); vp_observe("perp", b); vp_observe("rot", c);
    double re = R + L / 2;
    vp_assert_eq(a, 6 * PI * mu * re, "Stokes translation drag"); vp_assert_eq(b, a, "isotropic drag"); vp_assert_eq(c, 8 * PI * mu * re * re * re, "Stokes rotation drag");
    vp_assert_lt(0, a, "positive"); vp_assert_lt(0, c, "positive rotation drag");
    vp_reach("sphere");
}
VP_ENTRY(m02_rod) {
    Sylinder sy;
    double L = vp_double("L"), R = vp_double("R"), mu = vp_double("mu"), a, b, c, a2, b2, c2;
    vp_assume(R > 0); vp_assume(mu > 0); vp_assume(L >= 2 * R);
    sy.length = L; sy.radius = R; sy.lengthCollision = 0; sy.radiusCollision = 1;
    vp_assert(!sy.isSphere(), "length not below the diameter is a rod");
    sy.calcDragCoeff(mu, a, b, c);
    vp_observe("para", a); vp_observe("perp", b); vp_observe("rot", c);
    // slender body theory: beta = -(1 + 2 ln(R/L)), para = 8 pi mu L / (2 beta), perp = 8 pi mu L / (beta + 2), rot = 2 pi mu L^3 / (3 (beta + 2))
    double lg = std::log(R / L);
    vp_assume(lg <= -0.69314718); // L >= 2R; log is uninterpreted in the solver: this instance of monotonicity is all that is needed
    double beta = -(1 + 2 * lg);
    vp_assert_lt(0, a, "positive parallel drag"); vp_assert_lt(0, b, "positive perpendicular drag"); vp_assert_lt(0, c, "positive rotation drag");
    vp_assert_eq(a * 2 * beta, 8 * PI * mu * L, "parallel drag of slender body theory");
    vp_assert_eq(b * (beta + 2), 8 * PI * mu * L, "perpendicular drag of slender body theory");
    vp_assert_eq(c * 3 * (beta + 2), 2 * PI * mu * L * L * L, "rotation drag of slender body theory");
    sy.calcDragCoeff(3 * mu, a2, b2, c2);
    vp_assert_eq(a2, 3 * a, "proportional to viscosity"); vp_assert_eq(b2, 3 * b, "proportional to viscosity"); vp_assert_eq(c2, 3 * c, "proportional to viscosity");
    vp_reach("rod");
}
VP_ENTRY(m02_isphere) {
    Sylinder sy;
    sy.length = vp_double("L"); sy.radius = vp_double("R"); sy.lengthCollision = vp_double("Lc"); sy.radiusCollision = vp_double("Rc");
    vp_assert(sy.isSphere() == (sy.length < 2 * sy.radius), "sphere by physical size"); 
    vp_assert(sy.isSphere(false) == (sy.length < 2 * sy.radius), "sphere by physical size");
    vp_assert(sy.isSphere(true) == (sy.lengthCollision < 2 * sy.radiusCollision), "sphere by collision size");
    vp_reach("isphere");
}

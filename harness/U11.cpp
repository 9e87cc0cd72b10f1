// U11: random unit quaternions
#include "vp.h"
#include "Util/EquatnHelper.hpp"
VP_ENTRY(u11) {
    double u1 = vp_double("u1"), u2 = vp_double("u2"), u3 = vp_double("u3");
    vp_assume(u1 >= 0 && u1 < 1); vp_assume(u2 >= 0 && u2 < 1); vp_assume(u3 >= 0 && u3 < 1);
    Equatn q(3, 3, 3, 3);
    EquatnHelper::setUnitRandomEquatn(q, u1, u2, u3);
    double w = q.w(), x = q.x(), y = q.y(), z = q.z();
    vp_observe("w", w); vp_observe("x", x); vp_observe("y", y); vp_observe("z", z);
    vp_assert_eq(w * w + x * x + y * y + z * z, 1, "unit quaternion");
    // Shoemake's map: one pair has squared length 1-u1 and phase 2 pi u2, the other u1 and 2 pi u3
    const double tp = 2 * 3.14159265358979323846;
    double a = std::sqrt(1 - u1), b = std::sqrt(u1);
    vp_assert_eq(w, a * std::sin(tp * u2), "w"); vp_assert_eq(x, a * std::cos(tp * u2), "x");
    vp_assert_eq(y, b * std::sin(tp * u3), "y"); vp_assert_eq(z, b * std::cos(tp * u3), "z");
    vp_reach("end");
}

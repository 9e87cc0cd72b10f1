// M03: quaternion update, Euler step, clear
#include "vp.h"
#include "Sylinder/Sylinder.cpp"
static void in3(const char *n, double *v) { for (int i = 0; i < 3; i++) v[i] = vp_double(n); }
static void inq(double *q) { for (int i = 0; i < 4; i++) q[i] = vp_double("q"); vp_assume_eq(q[0] * q[0] + q[1] * q[1] + q[2] * q[2] + q[3] * q[3], 1); }
// product a*b of quaternions stored as x,y,z,w
static void qmul(const double *a, const double *b, double *r) {
    r[3] = a[3] * b[3] - a[0] * b[0] - a[1] * b[1] - a[2] * b[2];
    r[0] = a[3] * b[0] + b[3] * a[0] + a[1] * b[2] - a[2] * b[1];
    r[1] = a[3] * b[1] + b[3] * a[1] + a[2] * b[0] - a[0] * b[2];
    r[2] = a[3] * b[2] + b[3] * a[2] + a[0] * b[1] - a[1] * b[0];
}
static void rot(bool viaStep) {
    double q[4], w[3], v[3] = {0, 0, 0}, x[3] = {0, 0, 0};
    inq(q); in3("omega", w);
    double dt = vp_double("dt");
    double wn2 = w[0] * w[0] + w[1] * w[1] + w[2] * w[2];
    double wn = std::sqrt(wn2);
    double c = std::cos(wn * dt / 2), s = std::sin(wn * dt / 2);
    double o[4];
    if (viaStep) {
        in3("vel", v); in3("pos", x);
        Sylinder sy(3, 1, 1, 1, 1, x, q);
        for (int i = 0; i < 3; i++) { sy.vel[i] = v[i]; sy.omega[i] = w[i]; }
        sy.stepEuler(dt);
        for (int i = 0; i < 3; i++) { vp_assert_eq(sy.pos[i], x[i] + v[i] * dt, "position advances by velocity times dt"); vp_assert_eq(sy.vel[i], v[i], "velocity unchanged"); vp_assert_eq(sy.omega[i], w[i], "angular velocity unchanged"); }
        for (int i = 0; i < 4; i++) o[i] = sy.orientation[i];
    } else {
        Equatn e(q[3], q[0], q[1], q[2]);
        EquatnHelper::rotateEquatn(e, Evec3(w[0], w[1], w[2]), dt);
        o[0] = e.x(); o[1] = e.y(); o[2] = e.z(); o[3] = e.w();
    }
    for (int i = 0; i < 4; i++) vp_observe("q", o[i]);
    if (wn2 < 1e-8 * 1e-8) { // treated as no rotation (float epsilon threshold is 1.2e-7)
        for (int i = 0; i < 4; i++) vp_assert_eq(o[i], q[i], "no rotation for zero angular velocity");
        vp_reach("still");
    } else if (wn2 > 2e-7 * 2e-7) {
        double r[4] = {s / wn * w[0], s / wn * w[1], s / wn * w[2], c}, e[4];
        qmul(r, q, e);
        vp_assert_eq(o[0] * o[0] + o[1] * o[1] + o[2] * o[2] + o[3] * o[3], 1, "orientation stays a unit quaternion");
        for (int i = 0; i < 4; i++) vp_assert_eq(o[i], e[i], "orientation is the rotation vector composed with the old orientation");
        vp_reach("rotated");
    }
}
VP_ENTRY(m03_rotate) { rot(false); }
VP_ENTRY(m03_step) { rot(true); }
VP_ENTRY(m03_clear) {
    Sylinder sy;
    double *f[] = {sy.vel, sy.omega, sy.velCol, sy.omegaCol, sy.velBi, sy.omegaBi, sy.velNonB, sy.omegaNonB, sy.force, sy.torque, sy.forceCol, sy.torqueCol, sy.forceBi, sy.torqueBi, sy.forceNonB, sy.torqueNonB, sy.velBrown, sy.omegaBrown};
    for (double *p : f) for (int i = 0; i < 3; i++) p[i] = vp_double("x");
    double pos[3]; in3("pos", pos);
    for (int i = 0; i < 3; i++) sy.pos[i] = pos[i];
    sy.gid = 5; sy.length = vp_double("L"); double L = sy.length;
    sy.clear();
    for (double *p : f) for (int i = 0; i < 3; i++) vp_assert_eq(p[i], 0, "every velocity, force and torque component is cleared");
    for (int i = 0; i < 3; i++) vp_assert_eq(sy.pos[i], pos[i], "position kept");
    vp_assert_eq(sy.length, L, "length kept"); vp_assert_eqi(sy.gid, 5, "id kept");
    vp_reach("clear");
}

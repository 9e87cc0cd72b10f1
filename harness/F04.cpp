// F04: positions are moved into the root domain
#include "vp.h"
#include "FDPS/particle_simulator.hpp"
namespace PS = ParticleSimulator;
struct P {
    PS::F64vec pos; double other;
    PS::F64vec getPos() const { return pos; }
    void setPos(const PS::F64vec &p) { pos = p; }
};
static const PS::BOUNDARY_CONDITION BC[8] = {PS::BOUNDARY_CONDITION_OPEN, PS::BOUNDARY_CONDITION_PERIODIC_X, PS::BOUNDARY_CONDITION_PERIODIC_Y, PS::BOUNDARY_CONDITION_PERIODIC_XY, PS::BOUNDARY_CONDITION_PERIODIC_Z, PS::BOUNDARY_CONDITION_PERIODIC_XZ, PS::BOUNDARY_CONDITION_PERIODIC_YZ, PS::BOUNDARY_CONDITION_PERIODIC_XYZ};
static double far(double x) { return (x > -1e30) & (x < 1e30); }
#ifndef VP_FP
static void adjust(int n, int threads) {
    vp_threads(threads);
    int bc = vp_choose("boundary", 0, 7);
    double lo[3], hi[3], L[3];
    for (int k = 0; k < 3; k++) { lo[k] = vp_double("low"); L[k] = vp_double("length"); vp_assume((L[k] > 0) & (L[k] < 1e20) & (lo[k] > -1e20) & (lo[k] < 1e20)); hi[k] = lo[k] + L[k]; }
    PS::DomainInfo d; d.initialize();
    d.setBoundaryCondition(BC[bc]);
    bool pa[3]; d.getPeriodicAxis(pa);
    for (int k = 0; k < 3; k++) vp_assert(pa[k] == (bool)(bc >> k & 1), "periodic directions");
    d.setPosRootDomain(PS::F64vec(lo[0], lo[1], lo[2]), PS::F64vec(hi[0], hi[1], hi[2]));
    PS::ParticleSystem<P> s; s.initialize(4); s.setNumberOfParticleLocal(n);
    std::vector<std::vector<double>> want(n, std::vector<double>(3)), start = want;
    std::vector<double> other(n);
    for (int i = 0; i < n; i++) {
        double x[3];
        for (int k = 0; k < 3; k++) {
            if (bc >> k & 1) { int m = i ? vp_choose("whole", -1, 0) : vp_choose("whole", -1, 1); double f = vp_double("fraction"); vp_assume((f >= 0) & (f < 1)); want[i][k] = lo[k] + f * L[k]; x[k] = want[i][k] + m * L[k]; }
            else { x[k] = want[i][k] = vp_double("pos"); vp_assume(far(x[k])); }
        }
        other[i] = vp_double("other");
        s[i].pos = PS::F64vec(x[0], x[1], x[2]); s[i].other = other[i];
    }
    s.adjustPositionIntoRootDomain(d);
    vp_assert_eqi(s.getNumberOfParticleLocal(), n, "no particle is lost");
    for (int i = 0; i < n; i++) {
        for (int k = 0; k < 3; k++) {
            if (bc >> k & 1) {
                const double rel = (want[i][k] - lo[k]) / L[k]; // replaying with rounded numbers: a face may go either way
                if (vp_is_symbolic() || (rel > 1e-9 && rel < 1 - 1e-9)) vp_assert_eq(s[i].pos[k], want[i][k], "the image inside the box");
            }
            else vp_assert_eq(s[i].pos[k], want[i][k], "directions that are not periodic are unchanged");
        }
        vp_assert_eq(s[i].other, other[i], "nothing else changes");
    }
    vp_reach("adjusted");
}
VP_ENTRY(f04_one) { adjust(1, 1); }
VP_ENTRY(f04_threads) { adjust(2, 2); }
#else
// fixed boxes, every double within one box length
VP_ENTRY(f04_fp) {
    const double B[5][2] = {{0, 1}, {-0.3, 0.1}, {1.1, 17.3}, {-5, -1.7}, {0.1, 0.7}};
    int b = vp_choose("box", 0, 4);
    const double lb = B[b][0], ub = B[b][1], L = ub - lb;
    PS::DomainInfo d; d.initialize(); d.setBoundaryCondition(PS::BOUNDARY_CONDITION_PERIODIC_X);
    d.setPosRootDomain(PS::F64vec(lb, 0, 0), PS::F64vec(ub, 1, 1));
    PS::ParticleSystem<P> s; s.initialize(4); s.setNumberOfParticleLocal(1);
    double x = vp_double("x");
    switch (vp_choose("side", 0, 2)) {
    case 0: vp_assume((x >= lb - L) & (x < lb)); break;
    case 1: vp_assume((x >= lb) & (x < ub)); break;
    default: vp_assume((x >= ub) & (x <= ub + L));
    }
    s[0].pos = PS::F64vec(x, 5, -5);
    s.adjustPositionIntoRootDomain(d);
    double y = s[0].pos[0];
    vp_assert((y >= lb) & (y < ub), "the position is in the half-open box, with rounding");
    if ((x >= lb) & (x < ub)) vp_assert(x == y, "positions in the box stay");
    vp_reach("fp");
}
#endif

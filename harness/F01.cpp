// F01: Morton keys
#include "vp.h"
#include "FDPS/particle_simulator.hpp"
namespace PS = ParticleSimulator;
typedef uint64_t u64;
// position with integer cell coordinate n (of 2^21 per side) and fraction f inside that cell: every position of the root cell
static double coord(double c, double h, uint32_t n, double f) { return c - h + 2 * h * ((double(n) + f) / 2097152.0); }
static uint32_t cell(const char *nm) { uint32_t n = vp_u32(nm); vp_assume(n < 2097152u); return n; }
static double frac(const char *nm) { double f = vp_double(nm); vp_assume(f >= 0); vp_assume(f < 1); return f; }
static PS::F64vec C; static double H;
static void root() {
    C = PS::F64vec(vp_double("cx"), vp_double("cy"), vp_double("cz")); H = vp_double("h"); vp_assume(H > 0);
    PS::MortonKey::initialize(H, C);
}
static PS::F64vec P(const uint32_t *n, const double *f) { return PS::F64vec(coord(C.x, H, n[0], f[0]), coord(C.y, H, n[1], f[1]), coord(C.z, H, n[2], f[2])); }
VP_ENTRY(f01_digits) {
    root();
    uint32_t n[3]; double f[3];
    for (int i = 0; i < 3; i++) { n[i] = cell("n"); f[i] = frac("f"); }
    u64 key = PS::MortonKey::getKey(P(n, f));
    for (int lev = 1; lev <= 21; lev++) {
        uint32_t oct = ((n[0] >> (21 - lev)) & 1) * 4 + ((n[1] >> (21 - lev)) & 1) * 2 + ((n[2] >> (21 - lev)) & 1);
        vp_assert_eqi(PS::MortonKey::getCellID(lev, key), oct, "digit of the key at each level is the octant of the position at that level");
    }
    vp_assert_eqi(key >> 63, 0, "most significant bit is zero");
    vp_reach("digits");
}
VP_ENTRY(f01_prefix) {
    root();
    uint32_t n[3], m[3]; double f[3], g[3];
    for (int i = 0; i < 3; i++) { n[i] = cell("n"); f[i] = frac("f"); m[i] = cell("m"); g[i] = frac("g"); }
    u64 a = PS::MortonKey::getKey(P(n, f)), b = PS::MortonKey::getKey(P(m, g));
    int lev = vp_choose("lev", 0, 21), s = 21 - lev;
    bool same = (n[0] >> s) == (m[0] >> s) && (n[1] >> s) == (m[1] >> s) && (n[2] >> s) == (m[2] >> s);
    bool prefix = (a >> (3 * s)) == (b >> (3 * s));
    vp_assert(same == prefix, "two positions share a cell of a level exactly when their keys share the prefix of that level");
    if (lev == 21) vp_reach("leaf");
}

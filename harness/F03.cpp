// F03: radix sort of tree particles
#include "vp.h"
#include "FDPS/particle_simulator.hpp"
namespace PS = ParticleSimulator;
template <class T> struct Obj { T key; int tag; T getKey() const { return key; } };
template <class T, int NBIT> static void run(int n, int threads, T (*in)(const char *)) {
    vp_threads(threads);
    PS::RadixSort<T, NBIT> rs;
    Obj<T> v[5], buf[5], v0[5];
    for (int i = 0; i < n; i++) { v[i].key = in("key"); v[i].tag = i; v0[i] = v[i]; buf[i].key = 0; buf[i].tag = -1; }
    rs.lsdSort(v, buf, 0, n - 1);
    bool seen[5] = {0};
    for (int i = 0; i < n; i++) {
        vp_assert(v[i].tag >= 0 && v[i].tag < n, "one of the inputs");
        const int k = vp_concretize(v[i].tag);
        vp_assert(!seen[k], "nothing is duplicated"); seen[k] = true;
        vp_assert(v[i].key == v0[k].key, "keys and particles stay together");
        if (i > 0) {
            vp_assert(v[i - 1].key <= v[i].key, "keys ascend");
            vp_assert(v[i - 1].tag < v[i].tag || v[i - 1].key < v[i].key, "equal keys keep their order");
        }
    }
    vp_reach(n == 0 ? "empty" : "sorted");
}
// few bits, in different digits, when every address is followed separately
static uint8_t two(const char *n) { uint8_t k = vp_u8(n); vp_assume((k & ~0x12) == 0); return k; }
static uint64_t wide(const char *n) { uint64_t k = vp_u64(n); vp_assume((k & ~0x8000000080000080ull) == 0); return k; }
VP_ENTRY(f03_even) { run<uint8_t, 2>(vp_choose("n", 0, VP_N), 1, vp_u8); }
VP_ENTRY(f03_odd) { run<uint8_t, 3>(vp_choose("n", 0, VP_N), 1, vp_u8); }
VP_ENTRY(f03_wide) { run<uint64_t, 8>(2, 1, wide); }
VP_ENTRY(f03_threads) { int t = vp_choose("threads", 2, 3); run<uint8_t, 4>(vp_choose("n", 0, t), t, two); }

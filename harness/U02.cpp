// U02: point distribution, collection and generation
#include "vp.h"
#include <cmath>
#include <random>
#include <vector>
#include <string>
#include <cstdio>
#include <mpi.h>
#include <omp.h>
// random engine stand-in: every draw of a uniform or a standard normal is an arbitrary value of its range
namespace std { struct vp_mt19937 {
    using result_type = uint64_t;
    explicit vp_mt19937(uint64_t = 0) {}
    static constexpr result_type min() { return 0; }
    static constexpr result_type max() { return ~(uint64_t)0; }
    result_type operator()() { return vp_u64("bits"); }
};
template <> inline double generate_canonical<double, 53, vp_mt19937>(vp_mt19937 &) { double u = vp_double("uniform"); vp_assume(u >= 0); vp_assume(u < 1); return u; }
template <> template <> inline double normal_distribution<double>::operator()<vp_mt19937>(vp_mt19937 &, const param_type &p) { return vp_double("normal") * p.stddev() + p.mean(); }
}
#define mt19937 vp_mt19937
#include "Util/PointDistribution.cpp"
#undef mt19937
static void roundtrip(int nr, int dim, int mx, int extra) {
    std::vector<double> pts; int n = vp_choose("points", 0, mx);
    for (int i = 0; i < n * dim + extra; i++) pts.push_back(vp_double("x"));
    std::vector<std::vector<double>> part(nr), back(nr), all(nr);
    vp_run_ranks(nr, [&](int me) {
        std::vector<double> p = me == 0 ? pts : std::vector<double>(1, 5.0);
        if (nr == 1) p = pts;
        distributePts(p, dim); part[me] = p;
        std::vector<double> q = p; collectPts(q); back[me] = q;
        q = p; collectPtsAll(q); all[me] = q;
    });
    size_t k = 0, lo = pts.size(), hi = 0;
    for (int r = 0; r < nr; r++) {
        for (double v : part[r]) { vp_assert(k < pts.size() && v == pts[k], "parts are consecutive pieces of the input in rank order"); k++; }
        vp_assert(extra || part[r].size() % dim == 0, "points are not split");
        lo = std::min(lo, part[r].size() / dim); hi = std::max(hi, part[r].size() / dim);
    }
    vp_assert(k == pts.size(), "every value goes to exactly one rank");
    vp_assert(hi - lo <= 1, "point counts differ by at most one");
    for (int r = 0; r < nr; r++) {
        const std::vector<double> &a = all[r], &b = back[r];
        vp_assert(a.size() == pts.size() && b.size() == (r == 0 ? pts.size() : 0), "collected sizes");
        for (size_t i = 0; i < a.size(); i++) vp_assert(a[i] == pts[i], "values collected on all ranks in the original order");
        for (size_t i = 0; i < b.size(); i++) vp_assert(b[i] == pts[i], "values collected on rank 0 in the original order");
    }
    vp_reach("roundtrip");
}
VP_ENTRY(u02_one) { roundtrip(1, 3, 2, 0); }
VP_ENTRY(u02_two) { roundtrip(2, vp_choose("dimension", 1, 3), VP_MX, 0); }
VP_ENTRY(u02_three) { roundtrip(3, vp_choose("dimension", 1, 3), VP_MX, 0); }
VP_ENTRY(u02_four) { roundtrip(4, 2, 7, 0); }
// collecting arbitrary local sizes
VP_ENTRY(u02_collect) {
    std::vector<double> in[3], out[3], all[3], want;
    for (auto &v : in) { int n = vp_choose("size", 0, 2); for (int i = 0; i < n; i++) { v.push_back(vp_double("x")); want.push_back(v.back()); } }
    vp_run_ranks(3, [&](int me) { auto p = in[me]; collectPts(p); out[me] = p; p = in[me]; collectPtsAll(p); all[me] = p; });
    vp_assert(out[0].size() == want.size() && out[1].empty() && out[2].empty(), "everything is on rank 0");
    for (size_t i = 0; i < want.size(); i++) vp_assert(out[0][i] == want[i], "rank order on rank 0");
    for (auto &a : all) { vp_assert(a.size() == want.size(), "everything is on every rank"); for (size_t i = 0; i < want.size(); i++) vp_assert(a[i] == want[i], "rank order on every rank"); }
    vp_reach("collect");
}
VP_ENTRY(u02_uniform) {
    double lo = vp_double("low"), hi = vp_double("high"); vp_assume(lo < hi);
    int n = vp_choose("n", 0, 4);
    std::vector<double> v(n, 99.0);
    randomUniformFill(v, lo, hi, vp_i32("seed"));
    vp_assert_eqi(v.size(), n, "size kept");
    for (double x : v) { vp_assert_le(lo, x, "not below the interval"); vp_assert_lt(x, hi, "below the upper end"); }
    vp_reach("uniform");
}
VP_ENTRY(u02_points) {
    double box = vp_double("box"), shift = vp_double("shift"); vp_assume(box > 0);
    int n = vp_choose("n", 0, 1);
    std::vector<double> v(1, 3.0);
    randomPoints(n, box, shift, v);
    vp_assert_eqi(v.size(), 3 * (n + 1) * (n + 1) * (n + 1), "(n+1)^3 points");
    for (double x : v) { vp_assert_le(shift, x, "inside the box"); vp_assert_lt(x, shift + box, "inside the box"); }
    vp_reach("points");
}
VP_ENTRY(u02_lognormal) {
    double a = vp_double("a"), b = vp_double("b"); vp_assume(a > 0); vp_assume(b > 0);
    std::vector<double> v(3, -1.0);
    randomLogNormalFill(v, a, b, vp_i32("seed"));
    vp_assert_eqi(v.size(), 3, "size kept");
    for (double x : v) vp_assert_lt(0, x, "log-normal values are positive");
    vp_reach("lognormal");
}
VP_ENTRY(u02_fixed) {
    double box = vp_double("box"), shift = vp_double("shift"), s[3]; vp_assume(box > 0);
    int n = vp_choose("n", 0, 2); n = 1 << n;
    std::vector<double> v;
    fixedPoints(n, box, shift, v);
    vp_assert_eqi(v.size(), 3 * n, "requested number of points");
    for (double x : v) { vp_assert_le(shift, x, "inside the box"); vp_assert_le(x, shift + box, "inside the box"); }
    for (double &x : s) x = vp_double("s");
    double k = vp_double("scale"); auto w = v;
    shiftAndScalePoints(w, s, k);
    vp_assert(w.size() == v.size(), "no point lost");
    for (size_t i = 0; i < v.size(); i++) vp_assert_eq(w[i], v[i] * k + s[i % 3], "scaled, then shifted per coordinate");
    vp_reach("fixed");
}

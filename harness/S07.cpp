// S07: bounding boxes
#include "sys.hpp"
static bool hit(double a, double b) { return vp_is_symbolic() ? a == b : std::fabs(a - b) <= 1e-9 * (1 + std::fabs(b)); }
static void boxes(int ranks, int maxn, bool aligned) {
    static SylinderSystem *s[3];
    static double ll[3][3], lh[3][3], gl[3][3], gh[3][3];
    std::vector<Sylinder> v[3];
    int total = 0;
    for (int r = 0; r < ranks; r++) {
        int n = vp_choose("n", 0, maxn);
        for (int i = 0; i < n; i++) {
            Sylinder y = any_sylinder(total++);
            if (aligned) { int t = i % 2; for (int k = 0; k < 3; k++) y.orientation[k] = t ? 0.5 : 0; y.orientation[3] = t ? 0.5 : 1; }
            for (int k = 0; k < 3; k++) vp_assume((y.pos[k] > -1e6) & (y.pos[k] < 1e6));
            vp_assume(y.length < 1e6);
            v[r].push_back(y);
        }
        s[r] = make_system(v[r]);
    }
    vp_run_ranks(ranks, [&](int r) { s[r]->calcBoundingBox(ll[r], lh[r], gl[r], gh[r]); });
    for (int r = 0; r < ranks; r++) for (int k = 0; k < 3; k++) {
        bool tl = false, th = false, ul = false, uh = false;
        for (int q = 0; q < ranks; q++) for (auto &y : v[q]) {
            const double h = 0.5 * y.length * axis(y)[k], e[2] = {y.pos[k] + h, y.pos[k] - h};
            for (double x : e) {
                if (q == r) { vp_assert_le(ll[r][k], x, "the local box contains every rod end"); vp_assert_le(x, lh[r][k], "the local box contains every rod end"); tl = tl | hit(ll[r][k], x); th = th | hit(lh[r][k], x); }
                vp_assert_le(gl[r][k], x, "the global box contains every rod end"); vp_assert_le(x, gh[r][k], "the global box contains every rod end");
                ul = ul | hit(gl[r][k], x); uh = uh | hit(gh[r][k], x);
            }
        }
        {
            if (!v[r].empty()) { vp_assert(tl, "the local box is tight below"); vp_assert(th, "the local box is tight above"); }
            if (total) { vp_assert(ul, "the global box is tight below"); vp_assert(uh, "the global box is tight above"); }
        }
        vp_assert_eq(gl[r][k], gl[0][k], "the global box is the same on all ranks"); vp_assert_eq(gh[r][k], gh[0][k], "the global box is the same on all ranks");
    }
    if (total) vp_reach("box");
}
VP_ENTRY(s07_one) { boxes(1, 1, false); }
VP_ENTRY(s07_two) { boxes(1, 2, true); }
VP_ENTRY(s07_ranks) { boxes(2, 1, true); }
VP_ENTRY(s07_three) { boxes(3, 1, true); }

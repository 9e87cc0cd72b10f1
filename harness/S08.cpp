// S08: reported averages
#include "sys.hpp"
static std::vector<VpLog> lines;
static const VpLog *find(const char *head) { for (auto &l : lines) if (l.text.compare(0, std::string(head).size(), head) == 0) return &l; return nullptr; }
static void averages(int ranks, int maxn, int threads) {
    static SylinderSystem *s[3];
    std::vector<Sylinder> all;
    vp_threads(threads);
    double lo[3], hi[3];
    for (int k = 0; k < 3; k++) { lo[k] = vp_double("low"); hi[k] = vp_double("high"); vp_assume(hi[k] > lo[k]); }
    for (int r = 0; r < ranks; r++) {
        std::vector<Sylinder> v;
        int n = vp_choose("n", 0, maxn);
        for (int i = 0; i < n; i++) { Sylinder y = any_sylinder(all.size()); y.radiusCollision = vp_double("other"); y.lengthCollision = vp_double("other"); v.push_back(y); all.push_back(y); }
        s[r] = make_system(v);
        s[r]->runConfig.logLevel = vp_choose("level", 0, 1) ? 2 : 0;
        for (int k = 0; k < 3; k++) { s[r]->runConfig.simBoxLow[k] = lo[k]; s[r]->runConfig.simBoxHigh[k] = hi[k]; }
    }
    if (all.empty()) vp_ignore();
    for (int r = 1; r < ranks; r++) s[r]->runConfig.logLevel = s[0]->runConfig.logLevel;
    lines.clear(); vp_log = &lines;
    vp_run_ranks(ranks, [&](int r) { s[r]->calcVolFrac(); s[r]->calcOrderParameter(); });
    vp_log = nullptr;
    double vol = 0, P[3] = {0, 0, 0}, Q[9] = {0, 0, 0, 0, 0, 0, 0, 0, 0};
    const double pi = 3.1415926535, N = all.size();
    for (auto &y : all) {
        vol += pi * y.radius * y.radius * y.length + 4 * pi / 3 * y.radius * y.radius * y.radius;
        const Evec3 d = axis(y);
        for (int a = 0; a < 3; a++) { P[a] += d[a] / N; for (int b = 0; b < 3; b++) Q[3 * a + b] += (d[a] * d[b] - (a == b ? 1 : 0) * (1 / 3.0)) / N; }
    }
    auto *v = find("Volume Sylinder"), *f = find("Volume fraction"), *o = find("RECORD: Order");
    vp_assert(v && f && o, "all values are reported");
    int cv = 0, cf = 0, co = 0;
    for (auto &l : lines) {
        if (l.text == v->text) { cv++; vp_assert_eqi(l.v.size(), 1, "one value"); vp_assert_eq(l.v[0], vol, "total volume of the spherocylinders"); }
        if (l.text == f->text) { cf++; vp_assert_eqi(l.v.size(), 1, "one value"); vp_assert_eq(l.v[0] * ((hi[0] - lo[0]) * (hi[1] - lo[1]) * (hi[2] - lo[2])), vol, "volume fraction"); }
        if (l.text == o->text) {
            co++;
            vp_assert_eqi(l.v.size(), 12, "twelve values");
            for (int k = 0; k < 3; k++) vp_assert_eq(l.v[k], P[k], "polar order");
            for (int k = 0; k < 9; k++) vp_assert_eq(l.v[3 + k], Q[k], "nematic order");
        }
    }
    vp_reach("averages");
}
VP_ENTRY(s08_one) { averages(1, 2, 1); }
VP_ENTRY(s08_ranks) { averages(2, 1, 1); }
VP_ENTRY(s08_three) { averages(3, 1, 1); }
VP_ENTRY(s08_threads) { averages(1, 2, 2); }

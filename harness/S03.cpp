// S03: adding particles
#include "sys.hpp"
// contents that would show if anything else were changed
static void payload(Sylinder &y) {
    for (int k = 0; k < 3; k++) { y.vel[k] = vp_double("vel"); y.force[k] = vp_double("force"); y.velBrown[k] = vp_double("velBrown"); }
    y.group = vp_i32("group"); y.isImmovable = vp_bool("isImmovable"); y.globalIndex = vp_i32("globalIndex");
    y.radiusCollision = vp_double("radiusCollision"); y.lengthCollision = vp_double("lengthCollision"); y.colBuf = vp_double("colBuf");
}
static void same(const Sylinder &a, const Sylinder &b) {
    vp_assert(a.group == b.group && a.isImmovable == b.isImmovable && a.globalIndex == b.globalIndex, "flags unchanged");
    vp_assert_eq(a.radius, b.radius, "radius unchanged"); vp_assert_eq(a.length, b.length, "length unchanged");
    vp_assert_eq(a.radiusCollision, b.radiusCollision, "collision radius unchanged"); vp_assert_eq(a.lengthCollision, b.lengthCollision, "collision length unchanged");
    vp_assert_eq(a.colBuf, b.colBuf, "buffer unchanged");
    for (int k = 0; k < 4; k++) vp_assert_eq(a.orientation[k], b.orientation[k], "orientation unchanged");
    for (int k = 0; k < 3; k++) {
        vp_assert_eq(a.pos[k], b.pos[k], "position unchanged"); vp_assert_eq(a.vel[k], b.vel[k], "velocity unchanged");
        vp_assert_eq(a.force[k], b.force[k], "force unchanged"); vp_assert_eq(a.velBrown[k], b.velBrown[k], "Brownian velocity unchanged");
    }
}
static void add(int ranks, int maxOld, int maxNew, bool full) {
    static std::vector<Sylinder> before[3], added[3];
    static std::vector<int> ids[3];
    static SylinderSystem *s[3];
    int nold = 0, nnew = 0;
    std::vector<int> gids;
    for (int r = 0; r < ranks; r++) {
        before[r].clear(); added[r].clear(); ids[r].clear();
        int n = vp_choose("old", 0, maxOld), m = vp_choose("new", 0, maxNew);
        for (int i = 0; i < n; i++) {
            Sylinder y = any_sylinder(0); payload(y);
            y.gid = vp_i32("gid");
            vp_assume((y.gid >= 0) & (y.gid < 1000000));
            for (int g : gids) vp_assume(g != y.gid);
            gids.push_back(y.gid); before[r].push_back(y);
        }
        for (int i = 0; i < m; i++) { Sylinder y = any_sylinder(0); payload(y); y.gid = vp_i32("ignored"); added[r].push_back(y); }
        nold += n; nnew += m;
        s[r] = make_system(before[r]);
    }
    vp_run_ranks(ranks, [&](int r) { ids[r] = s[r]->addNewSylinder(added[r]); });
    std::vector<int> fresh;
    for (int r = 0; r < ranks; r++) {
        const int n = before[r].size(), m = added[r].size();
        auto &c = s[r]->sylinderContainer;
        vp_assert_eqi(c.getNumberOfParticleLocal(), n + m, "particles stay on the rank that adds them");
        vp_assert_eqi(ids[r].size(), m, "one id per added particle");
        for (int i = 0; i < n; i++) { vp_assert(c[i].gid == before[r][i].gid, "existing id unchanged"); if (full) same(c[i], before[r][i]); }
        for (int i = 0; i < m; i++) {
            vp_assert(c[n + i].gid == ids[r][i], "the returned id is the particle's");
            same(c[n + i], added[r][i]);
            for (int g : gids) vp_assert(ids[r][i] > g, "larger than every id present before");
            for (int g : fresh) vp_assert(ids[r][i] != g, "all new ids differ");
            fresh.push_back(ids[r][i]);
        }
    }
    if (nold && nnew) vp_reach("added");
}
VP_ENTRY(s03_one) { add(1, 2, 2, true); }
VP_ENTRY(s03_two) { add(2, 1, 1, false); }
VP_ENTRY(s03_three) { add(3, 1, 1, false); }
// again: ids stay unique over a history of additions
VP_ENTRY(s03_again) {
    static SylinderSystem *s[2];
    static std::vector<Sylinder> news[2][2];
    static std::vector<int> ids[2];
    for (int r = 0; r < 2; r++) {
        ids[r].clear();
        s[r] = make_system({}, 8);
        for (int t = 0; t < 2; t++) { news[r][t].clear(); int m = vp_choose("new", 0, 2 - r); for (int i = 0; i < m; i++) { Sylinder y = any_sylinder(0); y.clear(); news[r][t].push_back(y); } }
    }
    vp_run_ranks(2, [&](int r) { for (int t = 0; t < 2; t++) for (int g : s[r]->addNewSylinder(news[r][t])) ids[r].push_back(g); });
    std::vector<int> all;
    for (int r = 0; r < 2; r++) {
        vp_assert_eqi(s[r]->sylinderContainer.getNumberOfParticleLocal(), ids[r].size(), "all particles are kept");
        for (size_t i = 0; i < ids[r].size(); i++) { vp_assert(s[r]->sylinderContainer[i].gid == ids[r][i], "id of the particle"); for (int g : all) vp_assert(g != ids[r][i], "unique"); all.push_back(ids[r][i]); }
    }
    vp_reach("again");
}

// S04: link tables
#define VP_FILES
#include "sys.hpp"
typedef std::pair<int, int> PI;
typedef std::vector<PI> Pairs;
static Link any_link() { Link l; l.prev = vp_i32("prev"); l.next = vp_i32("next"); vp_assume((l.prev >= 0) & (l.next >= 0) & (l.prev < 1000) & (l.next < 1000)); return l; }
static bool has(const Pairs &v, int a, int b) { for (auto &p : v) if (p.first == a && p.second == b) return true; return false; }
// `want` without repetitions is the content of the table, the reverse table is its inverse
static void tables(SylinderSystem &s, const Pairs &want) {
    Pairs uniq, fwd, rev;
    for (auto &p : want) if (!has(uniq, p.first, p.second)) uniq.push_back(p);
    for (auto &p : s.getLinkMap()) fwd.push_back(p);
    for (auto &p : s.getLinkReverseMap()) rev.push_back(PI(p.second, p.first));
    vp_assert_eqi(fwd.size(), uniq.size(), "every link once");
    vp_assert_eqi(rev.size(), uniq.size(), "every link once in the reverse table");
    for (auto &p : uniq) { vp_assert(has(fwd, p.first, p.second), "every link is in the table"); vp_assert(has(rev, p.first, p.second), "every link is in the reverse table"); }
}
static void links(int ranks, int maxOld, int maxNew) {
    static SylinderSystem *s[3];
    static std::vector<Link> news[3];
    Pairs want;
    int n = vp_choose("old", 0, maxOld);
    for (int i = 0; i < n; i++) { Link l = any_link(); vp_assume(!has(want, l.prev, l.next)); want.push_back(PI(l.prev, l.next)); }
    for (int r = 0; r < ranks; r++) {
        s[r] = make_system({}); news[r].clear();
        for (auto &p : want) { s[r]->linkMap.emplace(p.first, p.second); s[r]->linkReverseMap.emplace(p.second, p.first); }
    }
    for (int r = 0; r < ranks; r++) {
        int m = vp_choose("new", 0, maxNew);
        for (int i = 0; i < m; i++) { Link l = any_link(); news[r].push_back(l); want.push_back(PI(l.prev, l.next)); }
    }
    createMPIStructType<Link>(); // once per process
    vp_run_ranks(ranks, [&](int r) { s[r]->addNewLink(news[r]); });
    for (int r = 0; r < ranks; r++) tables(*s[r], want);
    vp_reach("links");
}
VP_ENTRY(s04_one) { links(1, 2, 2); }
VP_ENTRY(s04_two) { links(2, 1, 1); }
VP_ENTRY(s04_three) { links(3, 0, 1); }
// links of a configuration file replace those known before
VP_ENTRY(s04_file) {
    SylinderSystem *s = make_system({});
    Pairs want;
    auto *f = vp_create("links.dat");
    f->text = "2 \n" + vp_text(0.5) + "\nC 0\n"; // two header lines
    int n = vp_choose("n", 0, 2);
    for (int i = 0; i < n; i++) {
        Link l = any_link(); vp_assume(!has(want, l.prev, l.next)); want.push_back(PI(l.prev, l.next));
        f->text += "L " + vp_text((long long)l.prev) + " " + vp_text((long long)l.next) + "\n";
        if (vp_choose("between", 0, 1)) f->text += "S 1\n";
    }
    if (vp_choose("before", 0, 1)) { Link l = any_link(); s->linkMap.emplace(l.prev, l.next); s->linkReverseMap.emplace(l.next, l.prev); }
    s->setLinkMapFromFile("links.dat");
    tables(*s, want);
    vp_reach("file");
}

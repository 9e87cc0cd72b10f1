// U05: distributed maps and vectors
#include "vp.h"
#include "Trilinos/TpetraUtil.cpp"
struct W { int n; int s1[4], s2[4]; double v1[4][4], v2[4][4]; int gid[3][16]; int cnt[3]; };
static void sizes(W &w, int nr, int mx) {
    w.n = nr;
    for (int r = 0; r < nr; r++) { w.s1[r] = vp_choose("size1", 0, mx); w.s2[r] = vp_choose("size2", 0, mx); for (int i = 0; i < mx; i++) { w.v1[r][i] = vp_double("v1"); w.v2[r][i] = vp_double("v2"); } }
}
static void rank(W &w, int me) {
    Teuchos::RCP<const TCOMM> comm = getMPIWORLDTCOMM();
    std::vector<double> a(w.v1[me], w.v1[me] + w.s1[me]), b(w.v2[me], w.v2[me] + w.s2[me]);
    int o1 = 0, o2 = 0, t1 = 0, t2 = 0;
    for (int r = 0; r < w.n; r++) { if (r < me) { o1 += w.s1[r]; o2 += w.s2[r]; } t1 += w.s1[r]; t2 += w.s2[r]; }
    auto m1 = getTMAPFromLocalSize(w.s1[me], comm);
    vp_assert(m1->getNodeNumElements() == (size_t)w.s1[me] && m1->getGlobalNumElements() == (size_t)t1 && m1->isContiguous(), "map sizes");
    for (int i = 0; i < w.s1[me]; i++) vp_assert_eqi(m1->getMyGlobalIndices()[i], o1 + i, "index range contiguous in rank order");
    Teuchos::RCP<const TV> va = getTVFromVector(a, comm), vb = getTVFromVector(b, comm);
    auto x = va->getLocalView<Kokkos::HostSpace>(); auto y = vb->getLocalView<Kokkos::HostSpace>();
    vp_assert(x.dimension_0() == a.size() && y.dimension_0() == b.size() && x.dimension_1() == 1, "vector length");
    vp_assert(va->getMap()->isSameAs(*m1), "vector distributed like its data");
    for (size_t i = 0; i < a.size(); i++) vp_assert_eq(x(i, 0), a[i], "vector holds the local data");
    for (size_t i = 0; i < b.size(); i++) vp_assert_eq(y(i, 0), b[i], "vector holds the local data");
    Teuchos::RCP<const TMAP> ma = va->getMap(), mb = vb->getMap();
    auto m = getTMAPFromTwoBlockTMAP(ma, mb);
    auto v = getTVFromTwoBlockTV(va, vb);
    vp_assert(m->getGlobalNumElements() == (size_t)(t1 + t2) && m->getNodeNumElements() == a.size() + b.size(), "two-block map sizes");
    vp_assert(v->getMap()->isSameAs(*m), "two-block vector lives on the two-block map");
    auto z = v->getLocalView<Kokkos::HostSpace>();
    for (size_t i = 0; i < a.size(); i++) { vp_assert_eqi(m->getMyGlobalIndices()[i], o1 + (int)i, "first block keeps its indices"); vp_assert_eq(z(i, 0), a[i], "first block values"); }
    for (size_t i = 0; i < b.size(); i++) { vp_assert_eqi(m->getMyGlobalIndices()[a.size() + i], t1 + o2 + (int)i, "second block indices follow every first-block index"); vp_assert_eq(z(a.size() + i, 0), b[i], "second block values"); }
    // an arbitrary map from the same indices, in reverse order
    std::vector<int> g;
    for (int i = w.s1[me] - 1; i >= 0; i--) g.push_back(o1 + i);
    auto mg = getTMAPFromGlobalIndexOnLocal(g, t1, comm);
    vp_assert(mg->getNodeNumElements() == g.size() && mg->getGlobalNumElements() == (size_t)t1, "map from indices: sizes");
    for (size_t i = 0; i < g.size(); i++) vp_assert_eqi(mg->getMyGlobalIndices()[i], g[i], "map from indices: order");
}
VP_ENTRY(u05_one) { W w; sizes(w, 1, 3); rank(w, 0); vp_reach("one"); }
VP_ENTRY(u05_ranks) { W w; sizes(w, 2, 2); vp_run_ranks(2, [&](int me) { rank(w, me); }); vp_reach("ranks"); }
VP_ENTRY(u05_three) { W w; sizes(w, 3, 1); vp_run_ranks(3, [&](int me) { rank(w, me); }); vp_reach("three"); }

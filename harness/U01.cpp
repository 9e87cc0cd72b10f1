// U01: all-to-all exchange
#include "vp.h"
#include "unstable.hpp"
#include "MPI/CommMPI.hpp"
struct Item { double v; int id; };
struct W { int n; int cnt[4]; int dest[4][4]; double v[4][4]; };
static void fill(W &w, int nr, int mx) {
    w.n = nr;
    for (int r = 0; r < nr; r++) {
        w.cnt[r] = vp_choose("items", 0, mx);
        for (int i = 0; i < w.cnt[r]; i++) { w.dest[r][i] = vp_i32("dest"); vp_assume((w.dest[r][i] >= 0) & (w.dest[r][i] < nr)); w.v[r][i] = vp_double("value"); }
    }
    createMPIStructType<Item>(); createMPIStructType<double>();
}
template <class D> static D make(double v, int id);
template <> Item make<Item>(double v, int id) { return Item{v, id}; }
template <> double make<double>(double v, int id) { return v; }
static bool isit(const Item &a, double v, int id) { return (a.v == v) & (a.id == id); }
static bool isit(const double &a, double v, int) { return a == v; }
template <class D> static void rank(const W *all, int me, int rounds) {
    CommMPI comm;
    vp_assert(comm.getRank() == me && comm.getSize() == all[0].n, "rank and size");
    for (int k = 0; k < rounds; k++) {
        const W &w = all[k];
        std::vector<int> dest, src(2, 7); std::vector<D> send, recv(5);
        for (int i = 0; i < w.cnt[me]; i++) { dest.push_back(w.dest[me][i]); send.push_back(make<D>(w.v[me][i], 10 * me + i)); }
        comm.exchangeAllToAllV(dest, send, src, recv);
        size_t p = 0;
        for (int s = 0; s < w.n; s++)
            for (int i = 0; i < w.cnt[s]; i++) {
                if (w.dest[s][i] != me) continue;
                vp_assert(p < recv.size() && p < src.size(), "every item addressed to this rank arrives");
                vp_assert(isit(recv[p], w.v[s][i], 10 * s + i), "items arrive in source rank order and in the order in which they were listed");
                vp_assert_eqi(src[p], s, "source rank of each received item");
                p++;
            }
        vp_assert(p == recv.size() && p == src.size(), "nothing else arrives");
    }
}
VP_ENTRY(u01_one) { W w; fill(w, 1, 3); rank<Item>(&w, 0, 1); vp_reach("one"); }
VP_ENTRY(u01_threads) { W w; fill(w, 1, 3); vp_threads(3); rank<double>(&w, 0, 1); vp_reach("threads"); }
VP_ENTRY(u01_two) { W w; fill(w, 2, VP_N2); vp_run_ranks(2, [&](int me) { rank<Item>(&w, me, 1); }); vp_reach("two"); }
VP_ENTRY(u01_three) { W w; fill(w, 3, VP_N3); vp_run_ranks(3, [&](int me) { rank<double>(&w, me, 1); }); vp_reach("three"); }
// the same object serves several exchanges of different data
VP_ENTRY(u01_again) { W w[2]; fill(w[0], 2, VP_A); fill(w[1], 2, VP_A); vp_run_ranks(2, [&](int me) { rank<double>(w, me, 2); }); vp_reach("again"); }

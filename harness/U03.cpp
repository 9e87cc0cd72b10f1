// U03: distributed data directory
#include "vp.h"
#include <iostream>
#include <cstdio>
#include <vector>
#include "Trilinos/ZDD.hpp"
struct Rec { int a; double x; char c; };
template <class D> static D rec(double v, int i);
template <> Rec rec<Rec>(double v, int i) { return Rec{i, v, (char)(i + 1)}; }
template <> double rec<double>(double v, int) { return v; }
static bool same(const Rec &r, double v, int i) { return (r.a == i) & (r.x == v) & (r.c == (char)(i + 1)); }
static bool same(double r, double v, int) { return r == v; }
struct W { int n, np[3], nf[3][2]; unsigned id[3][3]; double v[3][3]; int want[3][2][3]; };
template <class D> static void run(int nr, int mxp, int mxf, int rounds) {
    W w; w.n = nr;
    int tot = 0; std::vector<std::pair<int, int>> all; // (rank, position)
    for (int r = 0; r < nr; r++) {
        w.np[r] = vp_choose("published", 0, mxp);
        for (int i = 0; i < w.np[r]; i++) {
            w.id[r][i] = vp_u32("id"); w.v[r][i] = vp_double("data");
            for (auto &p : all) vp_assume(w.id[r][i] != w.id[p.first][p.second]);
            all.push_back({r, i});
        }
    }
    tot = all.size();
    for (int r = 0; r < nr; r++)
        for (int k = 0; k < rounds; k++) {
            w.nf[r][k] = tot ? vp_choose("lookups", 0, mxf) : 0;
            for (int i = 0; i < w.nf[r][k]; i++) w.want[r][k][i] = vp_choose("which", 0, tot - 1);
        }
    vp_run_ranks(nr, [&](int me) {
        ZDD<D> d(4);
        for (int i = 0; i < w.np[me]; i++) { d.gidOnLocal.push_back(w.id[me][i]); d.dataOnLocal.push_back(rec<D>(w.v[me][i], 10 * me + i)); }
        vp_assert(d.buildIndex() == 0, "index built");
        for (int k = 0; k < rounds; k++) {
            d.gidToFind.clear();
            if (k == 0) d.dataToFind.clear();
            for (int i = 0; i < w.nf[me][k]; i++) { auto p = all[w.want[me][k][i]]; d.gidToFind.push_back(w.id[p.first][p.second]); }
            vp_assert(d.find() == 0, "every published id is found");
            vp_assert(d.dataToFind.size() >= d.gidToFind.size(), "one result for each requested id");
            for (int i = 0; i < w.nf[me][k]; i++) {
                auto p = all[w.want[me][k][i]];
                vp_assert(d.gidToFind[i] == w.id[p.first][p.second], "request list kept");
                vp_assert(same(d.dataToFind[i], w.v[p.first][p.second], 10 * p.first + p.second), "data published under the requested id");
            }
            for (int i = 0; i < w.np[me]; i++) vp_assert(d.gidOnLocal[i] == w.id[me][i] && same(d.dataOnLocal[i], w.v[me][i], 10 * me + i), "published data kept");
        }
    });
    vp_reach("found");
}
VP_ENTRY(u03_one) { run<Rec>(1, 3, 2, 1); }
VP_ENTRY(u03_one_double) { run<double>(1, 2, 2, 1); }
VP_ENTRY(u03_again) { run<Rec>(1, 2, 2, 2); }
VP_ENTRY(u03_two) { run<Rec>(2, VP_P, VP_F, 1); }
VP_ENTRY(u03_three) { run<double>(3, 1, 1, 1); }

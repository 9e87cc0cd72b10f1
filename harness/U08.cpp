// U08: random streams of ranks and threads
#include "vp.h"
#include <mpi.h>
#include <omp.h>
#include <vector>
#include <memory>
#include <iostream>
// number of ranks and the own rank are arbitrary
static int vp_my_rank = 0, vp_n_ranks = 1, vp_init = 1;
static int vp_the_rank(MPI_Comm, int *r) { *r = vp_my_rank; return 0; }
static int vp_the_size(MPI_Comm, int *n) { *n = vp_n_ranks; return 0; }
static int vp_mpi_init(int *f) { *f = vp_init; return 0; }
#define MPI_Comm_rank vp_the_rank
#define MPI_Comm_size vp_the_size
#define MPI_Initialized vp_mpi_init
#include "Util/TRngPool.hpp"
#undef MPI_Comm_rank
#undef MPI_Comm_size
static double value(const VpDraw &d) { return d.kind == 0 ? 0.25 : -0.5; }
static void draw1(TRngPool &p, int t, int kind) { if (kind == 0) p.getU01(t); else if (kind == 1) p.getN01(t); else p.getLN(t); }
// the element consumed by draw number k (>= 1) of thread t
static VpDraw draw(TRngPool &p, int t, uint64_t k, int kind) {
    draw1(p, t, 0);
    vp_draws[0].engine->discard(k);
    draw1(p, t, kind);
    return vp_draws[0];
}
static void disjoint(int threads, int n) {
    vp_draw_hook = value;
    int r1 = vp_i32("rank1"), r2 = vp_i32("rank2"), seed = vp_i32("seed");
    vp_assume((r1 >= 0) & (r1 < n)); vp_assume((r2 >= 0) & (r2 < n));
    int t1 = vp_choose("thread1", 0, threads - 1), t2 = vp_choose("thread2", 0, threads - 1);
    uint64_t k1 = vp_u32("draws1"), k2 = vp_u32("draws2");
    vp_threads(threads);
    vp_n_ranks = n;
    vp_init = n > 1 || vp_choose("mpi", 0, 1);
    vp_my_rank = r1; TRngPool a(seed);
    vp_my_rank = r2; TRngPool b(seed);
    VpDraw x = draw(a, t1, k1, vp_choose("kind", 0, 2)), y = draw(b, t2, k2, 0);
    vp_assert((x.seed == (unsigned long)seed) & (y.seed == (unsigned long)seed), "streams of the given seed");
    vp_observe_i("first", x.index); vp_observe_i("second", y.index);
    if (t1 != t2) vp_assert(x.index != y.index, "different threads never share an element");
    else {
        vp_assert((r1 == r2) | (x.index != y.index), "different ranks never share an element");
        vp_assert((r1 != r2) | ((x.index == y.index) == (k1 == k2)), "a stream is determined by seed, rank, thread and counts and has no repetition");
    }
    vp_reach("disjoint");
}
VP_ENTRY(u08_disjoint) { disjoint(vp_choose("threads", 1, 3), vp_choose("ranks", 1, VP_R)); }
// draws of concurrent threads
VP_ENTRY(u08_threads) {
    vp_draw_hook = value;
    vp_my_rank = 1; vp_n_ranks = 2;
    vp_threads(3);
    TRngPool p(vp_i32("seed"));
    const void *own[3];
    for (int t = 0; t < 3; t++) { p.getU01(t); own[t] = vp_draws[0].engine; for (int s = 0; s < t; s++) vp_assert(own[s] != own[t], "one engine per thread"); }
    int kind = vp_choose("kind", 0, 2);
#pragma omp parallel num_threads(3)
    {
        if (kind == 0) p.getU01(); else if (kind == 1) p.getN01(); else p.getLN();
    }
    for (int t = 0; t < 3; t++) vp_assert(vp_draws[t].engine == own[t] && vp_draws[t].kind == (kind != 0), "each thread draws from its own stream");
    vp_reach("threads");
}
// values handed out are the transformed draws
static double u_, n_;
static double sym(const VpDraw &d) { return d.kind == 0 ? u_ : n_; }
VP_ENTRY(u08_values) {
    u_ = vp_double("uniform"); n_ = vp_double("normal"); vp_draw_hook = sym;
    vp_threads(2);
    TRngPool p(vp_i32("seed"));
    vp_assert_eq(p.getU01(1), u_, "uniform value"); vp_assert_eq(p.getN01(0), n_, "standard normal value");
    vp_assert_eq(p.getLN(1), std::exp(1 + n_), "log-normal value with default parameters");
    double mu = vp_double("mu"), s = vp_double("sigma");
    p.setLogNormalParameters(mu, s);
    vp_assert_eq(p.getLN(0), std::exp(mu + s * n_), "log-normal value");
    vp_reach("values");
}

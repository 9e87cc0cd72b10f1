// C06: stress sums and multiplier write-back
#include "con.hpp"
static void sums(int nq, int mx, int tot, int threads) {
    ConstraintCollector c; vp_fixed = 0; any_pool(c, nq, mx, tot, 2);
    bool with = vp_bool("withOneSide");
    vp_threads(threads);
    Emat3 u = Emat3::Constant(7), b = Emat3::Constant(9);
    c.sumLocalConstraintStress(u, b, with);
    double eu[9] = {0}, eb[9] = {0};
    for (auto &k : flat(c))
        for (int i = 0; i < 9; i++) {
            bool use = !k.oneSide || with;
            eu[i] += use && !k.bilateral ? k.stress[i] : 0; eb[i] += use && k.bilateral ? k.stress[i] : 0;
        }
    for (int i = 0; i < 9; i++) { vp_assert_eq(u(i / 3, i % 3), eu[i], "unilateral stress is the sum over unilateral blocks"); vp_assert_eq(b(i / 3, i % 3), eb[i], "bilateral stress is the sum over bilateral blocks"); }
    vp_reach("sum");
}
VP_ENTRY(c06_sum) { sums(3, 2, VP_TOT, 1); }
VP_ENTRY(c06_sum_threads) { sums(2, 2, 2, 2); }
static void writeback(int nq, int mx, int tot, int threads) {
    ConstraintCollector c; vp_fixed = 0; any_pool(c, nq, mx, tot, 2);
    auto before = flat(c);
    Teuchos::RCP<const TCOMM> comm = getMPIWORLDTCOMM();
    std::vector<double> g(before.size());
    for (auto &x : g) x = vp_double("multiplier");
    Teuchos::RCP<TV> gv = getTVFromVector(g, comm);
    vp_threads(threads);
    c.writeBackGamma(gv);
    auto after = flat(c);
    vp_assert(after.size() == before.size() && c.getLocalNumberOfConstraints() == (int)before.size(), "no block is added or lost");
    for (size_t i = 0; i < before.size(); i++) {
        vp_assert_eq(after[i].gamma, g[i], "each block stores its own multiplier");
        for (int k = 0; k < 9; k++) vp_assert_eq(after[i].stress[k], before[i].stress[k] * g[i], "stress scaled with the block's own multiplier");
        vp_assert((after[i].delta0 == before[i].delta0) & (after[i].gidI == before[i].gidI) & (after[i].gidJ == before[i].gidJ) & (after[i].oneSide == before[i].oneSide) & (after[i].bilateral == before[i].bilateral), "other fields unchanged");
    }
    vp_reach("written");
}
VP_ENTRY(c06_write) { writeback(3, 2, VP_TOT, 1); }
VP_ENTRY(c06_write_threads) { writeback(2, 2, 2, 2); }
VP_ENTRY(c06_clear) {
    ConstraintCollector c; vp_fixed = 0; any_pool(c, 2, 2, 3, 2);
    size_t n = flat(c).size();
    vp_assert_eqi(c.getLocalNumberOfConstraints(), n, "number of constraints");
    ConstraintCollector d = c;
    vp_assert(d.constraintPoolPtr == c.constraintPoolPtr, "copies share the pool");
    c.clear();
    vp_assert(c.getLocalNumberOfConstraints() == 0 && d.getLocalNumberOfConstraints() == 0, "clearing removes every block");
    vp_assert_eqi(c.constraintPoolPtr->size(), omp_get_max_threads(), "one queue per thread after clearing");
    vp_reach("clear");
}

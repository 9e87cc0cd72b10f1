// constraint blocks with arbitrary contents
#pragma once
#include "vp.h"
#include <omp.h>
#include <mpi.h>
#include <deque>
#include <fstream>
#include <sstream>
#include <memory>
#include <random>
#include <chrono>
#include "Trilinos/TpetraUtil.hpp"
#include <Eigen/Dense>
#include "Util/EigenDef.hpp"
#include "Util/IOHelper.hpp"
#define private public
#include "Trilinos/TpetraUtil.cpp"
#include "Util/Base64.cpp"
#include "Constraint/ConstraintCollector.cpp"
#undef private
static int vp_fixed = -1; // >= 0: particle indices are not varied
static ConstraintBlock any_block(int np, bool flags = true) {
    ConstraintBlock b;
    b.delta0 = vp_double("delta0"); b.gamma = vp_double("gamma"); b.gammaLB = vp_double("gammaLB"); b.kappa = vp_double("kappa");
    b.gidI = vp_i32("gidI"); b.gidJ = vp_i32("gidJ");
    if (vp_fixed >= 0) { b.globalIndexI = vp_fixed % np; b.globalIndexJ = (vp_fixed + 1) % np; vp_fixed++; }
    else { b.globalIndexI = vp_choose("I", 0, np - 1); b.globalIndexJ = vp_choose("J", 0, np - 1); }
    vp_assume(np == 1 || b.globalIndexI != b.globalIndexJ);
    b.oneSide = flags ? vp_bool("oneSide") : false; b.bilateral = flags ? vp_bool("bilateral") : false;
    if (np == 1) vp_assume(b.oneSide);
    for (int k = 0; k < 3; k++) { b.normI[k] = vp_double("normI"); b.normJ[k] = vp_double("normJ"); b.posI[k] = vp_double("posI"); b.posJ[k] = vp_double("posJ"); b.labI[k] = vp_double("labI"); b.labJ[k] = vp_double("labJ"); }
    for (int k = 0; k < 9; k++) b.stress[k] = vp_double("stress");
    return b;
}
// nq queues with at most mx blocks each and at most tot in total
static void any_pool(ConstraintCollector &c, int nq, int mx, int tot, int np) {
    auto &pool = *c.constraintPoolPtr;
    pool.resize(nq);
    for (auto &q : pool) { q.clear(); int n = vp_choose("blocks", 0, mx < tot ? mx : tot); tot -= n; for (int i = 0; i < n; i++) q.push_back(any_block(np)); }
}
static std::vector<ConstraintBlock> flat(const ConstraintCollector &c) {
    std::vector<ConstraintBlock> v;
    for (auto &q : *c.constraintPoolPtr) for (auto &b : q) v.push_back(b);
    return v;
}

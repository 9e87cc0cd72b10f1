// S05: when snapshots are due, and where they go
#ifndef VP_FP
#define VP_FILES
#endif
#define VP_OWN_SOLVER
#include "vp.h"
#include <string>
#include <type_traits>
// folder names with symbolic numbers
#ifdef VP_FOLDER
#include "vp_files.hpp"
#undef ofstream
#undef ifstream
#undef stringstream
#undef istringstream
#undef ostringstream
#undef fopen
#undef fclose
#undef fprintf
#undef mkdir
#undef errno
#define errno (*__errno_location())
namespace std { template <class T> inline string vp_to_string(T v) { return vp_text((long long)v); } }
#endif
#include "sys.hpp"
#include "anyop.hpp"
void ConstraintSolver::reset() {}
void ConstraintSolver::setup(ConstraintCollector &, Teuchos::RCP<TOP> &, Teuchos::RCP<TV> &v, double) { mobMapRcp = v->getMap(); }
void ConstraintSolver::solveConstraints() {
    forceuRcp = Teuchos::rcp(new TV(mobMapRcp, true)); forcebRcp = Teuchos::rcp(new TV(mobMapRcp, true)); veluRcp = Teuchos::rcp(new TV(mobMapRcp, true)); velbRcp = Teuchos::rcp(new TV(mobMapRcp, true));
}
void ConstraintSolver::writebackGamma() {}
#ifdef VP_FOLDER
static long long number(const std::string &s, size_t &p, const char *before) {
    for (const char *c = before; *c; c++) vp_assert(p < s.size() && s[p++] == *c, "result folder name");
    vp_assert(p < s.size() && s[p++] == '\1', "result folder name");
    size_t k = 0;
    while (s[p] != '\2') k = 10 * k + (s[p++] - '0');
    p++;
    return vp_nums[k].i;
}
VP_ENTRY(s05_folder) {
    const int sizes[] = {1, 3, 7, 399, 401, 5000};
    auto *s = make_system({});
    vp_world.n = sizes[vp_choose("ranks", 0, 5)];
    int id = vp_i32("snap"); vp_assume((id >= 0) & (id < VP_MAXID));
    long long lo[2], hi[2];
    for (int t = 0; t < 2; t++) {
        std::string f = s->getResultFolderWithID(id + t);
        size_t p = 0;
        lo[t] = number(f, p, "./result/result"); hi[t] = number(f, p, "-");
        vp_assert(f.substr(p) == "/", "result folder name");
        vp_assert((lo[t] <= id + t) & (id + t <= hi[t]), "the folder's range contains the snapshot");
    }
    vp_assert(((lo[0] == lo[1]) & (hi[0] == hi[1])) | (lo[1] == hi[0] + 1), "ranges are consecutive");
    vp_assert((id != 0) | (lo[0] == 0), "the first range starts at zero");
    if (vp_world.n <= 400) vp_assert((hi[0] - lo[0] + 1) * vp_world.n <= 400, "at most 400 files of each kind per folder");
    s->snapID = id;
    std::string c = s->getCurrentResultFolder();
    size_t p = 0;
    long long l = number(c, p, "./result/result");
    vp_assert(l == lo[0], "the current snapshot's folder");
    vp_world.n = 1;
    vp_reach("folder");
}
#elif defined(VP_FP)
// interval computed or typed in as a multiple of the step, with rounding
VP_ENTRY(s05_fp) {
    static const double steps[] = {0.1, 1e-5, 0.0007};
    static const int lengths[] = {3, 29, 1000, 86400};
    double dt = steps[vp_choose("dt", 0, 2)];
    const int n = lengths[vp_choose("n", 0, 3)];
    double snap = n * dt;
    double typed = vp_double("snap"); vp_assume((typed >= snap * (1 - 1e-15)) & (typed <= snap * (1 + 1e-15)));
    SylinderSystem *s = make_system({});
    s->runConfig.dt = dt; s->runConfig.timeSnap = typed;
    s->stepCount = n;
    vp_assert(s->getIfWriteResultCurrentStep(), "a snapshot after one interval");
    s->stepCount = n - 1;
    if (n > 1) vp_assert(!s->getIfWriteResultCurrentStep(), "none before");
    vp_reach("fp");
}
#else
// the interval is n steps up to a relative error of 1e-12
static void due(int n) {
    SylinderSystem *s = make_system({});
    double dt = vp_double("dt"), e = vp_double("error");
    vp_assume((dt > 1e-12) & (dt < 1e6)); vp_assume((e >= -1e-12) & (e <= 1e-12));
    s->runConfig.dt = dt; s->runConfig.timeSnap = dt * (n * (1 + e));
    int c = vp_i32("step"); vp_assume((c >= 0) & (c < 2000000000));
    s->stepCount = c;
    bool w = s->getIfWriteResultCurrentStep();
    vp_assert(w == (c % n == 0), "snapshots exactly at multiples of the interval");
    vp_assert_eqi(s->stepCount, c, "no side effect");
    if (w) vp_reach("due"); else vp_reach("not due");
}
VP_ENTRY(s05_due) { const int N[] = {1, 2, 3, 4, 5, 7, 10, 29, 1000, 65536, 100000, 99999999}; due(N[vp_choose("n", 0, 11)]); }
// an interval shorter than a step: every step
VP_ENTRY(s05_short) {
    SylinderSystem *s = make_system({});
    double dt = vp_double("dt"), t = vp_double("interval"); vp_assume((dt > 1e-12) & (dt < 1e6) & (t >= 0)); vp_assume(t < 0.5 * dt);
    s->runConfig.dt = dt; s->runConfig.timeSnap = t;
    int c = vp_i32("step"); vp_assume((c >= 0) & (c < 2000000000));
    s->stepCount = c;
    vp_assert(s->getIfWriteResultCurrentStep(), "a snapshot at every step");
    vp_reach("short");
}
// consecutive steps of a system: which snapshots exist afterwards
VP_ENTRY(s05_steps) {
    Sylinder y; y.gid = 0; y.isImmovable = false; y.group = 0; y.radius = y.radiusCollision = 1; y.length = y.lengthCollision = 0; y.clear();
    for (int k = 0; k < 3; k++) y.pos[k] = 0.5;
    y.orientation[0] = y.orientation[1] = y.orientation[2] = 0; y.orientation[3] = 1;
    SylinderSystem *s = make_system({y});
    vp_disk.clear(); vp_dirs.clear();
    const int n = vp_choose("n", 1, 3), steps = 4;
    s->runConfig.dt = 0.1; s->runConfig.timeSnap = 0.1 * n; s->runConfig.KBT = 0; s->runConfig.viscosity = 1; s->runConfig.sylinderFixed = false; s->runConfig.linkKappa = 1; s->runConfig.linkGap = 0;
    s->stepCount = vp_choose("first", 0, 2); s->snapID = 0;
    s->conCollectorPtr = std::make_shared<ConstraintCollector>(); s->conSolverPtr = std::make_shared<ConstraintSolver>();
    s->updateSylinderMap();
    s->mobilityOperatorRcp = Teuchos::rcp(new AnyOp(s->sylinderMobilityMapRcp));
    s->sylinderNearDataDirectoryPtr = std::make_shared<ZDD<SylinderNearEP>>(1);
    s->buildSylinderNearDataDirectory(); s->setTreeSylinder();
    int want = 0;
    for (int t = 0; t < steps; t++) {
        const int c = s->stepCount;
        s->runStep();
        vp_assert_eqi(s->stepCount, c + 1, "steps are counted");
        if (c % n == 0) want++;
        vp_assert_eqi(s->snapID, want, "one snapshot per due step, numbered consecutively");
    }
    for (int k = 0; k < 4; k++) {
        std::string f = "./result/result0-399/", i = std::to_string(k);
        for (auto nm : {f + "SylinderAscii_" + i + ".dat", f + "Sylinder_" + i + ".pvtp", f + "Sylinder_r0_" + i + ".vtp", f + "/ConBlock_" + i + ".pvtp", f + "/ConBlock_r0_" + i + ".vtp"})
            vp_assert((vp_file(nm) != nullptr) == (k < want), "exactly the files of the due snapshots exist");
    }
    bool dir = false; for (auto &d : vp_dirs) dir |= d == "./result/result0-399";
    vp_assert(dir == (want > 0), "their folder is made");
    vp_reach("steps");
}
#endif

// SylinderSystem with its dependencies replaced by stand-ins
#pragma once
#include "vp.h"
#include <omp.h>
#include <mpi.h>
#include <algorithm>
#include <chrono>
#include <deque>
#include <fstream>
#include <iostream>
#include <map>
#include <memory>
#include <numeric>
#include <random>
#include <sstream>
#include <typeinfo>
#include <unordered_map>
#include <set>
#include <list>
#include <stack>
#include <typeinfo>
#include <Eigen/Dense>
#ifdef VP_FILES
#include "vp_files.hpp"
// arrays are kept aside, the text refers to them (the encoding itself: U06)
#include "Util/Base64.hpp"
struct VpArray { char type; std::vector<double> v; };
inline std::vector<VpArray> vp_arrays;
template <class T> static std::string vp_keep(char type, const std::vector<T> &d) {
    VpArray a{type, {}};
    for (auto &x : d) a.v.push_back((double)x);
    size_t k = 0;
#pragma omp critical(vp_files)
    { k = vp_arrays.size(); vp_arrays.push_back(a); }
    return "\3" + std::to_string(k) + "\2";
}
template <> inline void B64Converter::getBase64FromVector(const std::vector<float> &d, std::string &s) { s = vp_keep('f', d); }
template <> inline void B64Converter::getBase64FromVector(const std::vector<double> &d, std::string &s) { s = vp_keep('d', d); }
template <> inline void B64Converter::getBase64FromVector(const std::vector<int> &d, std::string &s) { s = vp_keep('i', d); }
template <> inline void B64Converter::getBase64FromVector(const std::vector<uint8_t> &d, std::string &s) { s = vp_keep('b', d); }
#endif
#include "Trilinos/TpetraUtil.hpp"
#ifdef VP_SYMBOLIC
// hash tables keep one bucket: their iteration order is unspecified anyway
namespace std { namespace __detail {
std::size_t _Prime_rehash_policy::_M_next_bkt(std::size_t) const { return 1; }
std::pair<bool, std::size_t> _Prime_rehash_policy::_M_need_rehash(std::size_t, std::size_t, std::size_t) const { return {false, 0}; }
} }
// seeds from the operating system: what is drawn with them is arbitrary (shuffle below)
namespace std {
void random_device::_M_init(const std::string &) {}
void random_device::_M_fini() {}
unsigned random_device::_M_getval() { return 7; }
}
#endif
// shuffling gives any permutation
template <class It> static void vp_permute(It a, It b) {
    auto n = b - a;
    for (decltype(n) i = 0; i + 1 < n; i++) { auto j = i + (decltype(n))vp_choose("shuffle", 0, n - 1 - i); auto t = a[i]; a[i] = a[j]; a[j] = t; }
}
namespace std {
template <> inline void shuffle(vector<int>::iterator a, vector<int>::iterator b, mt19937 &) { vp_permute(a, b); }
template <> inline void shuffle(vector<int>::iterator a, vector<int>::iterator b, mt19937_64 &) { vp_permute(a, b); }
}
#ifdef VP_DRAG_STUB // arbitrary positive drags (calcDragCoeff itself: M02)
#define calcDragCoeff(...) calcDragCoeff(__VA_ARGS__) const; void calcDragCoeffReal(__VA_ARGS__)
#endif
#include "Sylinder/SylinderSystem.hpp"
#undef calcDragCoeff
// the neighbour tree, the domain decomposition and the particle exchange are replaced: pairs of particles are G04's and
// the tree library's matter; moving particles between ranks is up to the hook
static int vp_tree_calls = 0, vp_exchange_calls = 0, vp_decompose_calls = 0;
static void (*vp_tree_hook)(CalcSylinderNearForce &, PS::ParticleSystem<Sylinder> &) = nullptr;
static void (*vp_exchange_hook)(PS::ParticleSystem<Sylinder> &) = nullptr;
template <> template <> inline void TreeSylinderNear::calcForceAll(CalcSylinderNearForce f, PS::ParticleSystem<Sylinder> &p, PS::DomainInfo &, const bool, const PS::INTERACTION_LIST_MODE, const bool) { if (vp_rank() == 0) vp_tree_calls++; if (vp_tree_hook) vp_tree_hook(f, p); }
template <> template <> inline void PS::ParticleSystem<Sylinder>::exchangeParticle(PS::DomainInfo &, const bool) { if (vp_rank() == 0) vp_exchange_calls++; if (vp_exchange_hook) vp_exchange_hook(*this); }
template <> inline void PS::DomainInfo::decomposeDomainAll(PS::ParticleSystem<Sylinder> &) { if (vp_rank() == 0) vp_decompose_calls++; }
template <> inline PS::S64 PS::ParticleSystem<Sylinder>::getNumberOfParticleGlobal() const {
    int n = ptcl_.size(), s = n;
    if (vp_nranks() > 1) MPI_Allreduce(&n, &s, 1, MPI_INT, MPI_SUM, MPI_COMM_WORLD);
    return s;
}
#ifdef VP_STRESS_STUB // the stress of a pair becomes any function of what it is asked about (collideStress itself: G06)
struct VpStress { Evec3 dI, dJ, cI, cJ; double hI, hJ, rI, rJ, rho; Evec3 P, Q; Emat3 out; };
static std::vector<VpStress> vp_stress;
static bool vp_stress_real = false;
struct VpNear : CalcSylinderNearForce {
    using CalcSylinderNearForce::CalcSylinderNearForce;
    static void collideStress(const Evec3 &dI, const Evec3 &dJ, const Evec3 &cI, const Evec3 &cJ, double hI, double hJ, double rI, double rJ, double rho, const Evec3 &P, const Evec3 &Q, Emat3 &out) {
        if (vp_stress_real) return CalcSylinderNearForce::collideStress(dI, dJ, cI, cJ, hI, hJ, rI, rJ, rho, P, Q, out);
#pragma omp critical
        {
            for (int k = 0; k < 9; k++) out(k / 3, k % 3) = 16. * (vp_stress.size() + 1) + k;
            vp_stress.push_back(VpStress{dI, dJ, cI, cJ, hI, hJ, rI, rJ, rho, P, Q, out});
        }
    }
};
template <> template <> inline void TreeSylinderNear::calcForceAll(VpNear, PS::ParticleSystem<Sylinder> &, PS::DomainInfo &, const bool, const PS::INTERACTION_LIST_MODE, const bool) { vp_assert(false, "unused"); }
#endif
#include "Trilinos/TpetraUtil.cpp"
#include "Util/Base64.cpp"
#include "Constraint/ConstraintCollector.cpp"
#include "Constraint/ConstraintOperator.cpp"
#include "Constraint/BCQPSolver.cpp"
#ifndef VP_OWN_SOLVER
#include "Constraint/ConstraintSolver.cpp"
#endif
#include "Boundary/Boundary.cpp"
#ifdef VP_DRAG_STUB
#define calcDragCoeff calcDragCoeffReal
#endif
#include "Sylinder/Sylinder.cpp"
#undef calcDragCoeff
#ifdef VP_DRAG_STUB
struct VpDrag { double mu, para, perp, rot; }; // mobilities
static std::vector<VpDrag> vp_drag; // by particle id
void Sylinder::calcDragCoeff(const double viscosity, double &a, double &b, double &c) const {
    vp_assert(vp_identical(viscosity, vp_drag[gid].mu), "the configured viscosity");
    a = 1 / vp_drag[gid].para; b = 1 / vp_drag[gid].perp; c = 1 / vp_drag[gid].rot;
}
#endif
#include "Sylinder/SylinderConfig.cpp"
#ifdef VP_STRESS_STUB
#define CalcSylinderNearForce VpNear
#endif
#ifdef VP_FOLDER
#define to_string vp_to_string
#endif
#include "Sylinder/SylinderSystem.cpp"
#undef CalcSylinderNearForce
#undef to_string

// a particle with any contents
static Sylinder any_sylinder(int gid, bool scalars = true) {
    Sylinder s;
    s.gid = gid;
    for (int k = 0; k < 3; k++) s.pos[k] = vp_double("pos");
    double n = 0;
    for (int k = 0; k < 4; k++) { s.orientation[k] = vp_double("orientation"); n += s.orientation[k] * s.orientation[k]; }
    vp_assume_eq(n, 1);
    s.isImmovable = false; s.group = 0; s.colBuf = 0.3;
    s.radius = vp_double("radius"); s.length = vp_double("length");
    vp_assume((s.radius > 0) & (s.length >= 0));
    s.radiusCollision = s.radius; s.lengthCollision = s.length;
    return s;
}
static Evec3 axis(const Sylinder &s) { // third column of the rotation matrix
    double x = s.orientation[0], y = s.orientation[1], z = s.orientation[2], w = s.orientation[3];
    return Evec3(2 * (x * z + w * y), 2 * (y * z - w * x), 1 - 2 * (x * x + y * y));
}
// a system of n particles, as it is between two steps
static SylinderSystem *make_system(const std::vector<Sylinder> &v, int cap = 4) {
    auto *s = new SylinderSystem;
    s->commRcp = getMPIWORLDTCOMM();
    s->snapID = 0; s->stepCount = 0; s->treeSylinderNumber = 0; s->restartRngSeed = 0;
    s->runConfig.monolayer = false; s->runConfig.sylinderFixed = false;
    s->sylinderContainer.initialize(cap);
    s->sylinderContainer.setNumberOfParticleLocal(v.size());
    for (size_t i = 0; i < v.size(); i++) s->sylinderContainer[i] = v[i];
    return s;
}

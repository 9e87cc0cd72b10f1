// near-field pair interaction: closest points come from a contract stand-in of the two distance queries (G01, G02),
// which also checks that it is asked about the right segments
#pragma once
#include "vp.h"
#include <omp.h>
#include <mpi.h>
#include <cmath>
#include "Util/EigenDef.hpp"
#include "Collision/DCPQuery.hpp"
struct vp_pair { // closest points of particles A and B
    Evec3 cA, cB, hA, hB; // centres, half axes
    double sA, sB; // closest points cA + sA*hA, cB + sB*hB
    Evec3 P, Q;
    double d;
    bool ballA = false, ballB = false;
};
static std::vector<vp_pair> vp_pairs;
static bool vp_same(const Evec3 &a, const Evec3 &b) {
    return vp_identical(a[0], b[0]) && vp_identical(a[1], b[1]) && vp_identical(a[2], b[2]);
}
static bool vp_seg(const Evec3 &a, const Evec3 &b, const Evec3 &c, const Evec3 &h, bool &rev) {
    rev = false;
    if (vp_same(a, c - h) && vp_same(b, c + h)) return true;
    rev = true;
    return vp_same(a, c + h) && vp_same(b, c - h);
}
template <>
inline double DCPQuery<3, double, Evec3>::operator()(Evec3 const &P0, Evec3 const &P1, Evec3 const &Q0, Evec3 const &Q1, Evec3 &Ploc, Evec3 &Qloc, double &s, double &t) {
    for (auto &p : vp_pairs) {
        bool r1, r2;
        if (vp_seg(P0, P1, p.cA, p.hA, r1) && vp_seg(Q0, Q1, p.cB, p.hB, r2)) {
            Ploc = p.P; Qloc = p.Q; s = (1 + (r1 ? -p.sA : p.sA)) / 2; t = (1 + (r2 ? -p.sB : p.sB)) / 2; return p.d;
        }
        if (vp_seg(P0, P1, p.cB, p.hB, r1) && vp_seg(Q0, Q1, p.cA, p.hA, r2)) {
            Ploc = p.Q; Qloc = p.P; s = (1 + (r1 ? -p.sB : p.sB)) / 2; t = (1 + (r2 ? -p.sA : p.sA)) / 2; return p.d;
        }
    }
    vp_assert(false, "the distance is taken between the centre lines of the two particles");
    return 0;
}
template <>
inline double DCPQuery<3, double, Evec3>::operator()(Evec3 const &P0, Evec3 const &P1, Evec3 const &Q0, Evec3 const &Q1, Evec3 &Ploc, Evec3 &Qloc) {
    double s, t;
    return (*this)(P0, P1, Q0, Q1, Ploc, Qloc, s, t);
}
template <>
inline double DistPointSeg<Evec3>(const Evec3 &point, const Evec3 &minus, const Evec3 &plus, Evec3 &loc) {
    for (auto &p : vp_pairs) {
        bool r;
        if (p.ballA && !p.ballB && vp_same(point, p.cA) && vp_seg(minus, plus, p.cB, p.hB, r)) { loc = p.Q; return p.d; }
        if (p.ballB && !p.ballA && vp_same(point, p.cB) && vp_seg(minus, plus, p.cA, p.hA, r)) { loc = p.P; return p.d; }
    }
    vp_assert(false, "the distance is taken between the sphere centre and the centre line of the rod");
    return 0;
}
#include <fstream>
#include <sstream>
#include <memory>
#include <random>
#include <chrono>
#include <deque>
#include "Sylinder/SylinderNear.hpp"
static double pos_double(const char *n) { double x = vp_double(n); vp_assume(x >= 0); return x; }
// particle with arbitrary sizes; sphere or rod by the collision sizes
static SylinderNearEP any_ep(int gid, bool sphere) {
    SylinderNearEP e;
    e.gid = gid; e.globalIndex = vp_i32("index"); e.rank = vp_i32("rank");
    e.radius = pos_double("radius"); e.length = pos_double("length");
    e.radiusCollision = pos_double("radiusCollision"); e.lengthCollision = pos_double("lengthCollision");
    e.colBuf = pos_double("colBuf");
    vp_assume(e.radiusCollision > 0);
    vp_assume(sphere ? e.lengthCollision < 2 * e.radiusCollision : e.lengthCollision >= 2 * e.radiusCollision);
    return e;
}
static bool sphere(const SylinderNearEP &e) { return e.lengthCollision < 2 * e.radiusCollision; }
static double reff(const SylinderNearEP &e) { return sphere(e) ? e.radiusCollision + 0.5 * e.lengthCollision : e.radiusCollision; }
static bool vp_zeroA = false, vp_zeroB = false; // contact at the particle's centre
// places A and B so that n*d joins their closest points, with unit n pointing from B to A
static vp_pair place(SylinderNearEP &A, SylinderNearEP &B, Evec3 &n) {
    vp_pair p; Evec3 dA, dB;
    for (int k = 0; k < 3; k++) { p.cA[k] = vp_double("centreA"); n[k] = vp_double("n"); dA[k] = vp_double("dirA"); dB[k] = vp_double("dirB"); }
    vp_assume_eq(n.dot(n), 1); vp_assume_eq(dA.dot(dA), 1); vp_assume_eq(dB.dot(dB), 1);
    p.d = vp_double("distance"); vp_assume(p.d > 1e-3);
    p.sA = vp_double("sA"); p.sB = vp_double("sB");
    vp_assume((p.sA >= -1) & (p.sA <= 1) & (p.sB >= -1) & (p.sB <= 1));
    bool a = sphere(A), b = sphere(B);
    p.ballA = a; p.ballB = b;
    if (a || vp_zeroA) p.sA = 0;
    if (b || vp_zeroB) p.sB = 0;
    p.hA = dA * (0.5 * A.lengthCollision); p.hB = dB * (0.5 * B.lengthCollision);
    p.P = p.cA + p.hA * p.sA; p.Q = p.P - n * p.d; p.cB = p.Q - p.hB * p.sB;
    for (int k = 0; k < 3; k++) { A.pos[k] = p.cA[k]; B.pos[k] = p.cB[k]; A.direction[k] = dA[k]; B.direction[k] = dB[k]; }
    return p;
}
static std::vector<ConstraintBlock> collect(const SylinderNearEP *t, int nt, const SylinderNearEP *s, int ns) {
    auto pool = std::make_shared<ConstraintBlockPool>(1);
    CalcSylinderNearForce f(pool);
    std::vector<ForceNear> force(nt);
    f(t, nt, s, ns, force.data());
    std::vector<ConstraintBlock> v;
    for (auto &q : *pool) for (auto &b : q) v.push_back(b);
    return v;
}

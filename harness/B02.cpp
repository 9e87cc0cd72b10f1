// B02: contacts with boundaries.  A boundary is any surface: for every query it gives some nearest point.
#include "sys.hpp"
struct Answer { Evec3 q, u; double d; bool outside; };
struct AnySurface : public Boundary {
    mutable std::vector<Answer> seen;
    void initialize(const YAML::Node &) {}
    void echo() const {}
    bool check(const double *, const double *, const double *) const { return true; }
    Answer &at(const Evec3 &q) const {
        for (auto &a : seen) if (vp_identical(a.q[0], q[0]) && vp_identical(a.q[1], q[1]) && vp_identical(a.q[2], q[2])) return a;
        Answer a; a.q = q; a.d = vp_double("distance"); a.outside = vp_choose("outside", 0, 1);
        vp_assume((a.d > 1e-3) & (a.d < 1e3));
        double n = 0;
        for (int k = 0; k < 3; k++) { a.u[k] = vp_double("normal"); n += a.u[k] * a.u[k]; }
        vp_assume_eq(n, 1);
        seen.push_back(a);
        return seen.back();
    }
    void project(const double q[3], double p[3], double delta[3]) const {
        Answer *a;
#pragma omp critical(surface)
        a = &at(Evec3(q[0], q[1], q[2]));
        const Answer c = *a;
        for (int k = 0; k < 3; k++) { delta[k] = c.d * c.u[k]; p[k] = c.outside ? q[k] + delta[k] : q[k] - delta[k]; }
    }
};
static void contacts(int n, int nb, int shape, int threads) {
    std::vector<Sylinder> all;
    for (int i = 0; i < n; i++) {
        Sylinder y = any_sylinder(5 + i);
        y.globalIndex = 9 + i;
        y.radius = vp_double("radius"); y.length = vp_double("length"); // not what is used
        for (double x : {y.radiusCollision, y.lengthCollision}) vp_assume((x < 1e3) & (x >= 0));
        if (shape == 0) vp_assume(y.lengthCollision < 2 * y.radiusCollision);
        if (shape == 1) vp_assume(y.lengthCollision >= 2 * y.radiusCollision);
        all.push_back(y);
    }
    vp_threads(threads);
    auto *s = make_system(all);
    s->runConfig.sylinderColBuf = vp_double("colBuf");
    vp_assume((s->runConfig.sylinderColBuf >= 0) & (s->runConfig.sylinderColBuf < 10));
    s->conCollectorPtr = std::make_shared<ConstraintCollector>();
    std::vector<std::shared_ptr<AnySurface>> b;
    for (int k = 0; k < nb; k++) { b.push_back(std::make_shared<AnySurface>()); s->runConfig.boundaryPtr.push_back(b.back()); }
    for (auto &x : b) x->seen.reserve(8);
    // what is expected
    struct Want { Answer a; int i; double rad; bool near; };
    std::vector<Want> want;
    for (int k = 0; k < nb; k++) for (int i = 0; i < n; i++) {
        const Sylinder &y = all[i];
        bool sphere = y.lengthCollision < 2 * y.radiusCollision;
        Evec3 c(y.pos[0], y.pos[1], y.pos[2]), d = axis(y);
        auto add = [&](const Evec3 &q, double rad) {
            Want w; w.i = i; w.rad = rad; w.a = b[k]->at(q);
            double t = (1 + 2 * s->runConfig.sylinderColBuf) * rad;
            if (!vp_is_symbolic() && std::fabs(w.a.d - t) < 1e-9 * (1 + t)) vp_ignore(); // decided by rounding
            w.near = w.a.outside || w.a.d < t;
            want.push_back(w);
        };
        if (sphere) add(c, y.radiusCollision + 0.5 * y.lengthCollision);
        else { add(c - 0.5 * y.lengthCollision * d, y.radiusCollision); add(c + 0.5 * y.lengthCollision * d, y.radiusCollision); }
    }
    s->collectBoundaryCollision();
    std::vector<ConstraintBlock> got;
    for (auto &q : *s->conCollectorPtr->constraintPoolPtr) for (auto &c : q) got.push_back(c);
    size_t used = 0;
    std::vector<char> taken(got.size(), 0);
    for (auto &w : want) {
        const Evec3 &q = w.a.q, c(all[w.i].pos[0], all[w.i].pos[1], all[w.i].pos[2]);
        const ConstraintBlock *f = nullptr; int found = 0;
        for (auto &g : got) {
            if (f) break;
            if (taken[&g - &got[0]]) continue;
            bool same = g.gidI == all[w.i].gid;
            for (int k = 0; k < 3; k++) same = same && vp_identical(g.labI[k], q[k]) && vp_identical(g.labJ[k], w.a.outside ? q[k] + w.a.d * w.a.u[k] : q[k] - w.a.d * w.a.u[k]);
            if (same) { f = &g; found++; taken[&g - &got[0]] = true; }
        }
        if (w.near) vp_assert(found == 1, "one constraint for each end that is outside or near");
        else vp_assert(found == 0, "no constraint for an end that is inside and not near");
        if (!found) { vp_reach("none"); continue; }
        used++;
        const ConstraintBlock &g = *f;
        vp_assert_eq(g.delta0, (w.a.outside ? -w.a.d : w.a.d) - w.rad, "the surface gap");
        vp_assert(g.oneSide && !g.bilateral, "one sided and unilateral");
        vp_assert(g.gidI == all[w.i].gid && g.globalIndexI == all[w.i].globalIndex, "the particle's own identity");
        vp_assert_eq(g.gamma, 0, "initial multiplier"); vp_assert_eq(g.gammaLB, 0, "lower bound"); vp_assert_eq(g.kappa, 0, "no spring");
        for (int k = 0; k < 3; k++) {
            vp_assert_eq(g.normI[k], w.a.u[k], "unit normal into the allowed region");
            vp_assert_eq(g.posI[k], q[k] - c[k], "contact point relative to the centre");
            vp_assert_eq(g.labI[k], q[k], "contact point in the laboratory frame");
            vp_assert_eq(g.labJ[k], w.a.outside ? q[k] + w.a.d * w.a.u[k] : q[k] - w.a.d * w.a.u[k], "nearest point of the boundary");
        }
        vp_reach("contact");
    }
    vp_assert(used == got.size(), "no other constraint");
    vp_reach("checked");
}
VP_ENTRY(b02_sphere) { contacts(1, 1, 0, 1); }
VP_ENTRY(b02_rod) { contacts(1, 1, 1, 1); }
VP_ENTRY(b02_any) { contacts(1, 1, 2, 1); }
VP_ENTRY(b02_boundaries) { contacts(1, 2, 0, 1); }
VP_ENTRY(b02_two) { contacts(2, 1, 0, 1); }
VP_ENTRY(b02_none) { contacts(vp_choose("particles", 0, 1), vp_choose("boundaries", 0, 0), 0, 1); }
VP_ENTRY(b02_threads) { contacts(2, 1, 0, 2); }

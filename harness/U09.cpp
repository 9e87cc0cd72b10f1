// U09: VTK output
#define VP_FILES
#include "sys.hpp"
#include "nocout.hpp"
#include "out.hpp"
typedef double (Sylinder::*Field)[3];
struct Named { const char *name; Field f; };
static const Named vectors[] = {{"vel", &Sylinder::vel}, {"omega", &Sylinder::omega}, {"velCollision", &Sylinder::velCol}, {"omegaCollision", &Sylinder::omegaCol}, {"velBilateral", &Sylinder::velBi}, {"omegaBilateral", &Sylinder::omegaBi},
    {"velNonBrown", &Sylinder::velNonB}, {"omegaNonBrown", &Sylinder::omegaNonB}, {"velBrown", &Sylinder::velBrown}, {"omegaBrown", &Sylinder::omegaBrown}, {"force", &Sylinder::force}, {"torque", &Sylinder::torque},
    {"forceCollision", &Sylinder::forceCol}, {"torqueCollision", &Sylinder::torqueCol}, {"forceBilateral", &Sylinder::forceBi}, {"torqueBilateral", &Sylinder::torqueBi}, {"forceNonBrown", &Sylinder::forceNonB}, {"torqueNonBrown", &Sylinder::torqueNonB}};
static Sylinder full(int gid) {
    Sylinder y = any_sylinder(gid);
    y.group = vp_i32("group"); vp_assume((y.group > -1000) & (y.group < 1000)); y.isImmovable = gid % 2;
    y.radiusCollision = vp_double("x"); y.lengthCollision = vp_double("x");
    for (auto &f : vectors) for (int k = 0; k < 3; k++) (y.*f.f)[k] = vp_double(f.name);
    return y;
}
static ConstraintBlock block(int id) {
    ConstraintBlock b;
    b.gidI = 10 * id; b.gidJ = 10 * id + 1; b.globalIndexI = 7 * id; b.globalIndexJ = 7 * id + 3; b.oneSide = id & 1; b.bilateral = id & 2;
    b.delta0 = vp_double("x"); b.gamma = vp_double("x"); b.kappa = vp_double("x");
    for (int k = 0; k < 3; k++) { b.normI[k] = vp_double("x"); b.normJ[k] = vp_double("x"); b.posI[k] = vp_double("x"); b.posJ[k] = vp_double("x"); b.labI[k] = vp_double("x"); b.labJ[k] = vp_double("x"); }
    for (int k = 0; k < 9; k++) b.stress[k] = vp_double("x");
    return b;
}
static void value(const Vtk &p, const char *section, const char *name, int i, int k, double want) {
    auto &a = get(p, section, name);
    vp_assert_eq(a.data->v[i * a.comps + k], want, "the field's own value");
}
static void particles(const Vtk &p, const std::vector<Sylinder> &v) {
    vp_assert_eqi(p.lines, v.size(), "one line per particle");
    for (size_t i = 0; i < v.size(); i++) {
        auto &y = v[i];
        Evec3 d = axis(y);
        Evec3 x(1 - 2 * (y.orientation[1] * y.orientation[1] + y.orientation[2] * y.orientation[2]), 2 * (y.orientation[0] * y.orientation[1] + y.orientation[3] * y.orientation[2]), 2 * (y.orientation[0] * y.orientation[2] - y.orientation[3] * y.orientation[1]));
        value(p, "CellData", "gid", i, 0, y.gid); value(p, "CellData", "group", i, 0, y.group); value(p, "CellData", "isImmovable", i, 0, y.isImmovable);
        value(p, "CellData", "radius", i, 0, y.radius); value(p, "CellData", "radiusCollision", i, 0, y.radiusCollision);
        value(p, "CellData", "length", i, 0, y.length); value(p, "CellData", "lengthCollision", i, 0, y.lengthCollision);
        for (int k = 0; k < 3; k++) {
            for (auto &f : vectors) value(p, "CellData", f.name, i, k, (y.*f.f)[k]);
            value(p, "CellData", "xnorm", i, k, x[k]); value(p, "CellData", "znorm", i, k, d[k]);
            value(p, "Points", "position", 2 * i, k, y.pos[k] - 0.5 * y.length * d[k]); value(p, "Points", "position", 2 * i + 1, k, y.pos[k] + 0.5 * y.length * d[k]);
        }
        value(p, "PointData", "endLabel", 2 * i, 0, 0); value(p, "PointData", "endLabel", 2 * i + 1, 0, 1);
    }
    vp_reach("particles");
}
static void constraints(const Vtk &p, const std::vector<ConstraintBlock> &v) {
    vp_assert_eqi(p.lines, v.size(), "one line per constraint");
    for (size_t i = 0; i < v.size(); i++) {
        auto &b = v[i];
        for (int j = 0; j < 2; j++) {
            value(p, "PointData", "gid", 2 * i + j, 0, j ? b.gidJ : b.gidI); value(p, "PointData", "globalIndex", 2 * i + j, 0, j ? b.globalIndexJ : b.globalIndexI);
            for (int k = 0; k < 3; k++) {
                value(p, "PointData", "posIJ", 2 * i + j, k, j ? b.posJ[k] : b.posI[k]); value(p, "PointData", "normIJ", 2 * i + j, k, j ? b.normJ[k] : b.normI[k]);
                value(p, "Points", "position", 2 * i + j, k, j ? b.labJ[k] : b.labI[k]);
            }
        }
        value(p, "CellData", "oneSide", i, 0, b.oneSide); value(p, "CellData", "bilateral", i, 0, b.bilateral);
        value(p, "CellData", "delta0", i, 0, b.delta0); value(p, "CellData", "gamma", i, 0, b.gamma); value(p, "CellData", "kappa", i, 0, b.kappa);
        for (int k = 0; k < 9; k++) value(p, "CellData", "Stress", i, k, b.stress[k]);
    }
    vp_reach("constraints");
}
static void output(int ranks, int maxn, int threads) {
    vp_threads(threads);
    SylinderSystem *s[3]; std::vector<Sylinder> v[3]; std::vector<ConstraintBlock> c[3];
    int id = 0;
    for (int r = 0; r < ranks; r++) {
        int n = vp_choose("particles", 0, maxn), m = r ? 1 - n : (n + vp_choose("constraints", 0, 1)) % (maxn + 1);
        for (int i = 0; i < n; i++) v[r].push_back(full(10 * r + i));
        s[r] = make_system(v[r]);
        s[r]->snapID = 42;
        s[r]->conCollectorPtr = std::make_shared<ConstraintCollector>();
        auto &pool = *s[r]->conCollectorPtr->constraintPoolPtr;
        for (size_t q = 0; q < pool.size(); q++) for (int i = 0; i < m; i++) { ConstraintBlock b = block(++id); pool[q].push_back(b); c[r].push_back(b); }
    }
    vp_disk.clear();
    vp_run_ranks(ranks, [&](int r) { s[r]->writeVTK("./here/"); });
    Vtk h = parse("./here/Sylinder_42.pvtp"), g = parse("./here//ConBlock_42.pvtp");
    vp_assert_eqi(h.pieces.size(), ranks, "one piece per rank"); vp_assert_eqi(g.pieces.size(), ranks, "one piece per rank");
    for (int r = 0; r < ranks; r++) {
        vp_assert(h.pieces[r] == "Sylinder_r" + std::to_string(r) + "_42.vtp", "the piece's file"); vp_assert(g.pieces[r] == "ConBlock_r" + std::to_string(r) + "_42.vtp", "the piece's file");
        Vtk p = parse("./here/" + h.pieces[r]), q = parse("./here//" + g.pieces[r]);
        matching(h, p); matching(g, q);
        particles(p, v[r]); constraints(q, c[r]);
    }
    vp_reach("written");
}
VP_ENTRY(u09_one) { output(1, 2, 1); }
VP_ENTRY(u09_threads) { output(1, 1, 2); }
VP_ENTRY(u09_ranks) { output(2, 1, 1); }

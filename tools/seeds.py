SEEDS = []
def S(id, prop, edits, needs, breaks, demo, **kw):
    if not isinstance(edits, list): edits = [edits]
    SEEDS.append(dict(id=id, prop=prop, edits=edits, needs=needs, breaks=breaks, demo=demo, **kw))

S("g01-corner-edge", "G01", ("Collision/DCPQuery.hpp", """        } else {
            edge[1] = 0;
            end[1][0] = (Real)0;
            end[1][1] = mF00 / mB;
            if (end[1][1] < (Real)0 || end[1][1] > (Real)1) {
                end[1][1] = (Real)0.5;
            }
        }
    }
}""", """        } else {
            edge[1] = 3;
            end[1][0] = (Real)0;
            end[1][1] = mF00 / mB;
            if (end[1][1] < (Real)0 || end[1][1] > (Real)1) {
                end[1][1] = (Real)0.5;
            }
        }
    }
}"""), "second segment long and crossing the first against its direction, minimum on the end s=0 of the first segment beyond the conjugate line's end",
 "the wrong edge label makes the query return the end of the conjugate line instead of the minimum on the edge s=0",
 r"""#include "Util/EigenDef.hpp"
#include "Collision/DCPQuery.hpp"
#include <random>
#include <cstdio>
int main() {
    std::mt19937 g(7); std::uniform_real_distribution<double> u(-1, 1); DCPQuery<3, double, Evec3> q; int bad = 0;
    for (int k = 0; k < 400000; k++) {
        Evec3 p0(u(g), u(g), u(g)), p1(u(g), u(g), u(g)), a, b; double L = 8;
        Evec3 q0 = L * Evec3(u(g), u(g), u(g)), q1 = L * Evec3(u(g), u(g), u(g));
        double d = q(p0, p1, q0, q1, a, b);
        for (int i = 0; i <= 10; i++) { Evec3 x = p0 + i / 10.0 * (p1 - p0), y; if (DistPointSeg(x, q0, q1, y) < d - 1e-6) bad++; }
    }
    printf("bad %d\n", bad); return bad != 0;
}
""")
S("b01-tube-sq", "B01", ("Boundary/Boundary.cpp", "    Evec3 ProjAxisQ = Query - ProjAxis;\n    Evec3 Proj = ProjAxis + radius * (ProjAxisQ.normalized());\n    Evec3 delta = Query - Proj;\n    if (ProjAxisQ.norm() > radius) { // Q is outside the tube",
  "    Evec3 ProjAxisQ = Query - ProjAxis;\n    Evec3 Proj = ProjAxis + radius * (ProjAxisQ.normalized());\n    Evec3 delta = Query - Proj;\n    if (std::max(ProjAxisQ.norm(), fabs(t) / 64) > radius) { // Q is outside the tube"),
 "query far (more than 64 radii) along the axis of a tube, inside its radius", "delta of a point far along the tube's axis is reversed",
 r"""#include "Boundary/Boundary.cpp"
int main() {
    double c[3] = {0, 0, 0}, a[3] = {0, 0, 1}; Tube t(c, a, 2.0, true);
    double q[3] = {1, 0, 500}, p[3], d[3]; t.project(q, p, d);
    return !(d[0] < 0);
}
""", mpi=True, libs="-lyaml-cpp")
S("u06-tail", "U06", ("Util/Base64.hpp", "dest[1] = kwsysBase64EncodeChar(((src[0] << 4) & 0x30) | ((src[1] >> 4) & 0x0F));\n        dest[2] = kwsysBase64EncodeChar(((src[1] << 2) & 0x3C));",
  "dest[1] = kwsysBase64EncodeChar(((src[0] << 4) & 0x30) | ((src[1] >> 4) & 0x0F));\n        dest[2] = kwsysBase64EncodeChar(((src[1] << 2) & 0x38));"),
 "length congruent to 2 modulo 3 and last byte odd", "lowest bit of the last byte of a two-byte tail is lost",
 r"""#include "Util/Base64.cpp"
int main() { int bad = 0;
    for (int n = 0; n < 12; n++) { std::vector<unsigned char> v(n, 0xA5), o(64); std::string s; B64Converter::kwsysBase64_Encode(v.data(), n, s);
        size_t m = B64Converter::kwsysBase64_Decode((const unsigned char *)s.data(), n, o.data(), 0); if (m != n) bad++; for (int i = 0; i < n; i++) bad += o[i] != v[i]; }
    return bad != 0; }
""")
S("m03-frame", "M03", ("Util/EquatnHelper.hpp", "cw * p + sw * winv * (omega.cross(p));", "cw * p - sw * winv * (omega.cross(p));"),
 "orientation whose axis is not parallel to the angular velocity", "rotation is composed in the body frame instead of the lab frame",
 r"""#include "Util/EquatnHelper.hpp"
int main() { Equatn q = Equatn::FromTwoVectors(Evec3(0, 0, 1), Evec3(1, 0, 0)); Evec3 w(0, 0, 1); double dt = 0.3;
    Evec3 d0 = q * Evec3(0, 0, 1); EquatnHelper::rotateEquatn(q, w, dt); Evec3 d1 = q * Evec3(0, 0, 1);
    Evec3 e = Eigen::AngleAxisd(dt, Evec3(0, 0, 1)) * d0; return (d1 - e).norm() > 1e-9; }
""")
TP = dict(cc='mpicxx -std=c++17 -O1 -w -DNDEBUG -fopenmp -include /opt/vp/compat/trilinos13.hpp -I/repo -I/usr/include/eigen3 -I/usr/include/trilinos',
          libs='/opt/vp/compat/libtpetra_int_int.so -Wl,-rpath,/opt/vp/compat -ltrilinos_tpetra -ltrilinos_tpetraclassic -ltrilinos_kokkoscore -ltrilinos_teuchoscore -ltrilinos_teuchoscomm -ltrilinos_teuchosparameterlist -ltrilinos_teuchosnumerics -ltrilinos_kokkoskernels -ltrilinos_teuchoskokkoscompat -ltrilinos_tpetraext')
RUN2 = 'timeout 120 mpirun --allow-run-as-root --oversubscribe -n 2 ./demo'
MPI = dict(mpi=True, run=RUN2)

S("u07-unstable", "U07", ("Util/SortUtil.hpp", "    std::stable_sort(indices.begin(), indices.end(), comp);", "    std::sort(indices.begin(), indices.end(), comp);"),
 "more than 16 entries with equal keys", "equal keys lose their order", r"""#include "Util/SortUtil.hpp"
int main() { std::vector<int> t, d; for (int i = 0; i < 200; i++) { t.push_back(i % 3); d.push_back(i); } sortDataWithTag(t, d);
    for (size_t i = 1; i < t.size(); i++) if (t[i] < t[i - 1] || (t[i] == t[i - 1] && d[i] < d[i - 1])) return 1; return 0; }
""", flags="-fopenmp")
S("u01-stale-counts", "U01", ("MPI/CommMPI.hpp", """    // forward scatter from sendData to recvData
    clear();""", """    // forward scatter from sendData to recvData
    if (sendData.size() > 0)
        clear();"""),
 "a rank that sends data in one exchange and nothing in a later one with the same object", "the counts of the earlier exchange are sent again",
 r"""#include "MPI/CommMPI.hpp"
int main(int c, char **v) { MPI_Init(&c, &v); int bad = 0; { CommMPI m; int me = m.getRank(); std::vector<int> dest{0, 1, 1}, src; std::vector<double> d{1. + me, 2. + me, 3. + me}, r;
    d.reserve(100); m.exchangeAllToAllV(dest, d, src, r); dest.clear(); d.clear(); m.exchangeAllToAllV(dest, d, src, r); bad = !r.empty(); }
    MPI_Finalize(); return bad; }
""", **MPI)
S("c02-zero-alpha", "C02", ("Constraint/ConstraintOperator.cpp", "            DMatRcp->apply(*XcolRcp, *forceRcp); // Du gammac", "            if (alpha != 0)\n                DMatRcp->apply(*XcolRcp, *forceRcp); // Du gammac"),
 "apply with alpha = 0 followed by reading the force", "the exposed force is that of an earlier input",
 r"""#include "Trilinos/TpetraUtil.cpp"
#include "Constraint/ConstraintOperator.cpp"
int main(int c, char **v) { Tpetra::ScopeGuard g(&c, &v); auto comm = getMPIWORLDTCOMM(); auto rm = getTMAPFromLocalSize(1, comm), mm = getTMAPFromLocalSize(6, comm);
    auto crs = [&](Teuchos::RCP<TMAP> row, int rows, int cols) { Kokkos::View<size_t *> p("p", rows + 1); Kokkos::View<int *> j("j", rows * cols); Kokkos::View<double *> a("a", rows * cols); p[0] = 0;
        for (int i = 0; i < rows; i++) { p[i + 1] = (i + 1) * cols; for (int k = 0; k < cols; k++) { j[i * cols + k] = k; a[i * cols + k] = rows == 1 ? 1 + k : i == k; } }
        auto m = Teuchos::rcp(new TCMAT(row, mm, p, j, a)); m->fillComplete(mm, row); return m; };
    Teuchos::RCP<TCMAT> D = crs(rm, 1, 6); Teuchos::RCP<TOP> M = crs(mm, 6, 6); Teuchos::RCP<TV> ik = Teuchos::rcp(new TV(rm, true));
    ConstraintOperator op(M, D, ik); TV x(rm, true), y(rm, true); x.putScalar(1); op.apply(x, y, Teuchos::NO_TRANS, 1.0, 0.0);
    x.putScalar(5); op.apply(x, y, Teuchos::NO_TRANS, 0.0, 1.0); auto f = op.getForce(); return fabs(f->normInf() - 30) > 1e-9; }
""", **TP)
S("c03-apgd-best", "C03", ("Constraint/BCQPSolver.cpp", "        if (resPhi < resmin) {", "        if (resPhi < 2 * resmin) {"),
 "an APGD run whose residual rises by less than a factor two and which then runs out of iterations", "APGD does not return its best iterate",
 r"""#include "Trilinos/TpetraUtil.cpp"
#include "Constraint/BCQPSolver.cpp"
#include <random>
int main(int c, char **v) { spdlog::set_level(spdlog::level::off); Tpetra::ScopeGuard g(&c, &v); auto comm = getMPIWORLDTCOMM(); const int n = 6; auto mm = getTMAPFromLocalSize(n, comm); int bad = 0; std::mt19937 r(3); std::uniform_real_distribution<double> u(-1, 1);
    for (int t = 0; t < 10; t++) { double B[n][n], Am[n][n]; for (auto &row : B) for (double &x : row) x = u(r);
      Kokkos::View<size_t *> p("p", n + 1); Kokkos::View<int *> j("j", n * n); Kokkos::View<double *> a("a", n * n); p[0] = 0;
      for (int i = 0; i < n; i++) { p[i + 1] = (i + 1) * n; for (int k = 0; k < n; k++) { double s = i == k ? 0.01 : 0; for (int l = 0; l < n; l++) s += B[l][i] * B[l][k]; Am[i][k] = s; j[i * n + k] = k; a[i * n + k] = s; } }
      Teuchos::RCP<TCMAT> m = Teuchos::rcp(new TCMAT(mm, mm, p, j, a)); m->fillComplete(mm, mm);
      std::vector<double> bv(n), x0(n); for (double &x : bv) x = u(r); for (double &x : x0) x = u(r);
      Teuchos::RCP<const TOP> A = m; auto b = getTVFromVector(bv, comm); BCQPSolver s(A, b); s.getLowerBound()->putScalar(-0.3); s.getUpperBound()->putScalar(0.3);
      for (int lim = 2; lim < 20; lim++) { auto x = getTVFromVector(x0, comm); IteHistory h; s.solveAPGD(x, 1e-14, lim, h); double best = 1e300; for (size_t i = 1; i < h.size(); i++) best = std::min(best, h[i][4]);
        auto xv = x->getLocalView<Kokkos::HostSpace>(); double q = 0; for (int i = 0; i < n; i++) { double gr = bv[i]; for (int k = 0; k < n; k++) gr += Am[i][k] * xv(k, 0);
            if (xv(i, 0) <= -0.3 + 1e-15) gr = std::min(gr, 0.); if (xv(i, 0) >= 0.3 - 1e-15) gr = std::max(gr, 0.); q += gr * gr; }
        if (sqrt(q) > best * (1 + 1e-6) + 1e-12) bad++; } }
    printf("bad %d\n", bad); return bad != 0; }
""", **TP)
S("c06-queue-base", "C06", ("Constraint/ConstraintCollector.cpp", "    for (int i = 1; i < cQueNum + 1; i++) {\n        cQueIndex[i] = cQueSize[i - 1] + cQueIndex[i - 1];\n    }", "    for (int i = 1; i < cQueNum + 1; i++) {\n        cQueIndex[i] = cQueSize[i - 1] > 0 ? cQueSize[i - 1] + cQueIndex[i - 1] : i - 1;\n    }"),
 "an empty queue between non-empty ones, as when one thread finds no contact", "multipliers of later queues are written to the wrong blocks",
 r"""#include "Trilinos/TpetraUtil.cpp"
#include "Constraint/ConstraintCollector.cpp"
#include "Util/Base64.cpp"
int main(int c, char **v) { Tpetra::ScopeGuard g(&c, &v); auto comm = getMPIWORLDTCOMM(); omp_set_num_threads(3); ConstraintCollector k; auto &p = *k.constraintPoolPtr; ConstraintBlock b; for (double &x : b.stress) x = 1;
    p[0].push_back(b); p[0].push_back(b); p[2].push_back(b); std::vector<double> gm{1, 2, 3}; k.writeBackGamma(getTVFromVector(gm, comm).getConst());
    return !(p[0][0].gamma == 1 && p[0][1].gamma == 2 && p[2][0].gamma == 3 && p[2][0].stress[4] == 3); }
""", **TP)
S("c01-columns", "C01", ("Constraint/ConstraintCollector.cpp", "        if (columnIndices[i] < mobMin || columnIndices[i] > mobMax)\n            colMapIndex.push_back(columnIndices[i]);", "        if (columnIndices[i] > mobMax)\n            colMapIndex.push_back(columnIndices[i]);"),
 "a block whose second particle lives on a lower rank", "the entries of that particle's columns get an invalid column",
 r"""#include "Trilinos/TpetraUtil.cpp"
#include "Constraint/ConstraintCollector.cpp"
#include "Util/Base64.cpp"
int main(int c, char **v) { Tpetra::ScopeGuard g(&c, &v); int bad = 0; { auto comm = getMPIWORLDTCOMM(); int me = comm->getRank(); ConstraintCollector k; auto &p = *k.constraintPoolPtr; double n[3] = {0, 0, 1}, z[3] = {0, 0, 0}; 
    ConstraintBlock b(0.1, 0.2, 0, 1, me, 1 - me, n, n, z, z, z, z, false, false, 0., 0.); p[0].push_back(b);
    Teuchos::RCP<const TMAP> mob = getTMAPFromLocalSize(6, comm); Teuchos::RCP<TCMAT> D; Teuchos::RCP<TV> d, ik, bf, gg; 
    TV f(mob, true); f.putScalar(me + 1.0);
    try { k.buildConstraintMatrixVector(mob, D, d, ik, bf, gg); TV y(d->getMap(), true); D->apply(f, y); auto yv = y.getLocalView<Kokkos::HostSpace>(); bad = fabs(yv(0, 0) - 3) > 1e-12; } catch (...) { bad = 1; }
    if (bad) { fflush(0); MPI_Abort(MPI_COMM_WORLD, 1); } }
    return bad; }
""", run=RUN2, **TP)
S("m02-short", "M02", ("Sylinder/Sylinder.cpp", "        const double b = -(1 + 2 * log(radius / (length)));", "        const double b = -(1 + 2 * log(radius / (length + radius * 1e-3)));"),
 "any rod; visible in the fourth digit of the drag only", "drag of a rod is not the slender-body value",
 r"""#include "Sylinder/Sylinder.cpp"
int main() { double z[3] = {0, 0, 0}, o[4] = {0, 0, 0, 1}; Sylinder s(0, 0.5, 0.5, 1.5, 1.5, z, o); double a, b, c; s.calcDragCoeff(1.0, a, b, c); double be = 2 * log(3.0) - 1;
    return fabs(a - 8 * M_PI * 1.5 / (2 * be)) > 1e-9 || fabs(b - 8 * M_PI * 1.5 / (2 + be)) > 1e-9; }
""", mpi=True)
S("m03-clear", "M03", ("Sylinder/Sylinder.cpp", "    Emap3(omegaBi).setZero();\n    Emap3(velNonB).setZero();", "    Emap3(omegaCol).setZero();\n    Emap3(velNonB).setZero();"),
 "a particle that had a bilateral angular velocity", "the bilateral angular velocity survives a reset",
 r"""#include "Sylinder/Sylinder.cpp"
int main() { Sylinder s; for (int k = 0; k < 3; k++) s.omegaBi[k] = s.omegaCol[k] = 1; s.clear(); return s.omegaBi[0] != 0 || s.omegaCol[1] != 0; }
""", mpi=True)
S("g04-sphere-range", "G04", ("Sylinder/SylinderNear.hpp", "        if (sep < (radI * spI.colBuf + syJ.radiusCollision * syJ.colBuf)) {", "        if (sep < (radI + syJ.radiusCollision) * syJ.colBuf) {"),
 "a sphere and a rod with different collision buffers near the edge of the range", "the rod's buffer is used for the sphere too",
 r"""#include "Sylinder/Sylinder.cpp"
#include "Util/Base64.cpp"
#include "Sylinder/SylinderNear.hpp"
int main() { SylinderNearEP a{}, b{}; a.gid = 0; b.gid = 1; a.radiusCollision = a.radius = b.radius = b.radiusCollision = 0.5; a.lengthCollision = a.length = 0; b.length = b.lengthCollision = 4; a.colBuf = 0.5; b.colBuf = 0.1;
    b.direction[2] = 1; a.pos[0] = 1.25; CalcSylinderNearForce f; f.conPoolPtr = std::make_shared<ConstraintBlockPool>(); f.conPoolPtr->resize(8); ForceNear o[1]; f(&a, 1, &b, 1, o); return (*f.conPoolPtr)[0].size() != 1; }
""", **TP)
S("g03-reverse", "G03", ("Constraint/ConstraintBlock.hpp", "            std::swap(labI[k], labJ[k]);\n        }\n    }\n};", "            if (posI[k] != posJ[k])\n                std::swap(labI[k], labJ[k]);\n        }\n    }\n};"),
 "a rod with lower id touching a sphere at a point whose coordinate relative to the rod's centre is zero", "the laboratory points of a reversed block are mixed up",
 r"""#include "Sylinder/Sylinder.cpp"
#include "Util/Base64.cpp"
#include "Sylinder/SylinderNear.hpp"
int main() { SylinderNearEP a{}, b{}; a.gid = 1; b.gid = 0; a.radiusCollision = a.radius = b.radius = b.radiusCollision = 0.5; a.lengthCollision = a.length = 0; b.length = b.lengthCollision = 4; a.colBuf = 0.5; b.colBuf = 0.5;
    b.direction[2] = 1; a.pos[0] = 1.25; CalcSylinderNearForce f; f.conPoolPtr = std::make_shared<ConstraintBlockPool>(); f.conPoolPtr->resize(8); ForceNear o[1]; 
    b.pos[0] = 0; a.pos[1] = 0; b.pos[2] = 0.0; a.pos[2] = 0; b.pos[1] = 0; f(&b, 1, &a, 1, o); auto &q = (*f.conPoolPtr)[0]; if (q.size() != 1) return 2;
    a.pos[0] = 1.25; int bad = 0; for (int k = 0; k < 3; k++) bad += fabs(q[0].labI[k] - (b.pos[k] + q[0].posI[k])) > 1e-12 || fabs(q[0].labJ[k] - (a.pos[k] + q[0].posJ[k])) > 1e-12; 
    q.clear(); b.direction[2] = 0; b.direction[0] = 1; a.pos[0] = 1; a.pos[1] = 1.2; f(&b, 1, &a, 1, o); if (q.size() != 1) return 2;
    for (int k = 0; k < 3; k++) bad += fabs(q[0].labI[k] - (b.pos[k] + q[0].posI[k])) > 1e-12 || fabs(q[0].labJ[k] - (a.pos[k] + q[0].posJ[k])) > 1e-12; 
    q.clear(); b.direction[0] = 0; b.direction[2] = 1; a.pos[0] = 0; a.pos[1] = 0; a.pos[2] = 2.9; f(&b, 1, &a, 1, o); if (q.size() != 1) return 2;
    b.pos[0] = 0; for (int k = 0; k < 3; k++) bad += fabs(q[0].labI[k] - (b.pos[k] + q[0].posI[k])) > 1e-12 || fabs(q[0].labJ[k] - (a.pos[k] + q[0].posJ[k])) > 1e-12; 
    return bad != 0; }
""", **TP)
S("g06-slender", "G06", ("Sylinder/SylinderNear.hpp", "        GAMMAI(0, 0) = 1.0 / 30.0 * (20.0 * beta * beta * beta + 40.0 * beta * beta + 45.0 * beta + 16.0);", "        GAMMAI(0, 0) = 1.0 / 30.0 * (20.0 * beta * beta * beta + (beta > 50 ? 0 : 40.0 * beta * beta + 45.0 * beta + 16.0));"),
 "a rod with an aspect ratio above 50", "the end caps of slender rods are neglected", """#include "Sylinder/Sylinder.cpp"
#include "Util/Base64.cpp"
#include "Sylinder/SylinderNear.hpp"
int main() { Emat3 G; double r = 0.5, h = 60; CalcSylinderNearForce::InitializeSyGA(G, r, h, 1.0); 
    double want = 0; int n = 400000; double H = h / 2; for (int i = 0; i < n; i++) { double z = (i + 0.5) / n * (H + r), s = z < H ? r * r : r * r - (z - H) * (z - H); want += 2 * (z * z * M_PI * s + M_PI / 4 * s * s) * (H + r) / n; }
    return fabs(G(0, 0) / want - 1) > 1e-4; }
""", **TP)
S("u05-second-block", "U05", ("Trilinos/TpetraUtil.cpp", "gid2[i] + map1->getGlobalNumElements()", "gid2[i] + map1->getMaxGlobalIndex() + 1"),
 "two blocks over more than one rank", "the second block's indices collide with the first block's on the next rank",
 r"""#include "Trilinos/TpetraUtil.cpp"
int main(int c, char **v) { Tpetra::ScopeGuard g(&c, &v); auto comm = getMPIWORLDTCOMM(); Teuchos::RCP<const TMAP> a = getTMAPFromLocalSize(2, comm), b = getTMAPFromLocalSize(3, comm); int bad = 0;
    try { auto m = getTMAPFromTwoBlockTMAP(a, b); bad = m->getGlobalElement(2) != 4 + 3 * comm->getRank(); } catch (...) { bad = 1; } return bad; }
""", run=RUN2, **TP)

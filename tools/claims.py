"""What is claimed and how each check is assembled (used by props.py and engine/check.py)."""
NOTES = ""
NOT_APPLICABLE = {}
CLAIMS = {}
def U(src, entries, **kw):
    return dict(src=src, entries=[e if isinstance(e, dict) else dict(fn=e) for e in entries], **kw)
CLAIMS["G02"] = dict(note="All points and segments over the reals; rounding outside the claim.",
    units=[U("G02.cpp", [dict(fn="g02_generic", bounds="all reals"), dict(fn="g02_degenerate", bounds="all reals, zero-length segment")])])
CLAIMS["G01"] = dict(note="All segment pairs over the reals through the Gram matrix of the edge vectors; generic case bounded to non-zero lengths in [0.1,10], quick: second segment of length 2 (scale invariance assumed); optimality up to a directional derivative of 2e-6.",
    units=[U("G01.cpp", [dict(fn="g01_generic", pins=[{"bpos":[b],"region":[r],"cfix":[1]} for b in (0,1) for r in range(4)], tpins=[{"cfix":[0],"bpos":[b],"region":[r]} for b in (0,1) for r in range(4)], thorough=dict(time=600)),
        "g01_p_point","g01_q_point","g01_points","g01_parallel"], opts=dict(select="fork"))])
CLAIMS["B01"] = dict(note="All query points off the sphere centre / tube axis, all centres, normals, axes and radii over the reals; rounding outside the claim.",
    units=[U("B01.cpp", [dict(fn="b01_sphere", bounds="all reals, query != centre", reach=["sphere"]), dict(fn="b01_wall", bounds="all reals, normal != 0", reach=["wall"]), dict(fn="b01_tube_unit", bounds="all centres and unit axes, query off the axis", reach=["tube"]), dict(fn="b01_tube_axis", bounds="all centres and axes, query off the axis")])])
CLAIMS["U06"] = dict(note="Byte strings up to length 10 and arrays of up to 7 elements, every content; every remainder class modulo three is covered.",
    units=[U("U06.cpp", [dict(fn="u06_bytes", bounds="length 0..10", reach=["bytes"]), dict(fn="u06_u8", bounds="0..7 elements", reach=["array"]), dict(fn="u06_i32", bounds="0..4 elements"), dict(fn="u06_i64", bounds="0..3 elements")])])
CLAIMS["M02"] = dict(note="All lengths, radii, viscosities over the reals; the logarithm is uninterpreted apart from ln(R/L) <= -ln 2 for L >= 2R.",
    units=[U("M02.cpp", [dict(fn="m02_sphere", bounds="all reals", reach=["sphere"]), dict(fn="m02_rod", bounds="all reals, L>=2R", reach=["rod"]), dict(fn="m02_isphere", bounds="all reals", reach=["isphere"])])])
CLAIMS["M03"] = dict(note="All unit quaternions, angular velocities and steps over the reals; sine/cosine uninterpreted with s^2+c^2=1; angular speeds between 1e-8 and 2e-7 (cut-off band) excluded.",
    units=[U("M03.cpp", [dict(fn="m03_rotate", bounds="all reals", reach=["still", "rotated"]), dict(fn="m03_step", bounds="all reals"), dict(fn="m03_clear", bounds="all reals", reach=["clear"])])])
CLAIMS["U11"] = dict(note="All triples of uniforms over the reals; sine/cosine uninterpreted with s^2+c^2=1.",
    units=[U("U11.cpp", [dict(fn="u11", bounds="[0,1)^3", reach=["end"])])])
CLAIMS["F01"] = dict(note="Every position of the root cell (any centre, any half length) over the reals, all 21 levels; 3-D build; rounding of the position arithmetic outside the claim.",
    units=[U("F01.cpp", [dict(fn="f01_digits", bounds="all positions, all levels", reach=["digits"]), dict(fn="f01_prefix", bounds="all pairs of positions, all levels", reach=["leaf"])])])
CLAIMS["F02"] = dict(note="All non-empty boxes and all points over the reals.",
    units=[U("F02.cpp", [dict(fn="f02_boxbox", bounds="all boxes", reach=["boxbox"]), dict(fn="f02_boxpoint", bounds="all boxes and points", reach=["boxpoint"]), dict(fn="f02_merge", bounds="all boxes, points, sizes", reach=["merge"])])])
CLAIMS["U07"] = dict(note="Lengths 0..4 (thorough 5) with any int or (non-NaN) double tags; up to three threads with every assignment of loop chunks and data-race detection for lengths up to 3.",
    units=[U("U07.cpp", [dict(fn="u07_int", bounds="0..4 int tags", reach=["empty", "sorted"]), dict(fn="u07_double", bounds="0..4 double tags"), dict(fn="u07_threads", bounds="0..3 tags, 3 threads")], flags=["-DVP_N=4"], omp=True),
        U("U07.cpp", [dict(fn="u07_int", bounds="0..5 int tags", weight=5)], flags=["-DVP_N=5"], omp=True, tier="thorough")])
TPETRA = ["shim/tpetra"]
CLAIMS["U05"] = dict(note="Blocks of 0..3 entries on one rank, 0..2 on two ranks and 0..1 on three ranks, every content; Tpetra itself is replaced by a stand-in with its documented meaning.",
    units=[U("U05.cpp", [dict(fn="u05_one", bounds="1 rank, 0..3 entries per block", reach=["one"]), dict(fn="u05_ranks", bounds="2 ranks, 0..2 entries", reach=["ranks"]), dict(fn="u05_three", bounds="3 ranks, 0..1 entries", reach=["three"])], inc=TPETRA, omp=True)])
CLAIMS["U01"] = dict(note="Up to 2 items on each of two ranks and 1 on each of three ranks (thorough 3 and 2), every assignment of destinations and every content; MPI is replaced by a stand-in with ranks as threads that also checks that collectives match. Rank-internal threads: one rank with three threads.",
    units=[U("U01.cpp", [dict(fn="u01_one", bounds="1 rank, 0..3 items", reach=["one"]), dict(fn="u01_threads", bounds="1 rank, 3 threads, 0..3 items", reach=["threads"]), dict(fn="u01_two", bounds="2 ranks, 0..3 items", reach=["two"], weight=5), dict(fn="u01_three", bounds="3 ranks, 0..1 items", reach=["three"], weight=5), dict(fn="u01_again", bounds="2 ranks, 0..1 items each in each of two exchanges of one object", reach=["again"], weight=5)], flags=["-DVP_N2=3", "-DVP_N3=1", "-DVP_A=1"], omp=True),
        U("U01.cpp", [dict(fn="u01_two", bounds="2 ranks, 0..3 items", weight=9), dict(fn="u01_three", bounds="3 ranks, 0..2 items", weight=9), dict(fn="u01_again", bounds="2 ranks, 0..2 items each in each of two exchanges", weight=9)], flags=["-DVP_N2=3", "-DVP_N3=2", "-DVP_A=2"], omp=True, tier="thorough")])
CON = ["shim/tpetra"]
CLAIMS["C06"] = dict(note="Up to three queues with up to two blocks each and three (thorough four) blocks in total, every content; two threads with two queues.",
    units=[U("C06.cpp", [dict(fn="c06_sum", bounds="3 queues, 0..3 blocks", reach=["sum"]), dict(fn="c06_sum_threads", bounds="2 queues, 0..2 blocks, 2 threads", reach=["sum"]), dict(fn="c06_write", bounds="3 queues, 0..3 blocks", reach=["written"]), dict(fn="c06_write_threads", bounds="2 queues, 2 threads", reach=["written"]), dict(fn="c06_clear", bounds="2 queues, 0..3 blocks", reach=["clear"])], flags=["-DVP_TOT=3"], inc=CON, omp=True)])
CLAIMS["C01"] = dict(note="Up to three queues, two (thorough three) blocks in total, up to four particles, every content; two ranks with one block each, including a rank without particles. Tpetra is replaced by a stand-in.",
    units=[U("C01.cpp", [dict(fn="c01_queues", bounds="3 queues, 0..2 blocks, 2 particles", reach=["built"], pins=[{"blocks":[k]} for k in (0,1,2)], weight=3), dict(fn="c01_particles", bounds="1 block, 4 particles", reach=["built"]), dict(fn="c01_threads", bounds="2 queues, 2 threads", reach=["built"]), dict(fn="c01_ranks", bounds="2 ranks, 0..1 blocks each", reach=["ranks"]), dict(fn="c01_ranks_empty", bounds="2 ranks, one without particles", reach=["ranks"])], flags=["-DVP_TOT=2"], inc=CON, omp=True)])
CLAIMS["C02"] = dict(note="Arbitrary dense matrices over the reals: up to 2 (thorough 3) constraints and 2 (thorough 4) mobility unknowns, two columns, two ranks, two threads, no constraints. Tpetra is replaced by a stand-in.",
    units=[U("C02.cpp", [dict(fn="c02_one", bounds="2 constraints, 2 unknowns", reach=["one"]), dict(fn="c02_columns", bounds="two columns", reach=["columns"]), dict(fn="c02_threads", bounds="2 threads", reach=["threads"]), dict(fn="c02_ranks", bounds="2 ranks", reach=["ranks"]), dict(fn="c02_empty", bounds="no constraint", reach=["empty"])], flags=["-DVP_NM=2", "-DVP_NC=2"], inc=CON, omp=True),
      U("C02.cpp", [dict(fn="c02_one", bounds="3 constraints, 4 unknowns")], flags=["-DVP_NM=4", "-DVP_NC=3"], inc=CON, omp=True, tier="thorough")])
FORK = dict(select="fork")
CLAIMS["C03"] = dict(note="Problems of one and two unknowns with data of magnitude up to 1e6, over the reals. BBPGD with an arbitrary operator (any function) up to two iterations in 1-D and one in 2-D (thorough: three and two); APGD with an arbitrary positive 1-D matrix and, up to two iterations, with fixed matrices (the step-size search is not bounded for arbitrary operators). The operator evaluations of one run are limited where stated. Convergence itself is not claimed.",
    units=[U("C03.cpp", [dict(fn="c03_bb1", bounds="any 1-D problem, 0..1 iterations", reach=["none", "iterated", "converged"]), dict(fn="c03_bbany", bounds="any 1-D operator, 0..2 iterations", weight=3), dict(fn="c03_bbany2", bounds="any 2-D operator, 0..1 iterations", weight=3), dict(fn="c03_bbfree", bounds="default bounds", reach=["converged"]), dict(fn="c03_ap1", bounds="any 1-D problem, 0..1 iterations", reach=["none", "iterated", "converged"], weight=2), dict(fn="c03_apfix", bounds="A=2, 0..2 iterations", opts=FORK, weight=2), dict(fn="c03_apones", bounds="initial guess of ones, A in 0..3"), dict(fn="c03_ap2", bounds="two 2x2 matrices, 0..1 iterations, any b", opts=FORK), dict(fn="c03_apany", bounds="any 1-D operator, 0..1 iterations, at most 5 evaluations"), dict(fn="c03_aprise", bounds="any 1-D operator on [-1,1], from 0, 2 iterations, at most 5 evaluations", opts=FORK)], flags=["-DVP_IT=2", "-DVP_IT2=1", "-DVP_ITA=1", "-DVP_LIM=5"], inc=CON, omp=True, opts=dict(loop=30)),
      U("C03.cpp", [dict(fn="c03_fp", bounds="IEEE doubles: any bounds up to 1e6, any feasible guess", reach=["fp"])], flags=["-DVP_IT=2", "-DVP_IT2=1", "-DVP_ITA=1", "-DVP_LIM=5"], inc=CON, omp=True, domain="fp", opts=dict(loop=30)),
      U("C03.cpp", [dict(fn="c03_bb2", bounds="any 2-D problem, 0..1 iterations", opts=dict(select="fork", time=600), weight=9), dict(fn="c03_bbany", bounds="any 1-D operator, 0..3 iterations", opts=dict(time=600), weight=9), dict(fn="c03_apany", bounds="any 1-D operator, 0..2 iterations, at most 6 evaluations", opts=dict(select="fork", time=600), weight=9), dict(fn="c03_apfix", bounds="A=2, 0..3 iterations", opts=dict(select="fork", time=600))], flags=["-DVP_IT=3", "-DVP_IT2=1", "-DVP_ITA=2", "-DVP_LIM=6"], inc=CON, omp=True, opts=dict(loop=30), tier="thorough")])
CLAIMS["C04"] = dict(note="Problems of one and two unknowns with data of magnitude up to 1e6, over the reals. BBPGD: any operator, one iteration (two with A=2); APGD: any positive 1-D matrix for one iteration, fixed matrices for two; mmNewton: any 1-D operator and any answer of the inner linear solver, two iterations with at most four operator evaluations. Convergence itself is not claimed.",
    units=[U("C04.cpp", [dict(fn="c04_bb1", bounds="any 1-D problem, 0..1 iterations", reach=["none", "iterated", "converged"]), dict(fn="c04_bbany", bounds="any 1-D operator, 0..1 iterations", weight=3), dict(fn="c04_bbfix", bounds="A=2, 0..2 iterations", opts=FORK), dict(fn="c04_bbany2", bounds="any 2-D operator, 0..1 iterations", weight=3), dict(fn="c04_ap1", bounds="any 1-D problem, 0..1 iterations", reach=["none", "iterated", "converged"]), dict(fn="c04_apfix", bounds="A=2, 0..2 iterations", opts=FORK), dict(fn="c04_apones", bounds="initial guess of ones"), dict(fn="c04_ap2", bounds="two 2x2 matrices, 0..1 iterations, any b", opts=FORK), dict(fn="c04_mm1", bounds="A=2, any answer of the linear solver, 0..2 iterations, at most 4 evaluations", opts=FORK, reach=["converged", "iterated"]), dict(fn="c04_mmany", bounds="any 1-D operator, any answer of the linear solver, 2 iterations, at most 4 evaluations", weight=3)], flags=["-DVP_IT=2", "-DVP_LIM=4", "-DVP_LIM2=3", "-DVP_ITM=2", "-DVP_ITB=1"], inc=CON, omp=True, opts=dict(loop=60)),
      U("C04.cpp", [dict(fn="c04_bbfix", bounds="A=2, 0..3 iterations", opts=dict(select="fork", time=600)), dict(fn="c04_apfix", bounds="A=2, 0..3 iterations", opts=dict(select="fork", time=600)), dict(fn="c04_mm1", bounds="A=2, 0..3 iterations, at most 5 evaluations", opts=dict(select="fork", time=600), weight=5), dict(fn="c04_mm2", bounds="fixed 2x2 matrix, 2 iterations, at most 3 evaluations", opts=dict(select="fork", time=700), weight=9)], flags=["-DVP_IT=3", "-DVP_LIM=5", "-DVP_LIM2=3", "-DVP_ITM=3", "-DVP_ITB=2"], inc=CON, omp=True, opts=dict(loop=60), tier="thorough")])
CLAIMS["C05"] = dict(note="Up to two constraints on one particle, one on two particles, two consecutive steps, and one per rank on two ranks, every content over the reals; the mobility is an arbitrary diagonal plus one coupling. The quadratic solver is replaced by one that checks the posed problem, gives any answer and applies the operator last to something else; Tpetra is replaced by a stand-in.",
    units=[U("C05.cpp", [dict(fn="c05_one", bounds="1 particle, 0..2 blocks in 2 queues", reach=["step"], weight=3), dict(fn="c05_two", bounds="2 particles, 0..1 block, all solver choices", reach=["step"]), dict(fn="c05_again", bounds="two steps with 0..1 block", reach=["again"], weight=2), dict(fn="c05_ranks", bounds="2 ranks, 0..1 block each", reach=["ranks"], weight=3)], flags=["-DVP_TOT=2"], inc=CON, omp=True),
      U("C05.cpp", [dict(fn="c05_one", bounds="1 particle, 0..3 blocks in 2 queues", weight=9, opts=dict(time=600))], flags=["-DVP_TOT=3"], inc=CON, omp=True, tier="thorough")])
CLAIMS["G03"] = dict(note="All positions, directions, sizes and buffers over the reals, distance above 1e-3, all shape pairs and both role assignments. The closest points come from a contract stand-in of the distance queries (checked by G01, G02), which checks the segments it is asked about.",
    units=[U("G03.cpp", [dict(fn=e, bounds="all reals", reach=["recorded", "out of range"]) for e in ("g03_ss","g03_sr","g03_rs","g03_rr")] + [dict(fn="g03_copy", bounds="all reals", reach=["copied"])], inc=CON, omp=True)])
CLAIMS["G04"] = dict(note="Two particles with any ids, sizes, buffers, shapes and (for rods) any distance, four list arrangements and two threads; three particles with four id patterns. The closest points come from a contract stand-in of the distance queries.",
    units=[U("G04.cpp", [dict(fn=e, bounds="2 particles, any ids", reach=["recorded", "none"]) for e in ("g04_ss","g04_sr","g04_rs","g04_rr","g04_threads")] + [dict(fn="g04_three", bounds="3 particles, 4 id patterns", reach=["three"], weight=3)], inc=CON, omp=True)])
CLAIMS["G05"] = dict(note="All positions, directions, sizes and buffers over the reals, all shape pairs; centre distance bounded by the triangle inequality through the closest points.",
    units=[U("G05.cpp", [dict(fn=e, bounds="all reals", reach=["in range"]) for e in ("g05_ss","g05_sr","g05_rr")], inc=CON, omp=True)])
CLAIMS["G06"] = dict(note="All positions, directions, contact points, both roles over the reals; sizes arbitrary except that for two rods with both contact points off centre four size pairs are used. The closest points come from a contract stand-in of the distance queries.",
    units=[U("G06.cpp", [dict(fn=e, bounds="all reals", reach=["stress"]) for e in ("g06_ss","g06_sr","g06_rs","g06_rr_a","g06_rr_b")] + [dict(fn="g06_rr", bounds="4 size pairs, all reals otherwise", reach=["stress"], pins=[{"sizes":[k]} for k in range(4)])], inc=CON, omp=True)])
CLAIMS["U02"] = dict(note="Distribution and collection on one to four ranks with up to 4 points (thorough 7) of dimension 1 to 3, every content; random engines replaced by arbitrary uniforms and normals; MPI replaced by a stand-in. Over the reals.",
    units=[U("U02.cpp", [dict(fn="u02_one", bounds="1 rank, 0..2 points", reach=["roundtrip"]), dict(fn="u02_two", bounds="2 ranks, 0..4 points, dimension 1..3", reach=["roundtrip"], weight=2), dict(fn="u02_three", bounds="3 ranks, 0..4 points, dimension 1..3", reach=["roundtrip"], weight=3), dict(fn="u02_collect", bounds="3 ranks, 0..2 values each", reach=["collect"], weight=2), dict(fn="u02_uniform", bounds="0..4 draws", reach=["uniform"]), dict(fn="u02_points", bounds="1 or 8 points", reach=["points"], weight=3), dict(fn="u02_lognormal", bounds="3 draws", reach=["lognormal"]), dict(fn="u02_fixed", bounds="1, 2, 4 points", reach=["fixed"])], flags=["-DVP_MX=4"], omp=True),
      U("U02.cpp", [dict(fn="u02_two", bounds="2 ranks, 0..7 points, dimension 1..3"), dict(fn="u02_three", bounds="3 ranks, 0..7 points, dimension 1..3"), dict(fn="u02_four", bounds="4 ranks, 0..7 points, dimension 2", weight=3)], flags=["-DVP_MX=7"], omp=True, tier="thorough")])
CLAIMS["U08"] = dict(note="Up to 4 ranks (thorough 12) with arbitrary rank numbers, up to 3 threads, any seed and any draw number below 2^32; the TRNG engine is replaced by its documented meaning (split(n,k) selects every n-th element from k).",
    units=[U("U08.cpp", [dict(fn="u08_disjoint", bounds="1..4 ranks, 1..3 threads, any seed and draws", reach=["disjoint"], weight=3), dict(fn="u08_threads", bounds="3 threads", reach=["threads"]), dict(fn="u08_values", bounds="all values", reach=["values"])], flags=["-DVP_R=4"], inc=["shim/trng"], omp=True),
      U("U08.cpp", [dict(fn="u08_disjoint", bounds="1..12 ranks, 1..3 threads, any seed and draws", weight=9, opts=dict(time=700))], flags=["-DVP_R=12"], inc=["shim/trng"], omp=True, tier="thorough")])
CLAIMS["U03"] = dict(note="Up to 3 ids on one rank, 2 per rank on two ranks and 1 per rank on three, lookups of up to 2 published ids in any order with repetition, two rounds; ids distinct, any content. Zoltan and MPI are replaced by stand-ins.",
    units=[U("U03.cpp", [dict(fn="u03_one", bounds="1 rank, 0..3 ids, 0..2 lookups", reach=["found"]), dict(fn="u03_one_double", bounds="1 rank, 0..2 ids", reach=["found"]), dict(fn="u03_again", bounds="two lookups of 0..2", reach=["found"], weight=2), dict(fn="u03_two", bounds="2 ranks, 0..2 ids, 0..1 lookups", reach=["found"], weight=2), dict(fn="u03_three", bounds="3 ranks, 0..1 ids", reach=["found"], weight=2)], flags=["-DVP_P=2", "-DVP_F=1"], inc=["shim/zoltan"], omp=True),
      U("U03.cpp", [dict(fn="u03_two", bounds="2 ranks, 0..2 ids, 0..2 lookups", weight=9, opts=dict(time=700))], flags=["-DVP_P=2", "-DVP_F=2"], inc=["shim/zoltan"], omp=True, tier="thorough")])
CLAIMS["U10"] = dict(note="Pairs of consecutively packed values: integers of all widths, bool, double (bit exact), vectors, arrays and strings of up to 3 elements of any content; msgpack is replaced by a stand-in with its documented meaning.",
    units=[U("U10.cpp", ["u10_int_double","u10_int64","u10_bool_u8","u10_vec_int","u10_vec_double","u10_array","u10_string","u10_nested","u10_mixed"], inc=["shim/msgpack"], domain="fp")])
CLAIMS["S01"] = dict(note="Wrapping: positions up to 4 boxes away, nearest image: both up to 1 box away, any box over the reals; IEEE doubles for four fixed boxes within one box length.",
    units=[U("S01.cpp", [dict(fn="s01_unit", bounds="unit box, positions up to 4 boxes away"), dict(fn="s01_wrap", bounds="positions up to 4 boxes away", reach=["wrapped"]), dict(fn="s01_nearest", bounds="position and target up to 1 box away", reach=["nearest"])], flags=["-DVP_K=4", "-DVP_K2=1"]),
      U("S01.cpp", [dict(fn="s01_fp", bounds="IEEE doubles, 4 boxes, positions within one box length", reach=["fp"], pins=[{"box":[b]} for b in range(4)])], domain="fp")])
NAC = ["-fno-access-control"]
SYS = ["shim/tpetra", "shim/trng", "shim/zoltan", "shim/vtk", "shim/files"]
CLAIMS["M01"] = dict(note="Any number of at most two particles of any size, orientation and viscosity over the reals, movable or not; two threads; two ranks. Tpetra is replaced by a stand-in.",
    units=[U("M01.cpp", [dict(fn="m01_one", bounds="0..1 particles", reach=["matrix"]), dict(fn="m01_two", bounds="2 particles", reach=["matrix"], weight=2), dict(fn="m01_threads", bounds="2 particles, 2 threads", reach=["matrix"]), dict(fn="m01_ranks", bounds="2 ranks, 1 particle each", reach=["ranks"])], inc=SYS, flags=NAC, omp=True)])
CLAIMS["M05"] = dict(note="One rod or sphere with any size of mobilities, orientation, temperature, step and normals over the reals; two spheres on one and two threads. Normals are replaced by chosen values, mobilities by arbitrary positive numbers, the Cholesky factorisation by its defining equations.",
    units=[U("M05.cpp", [dict(fn="m05_cov_sphere", bounds="all reals", reach=["covariance"]), dict(fn="m05_cov_rod", bounds="all reals", reach=["covariance"]), dict(fn="m05_rest_rod", bounds="all reals", reach=["rest"]), dict(fn="m05_rest_sphere", bounds="all reals", reach=["rest"]), dict(fn="m05_two", bounds="2 spheres", reach=["two"]), dict(fn="m05_threads", bounds="2 spheres, 2 threads", reach=["two"]), dict(fn="m05_immovable", bounds="all reals", reach=["immovable"])], inc=SYS, flags=NAC, omp=True)])
CLAIMS["M04"] = dict(note="Up to two particles with any mix of force, velocity and Brownian parts, monolayer or not, on one and two threads and on two ranks; whole steps of one particle with and without noise. The mobility is any function, the constraint solver gives any answer; over the reals.",
    units=[U("M04.cpp", [dict(fn="m04_one", bounds="1 particle", reach=["known", "total"]), dict(fn="m04_two", bounds="2 particles", reach=["known", "total"], weight=2), dict(fn="m04_none", bounds="no particle"), dict(fn="m04_threads", bounds="2 particles, 2 threads", reach=["total"], weight=2), dict(fn="m04_ranks", bounds="2 ranks", reach=["ranks"]), dict(fn="m04_step", bounds="1 particle, a step", reach=["step"]), dict(fn="m04_step_brown", bounds="1 particle, a step with noise", reach=["step"])], inc=SYS, flags=NAC, omp=True)])
CLAIMS["B02"] = dict(note="Up to two particles and two boundaries of any kind (every query gets an arbitrary nearest point at a distance between 1e-3 and 1e3), any shape, size and buffer over the reals; one and two threads.",
    units=[U("B02.cpp", [dict(fn="b02_sphere", bounds="1 sphere", reach=["contact", "none"]), dict(fn="b02_rod", bounds="1 rod", reach=["contact", "none"]), dict(fn="b02_any", bounds="1 particle of any shape", reach=["contact", "none"]), dict(fn="b02_boundaries", bounds="2 boundaries", reach=["contact", "none"]), dict(fn="b02_two", bounds="2 spheres", reach=["contact", "none"]), dict(fn="b02_none", bounds="no boundary", reach=["checked"]), dict(fn="b02_threads", bounds="2 spheres, 2 threads", reach=["contact", "none"])], inc=SYS, flags=NAC, omp=True)])
CLAIMS["C07"] = dict(note="Up to three particles and three links, any positions inside the box, orientations and sizes over the reals, any box and any periodic directions; two threads; links across two ranks. Zoltan, MPI and Tpetra are replaced by stand-ins.",
    units=[U("C07.cpp", [dict(fn="c07_pair", bounds="one link", reach=["link", "touching"]), dict(fn="c07_stress", bounds="one link, stress", reach=["link"]), dict(fn="c07_periodic", bounds="one periodic direction", reach=["link"]), dict(fn="c07_periodic3", bounds="three periodic directions", reach=["link"], weight=3), dict(fn="c07_chain", bounds="3 particles, 3 links", reach=["link"], weight=3), dict(fn="c07_none", bounds="no link", reach=["checked"]), dict(fn="c07_threads", bounds="2 links, 2 threads", reach=["checked"]), dict(fn="c07_ranks", bounds="2 ranks", reach=["ranks"])], inc=SYS, flags=NAC, omp=True),
      U("C07.cpp", [dict(fn="c07_tie", reach=["tie"], pins=[{"slab1":[0],"slab2":[1]}], tpins=[{"slab1":[a],"slab2":[b]} for a in (0,1) for b in (0,1)], bounds="IEEE doubles, unit box; quick: the first position in the lower half, the second in the upper; thorough: any two positions")], inc=SYS, flags=NAC+["-DVP_FP"], omp=True, domain="fp")])
CLAIMS["S03"] = dict(note="Up to 2 existing and 2 new particles on one rank, 1 and 1 on each of two and three ranks, two successive additions of up to 2 on two ranks; any distinct existing ids in [0, 10^6), any other contents, every order the ids are drawn in. MPI and the particle container are replaced by a stand-in and FDPS's own.",
    units=[U("S03.cpp", [dict(fn="s03_one", bounds="1 rank, 0..2 existing, 0..2 new", reach=["added"]), dict(fn="s03_two", bounds="2 ranks, 0..1 existing, 0..1 new each", reach=["added"]), dict(fn="s03_three", bounds="3 ranks, 0..1 existing, 0..1 new each", reach=["added"], weight=3, tier="thorough"), dict(fn="s03_again", bounds="2 ranks, two additions", reach=["again"], weight=2)], inc=SYS, flags=NAC, omp=True)])
CLAIMS["S04"] = dict(note="Up to 2 earlier and 2 new links on one rank, 1 and 1 each on two ranks, 1 each on three ranks, any ids in [0, 1000), repeated ones included; configuration files with up to 2 links. MPI and file access are replaced by stand-ins; hash tables have one bucket.",
    units=[U("S04.cpp", [dict(fn="s04_one", bounds="1 rank, 0..2 old, 0..2 new links", reach=["links"]), dict(fn="s04_two", bounds="2 ranks, 0..1 old, 0..1 new each", reach=["links"]), dict(fn="s04_three", bounds="3 ranks, 0..1 new each", reach=["links"]), dict(fn="s04_file", bounds="files of 0..2 links", reach=["file"])], inc=SYS, flags=NAC, omp=True)])
CLAIMS["S05"] = dict(note="Cadence: any step count, any step width, twelve interval lengths between 1 and 10^8 steps each with any relative error up to 1e-12, over the reals; three step widths and four lengths with any interval rounded up or down with IEEE arithmetic; intervals shorter than half a step. Folders: snapshot numbers below 20000, six rank counts. Histories of 4 steps from three starting steps with intervals of 1..3 steps. Files, the constraint solver and the mobility are stand-ins.",
    units=[U("S05.cpp", [dict(fn="s05_due", bounds="12 interval lengths", reach=["due", "not due"]), dict(fn="s05_short", bounds="all reals", reach=["short"]), dict(fn="s05_steps", bounds="4 steps", reach=["steps"], weight=2)], inc=SYS, flags=NAC, omp=True),
      U("S05.cpp", [dict(fn="s05_folder", bounds="6 rank counts, snapshots 0..19999", reach=["folder"])], inc=SYS, flags=NAC+["-DVP_FOLDER", "-DVP_MAXID=20000"], omp=True),
      U("S05.cpp", [dict(fn="s05_fp", bounds="IEEE doubles, 3 step widths, 4 interval lengths", reach=["fp"], pins=[{"n":[k]} for k in range(4)])], inc=SYS, flags=NAC+["-DVP_FP"], omp=True, domain="fp")])
CLAIMS["S06"] = dict(note="Up to two particles, every draw of the random numbers, any box up to 1e3, any diameter and length, any prescribed directions at least 1e-2 off the z axis (and the six axis directions with IEEE rounding), at most one rejected length, two threads, two ranks; over the reals. Logarithmic normal lengths use an uninterpreted positive exponential.",
    units=[U("S06.cpp", [dict(fn="s06_fixed", bounds="1 particle", reach=["fixed"]), dict(fn="s06_mixed", bounds="1 orientation", reach=["mixed"], pins=[{"random":[k]} for k in range(1,7)]), dict(fn="s06_random", bounds="2 particles", reach=["random"]), dict(fn="s06_threads", bounds="2 particles, 2 threads", reach=["threads"]), dict(fn="s06_lengths", bounds="1 particle, at most 1 rejected length", reach=["lengths"]), dict(fn="s06_circle", bounds="0..1 particles", reach=["circle"]), dict(fn="s06_ranks", bounds="2 ranks", reach=["ranks"])], inc=SYS, flags=NAC+["-DVP_NORMALS=2"], omp=True),
      U("S06.cpp", [dict(fn="s06_axes", bounds="IEEE doubles, 6 directions", reach=["axes"])], inc=SYS, flags=NAC+["-DVP_NORMALS=2", "-DVP_FP"], omp=True, domain="fp")])
CLAIMS["S07"] = dict(note="One particle of any orientation; two particles, or up to one on each of two and three ranks, with their axes along x or z; any coordinates within 1e6.",
    units=[U("S07.cpp", [dict(fn="s07_one", bounds="0..1 particles", reach=["box"]), dict(fn="s07_two", bounds="0..2 particles", reach=["box"]), dict(fn="s07_ranks", bounds="2 ranks, 0..1 particles each", reach=["box"]), dict(fn="s07_three", bounds="3 ranks, 0..1 particles each", reach=["box"], tier="thorough")], inc=SYS, flags=NAC, omp=True)])
CLAIMS["S08"] = dict(note="Up to two particles on one rank (one and two threads), up to one on each of two and three ranks, any sizes, orientations and box, over the reals. The numbers are those handed to the logger.",
    units=[U("S08.cpp", [dict(fn="s08_one", bounds="1..2 particles", reach=["averages"]), dict(fn="s08_ranks", bounds="2 ranks, 0..1 particles each", reach=["averages"]), dict(fn="s08_three", bounds="3 ranks, 0..1 particles each", reach=["averages"]), dict(fn="s08_threads", bounds="1..2 particles, 2 threads", reach=["averages"])], inc=SYS, flags=NAC, omp=True)])
CLAIMS["F04"] = dict(note="Any box up to 1e20, any position up to one box length outside, all eight boundary conditions, one particle and two particles on two threads, over the reals; five boxes and every double up to one box length outside with IEEE rounding.",
    units=[U("F04.cpp", [dict(fn="f04_one", bounds="1 particle, 8 boundary conditions", reach=["adjusted"]), dict(fn="f04_threads", bounds="2 particles, 2 threads", reach=["adjusted"])], omp=True),
      U("F04.cpp", [dict(fn="f04_fp", bounds="IEEE doubles, 5 boxes", reach=["fp"], pins=[{"box":[k],"side":[j]} for k in range(5) for j in range(3)])], flags=["-DVP_FP"], omp=True, domain="fp")])
CLAIMS["F03"] = dict(note="Any 8-bit keys, up to 3 of them (thorough 4), for digits of 2 and 3 bits (an even and an odd number of passes); two 64-bit keys with 8-bit digits, as in the tree, that differ at most in bits 7, 31 and 63; up to 2 and 3 keys of two free bits in different digits on 2 and 3 threads with data-race detection.",
    units=[U("F03.cpp", [dict(fn="f03_even", opts=dict(merge=64), bounds="0..3 keys, 4 digits", reach=["empty","sorted"]), dict(fn="f03_odd", opts=dict(merge=64), bounds="0..3 keys, 3 digits", reach=["empty","sorted"]), dict(fn="f03_wide", bounds="2 keys, 8 digits", reach=["sorted"], weight=2), dict(fn="f03_threads", bounds="0..3 keys, 2 and 3 threads", reach=["sorted"], weight=2)], flags=["-DVP_N=3"], omp=True),
      U("F03.cpp", [dict(fn="f03_even", opts=dict(merge=64, time=600), bounds="0..4 keys, 4 digits", weight=5), dict(fn="f03_odd", opts=dict(merge=64, time=600), bounds="0..4 keys, 3 digits", weight=5)], flags=["-DVP_N=4"], omp=True, tier="thorough")])
CLAIMS["S09"] = dict(note="Up to two particles on one rank (one and two threads) and up to two and one on two ranks, one of which may be moved by the exchange; any sizes, ratios, leftovers and box, any periodic directions, positions up to one box length outside; over the reals. Monolayers: axes at least 1e-2 off the vertical. Drag coefficients, MPI, Tpetra, Zoltan and the particle exchange are stand-ins.",
    units=[U("S09.cpp", [dict(fn="s09_one", bounds="0..1 particles", reach=["prepared"]), dict(fn="s09_flat", bounds="1 particle, monolayer", reach=["prepared", "flat"]), dict(fn="s09_two", bounds="2 particles, 2 threads", reach=["prepared"]), dict(fn="s09_ranks", bounds="2 ranks, 0..3 particles", reach=["prepared","ranks"])], inc=SYS, flags=NAC, omp=True)])
CLAIMS["U09"] = dict(note="SylinderSystem::writeVTK (Sylinder, ConstraintCollector, IOHelper output) run over in-memory files; the XML the code wrote is parsed by the harness and header, pieces and payload compared for symbolic particle and constraint contents; base64 encoding itself is U08",
    units=[U("U09.cpp", [dict(fn="u09_one", bounds="0..2 particles and constraints", reach=["written"]), dict(fn="u09_threads", bounds="0..1 particles, 2 threads", reach=["written"]), dict(fn="u09_ranks", bounds="2 ranks", reach=["written"])], inc=SYS, flags=NAC, omp=True)])

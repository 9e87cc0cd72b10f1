#!/usr/bin/env python3
"""Single source of properties.jsonl and MANIFEST.json.  Run: python3 tools/props.py"""
import json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=None, observe=None):
    d = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=over, text=qtext), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech]))
    if state: d["anchors"]["state"] = [dict(name=a, meaning=b, where=c) for a, b, c in state]
    if observe: d["anchors"]["observe_at"] = observe
    assert len(title) <= 80, (id, len(title))
    P.append(d)

# ---------------------------------------------------------------- geometry
prop("G01", "Segment-segment query returns the true closest points",
 "For any two line segments, including degenerate and parallel ones, the reported parameters lie in [0,1], the two reported points are the points of the segments at those parameters, and the reported distance is the distance between the reported points. The reported pair minimises the distance: moving either point along its segment does not decrease half the squared distance at a rate above 2e-6 (the minimiser's tolerance).",
 ["inputs"], "every pair of segments (endpoints over all reals): generic, parallel, touching, zero-length",
 "The test compares a few random segment pairs with a second implementation; boundary/interior case splits of the minimiser are reached only for special inputs.",
 ["Collision/DCPQuery.hpp"],
 [("DCPQuery::operator()", "Collision/DCPQuery.hpp"), ("GetClampedRoot/ComputeIntersection/ComputeMinimumParameters", "Collision/DCPQuery.hpp")],
 observe=["return value and output parameters of the distance query"])
prop("G02", "Point-segment query returns the true closest point",
 "For any point and any segment, including a zero-length segment, the reported point lies on the segment, the reported distance is the distance to it, and no point of the segment is closer.",
 ["inputs"], "every point and every segment over all reals",
 "Only a handful of random points are compared in the tests, which never reach the end-point and degenerate branches deliberately.",
 ["Collision/DCPQuery.hpp", "Sylinder/SylinderNear.hpp"],
 [("DistPointSeg", "Collision/DCPQuery.hpp")])
prop("G03", "Pair collision constraint geometry is consistent",
 "For every recorded pair of particles (sphere-sphere, sphere-rod, rod-rod, in either argument order) with a positive centre-line distance the constraint holds opposite unit contact normals along the line of closest approach (from the other particle towards the own one), and a separation equal to the centre-line distance minus both collision radii. The contact points are the closest points of the two centre lines in the laboratory frame and the same points relative to each particle's centre. The initial multiplier is max(0,-separation), and the constraint is unilateral and two sided and carries each particle's own global id and index.",
 ["inputs"], "every pair of positions, orientations, lengths and radii with distinct closest points",
 "SylinderNear_test prints blocks for random pairs and asserts little; a sign or index slip in one shape combination is only visible for inputs of that combination.",
 ["Sylinder/SylinderNear.hpp", "Constraint/ConstraintBlock.hpp"],
 [("CalcSylinderNearForce::sp_sp/sp_sy/sy_sy", "Sylinder/SylinderNear.hpp")],
 observe=["constraint blocks appended to the collector"])
prop("G04", "Each contact pair is recorded exactly once, and only when in range",
 "For every pair of distinct particles that both appear as target and as source, over both role assignments together exactly one constraint is recorded when their surface separation is below the buffer threshold of the pair and none otherwise. The outcome does not depend on which particle is the target, on list order or on particle shape, and a particle never collides with itself.",
 ["inputs", "schedules"], "all pairs of particles with distinct or equal ids, all shapes, every target/source assignment and list order",
 "The tests only look at aggregate behaviour of random configurations; the de-duplication rule matters for each shape pair and role.",
 ["Sylinder/SylinderNear.hpp"],
 [("CalcSylinderNearForce::operator() de-duplication by gid", "Sylinder/SylinderNear.hpp")],
 observe=["constraint pool contents", "per-target contact counter"])
prop("G05", "Neighbour search radius covers every contact in range",
 "For any two particles whose surface separation is within the collision buffer threshold, the distance between their centres does not exceed the larger of the two search radii published to the neighbour tree. The search radius is never smaller than the particle's half length plus collision radius.",
 ["inputs", "configurations"], "all particle lengths, radii and buffer settings, sphere and rod alike",
 "A missed pair shows up only for particular size combinations, so simulations on sample data do not reveal it.",
 ["Sylinder/SylinderNear.hpp"],
 [("SylinderNearEP::getRSearch / getRScreen", "Sylinder/SylinderNear.hpp")])
prop("G06", "Collision stress uses the exact rod geometry tensor",
 "The collision virial stress of a pair is linear in the contact force, vanishes with it, is invariant under a common translation of both particles and equals the sum over both particles of the moment of the contact force about the centre, with the rotational part taken from the exact second-moment tensors of a spherocylinder. Swapping the two particles of a pair does not change it.",
 ["inputs"], "all pairs of positions, orientations, lengths, radii and contact points",
 "Tests only look at averaged stresses of random packings.",
 ["Sylinder/SylinderNear.hpp"],
 [("CalcSylinderNearForce::collideStress", "Sylinder/SylinderNear.hpp")])
prop("B01", "Boundary projection returns the nearest surface point and the true delta",
 "For every query point at which the projection is unique, projecting onto a spherical shell, a plane or a cylindrical tube yields the point of that surface nearest to the query. The returned delta has the length of their distance and lies along the line through both; it points into the allowed region, i.e. along query minus projection when the query is in the allowed region and opposite to it when it is outside.",
 ["inputs"], "every query point, centre, radius, axis and inside/outside flag",
 "Boundary_test samples 1000s of random points for two fixed radii and unit axes.",
 ["Boundary/Boundary.cpp", "Boundary/Boundary.hpp"],
 [("SphereShell::project / Wall::project / Tube::project", "Boundary/Boundary.cpp")])
prop("B02", "Boundary contacts: every penetrating or near rod end yields one constraint",
 "For every boundary and every particle, a one-sided constraint with an inward unit normal, the true surface gap and the contact point relative to the centre is created for each rod end (or for the sphere), not exactly on the surface, that is outside the boundary or within the particle's own collision radius plus buffer of it, and none is created otherwise. A particle shaped as a sphere is tested with its own effective sphere radius.",
 ["inputs", "configurations"], "every particle shape and position relative to an arbitrary planar boundary oracle, every number of boundaries",
 "The stand-alone boundary test never runs the collector loop; only full simulations do.",
 ["Sylinder/SylinderSystem.cpp"],
 [("SylinderSystem::collectBoundaryCollision", "Sylinder/SylinderSystem.cpp")])
# ---------------------------------------------------------------- constraints
prop("C01", "Constraint matrix holds each block's generalised force, row by row",
 "For any set of constraint blocks held in any number of per-thread queues, the assembled matrix has one row per block in queue order and the row contains exactly the block's normal and torque on each involved particle at that particle's six columns (only one particle for a one-sided block). The separation, initial multiplier and inverse stiffness vectors, and the unilateral/bilateral flags line up with the same row order.",
 ["inputs", "schedules"], "any distribution of any blocks over thread queues, any global indices, any rank's map offset",
 "No test assembles the matrix; simulation output hides a permuted row.",
 ["Constraint/ConstraintCollector.cpp", "Constraint/ConstraintBlock.hpp"],
 [("buildConstraintMatrixVector / buildConIndex / buildInvKappa", "Constraint/ConstraintCollector.cpp")])
prop("C02", "Constraint operator applies alpha*(D^T M D + K^-1) X + beta*Y",
 "Applying the constraint operator to any vector gives alpha times (the product of the constraint transpose, the mobility and the constraint matrix, plus the diagonal inverse stiffness) times the input plus beta times the previous output. The force and velocity it exposes are the force and the velocity of the last applied input, also when only forces or velocities are read afterwards.",
 ["inputs"], "every constraint matrix, mobility, inverse stiffness, input vector, alpha and beta",
 "No test compares the operator with an explicit matrix product.",
 ["Constraint/ConstraintOperator.cpp"],
 [("ConstraintOperator::apply", "Constraint/ConstraintOperator.cpp")])
prop("C03", "Bound-constrained QP solvers return feasible, honestly reported solutions",
 "For every symmetric problem, bounds and initial guess, each projected-gradient solver records at most one entry per iteration and returns a vector of numbers that satisfies the bounds. The residual it reports (the last one recorded by BBPGD, the smallest one by APGD, which returns its best iterate) is the projected-gradient residual of the returned vector, and when it stops before its iteration limit without reporting stagnation that residual is below the requested tolerance. A feasible initial guess is never rejected, however large the bounds.",
 ["inputs", "configurations"], "every problem matrix/vector, bounds, initial guess, tolerance and iteration limit (small dimensions and iteration counts)",
 "The driver test solves one random problem with a zero initial guess and asserts nothing about feasibility.",
 ["Constraint/BCQPSolver.cpp", "Constraint/BCQPSolver.hpp"],
 [("solveBBPGD / solveAPGD / boundProjection / checkProjectionResidual", "Constraint/BCQPSolver.cpp")])
prop("C04", "LCP solvers return feasible vectors with an honest residual",
 "For every problem and initial guess, the projected-gradient complementarity solvers return non-negative vectors, and the residual they report (the last one recorded by BBPGD, the smallest one by APGD) is the minimum-map residual of the returned vector, below the requested tolerance whenever they stop before the iteration limit. When the minimum-map Newton solver stops before its limit, whatever the inner linear solver answered, the residual recorded last is that of the vector it returns.",
 ["inputs", "configurations"], "every small matrix, vector, initial guess, tolerance and iteration limit",
 "CPSolver_test solves one random problem and compares nothing.",
 ["Collision/CPSolver.cpp", "Collision/CPSolver.hpp"],
 [("LCP_BBPGD / LCP_APGD / LCP_mmNewton / hMinMap", "Collision/CPSolver.cpp")])
prop("C05", "Constraint step poses and reports the intended complementarity problem",
 "For any constraints, mobility, stiffness and time step, the problem handed to the quadratic solver has the constraint operator with inverse stiffness over the time step, a linear term equal to separation over time step plus the constraint rate of the known velocity, lower bound zero exactly for unilateral rows and effectively none for bilateral rows. After the solve, the reported unilateral and bilateral forces are those of the returned unilateral and bilateral multipliers, the velocities are the mobility times these forces, and every block stores its own multiplier.",
 ["inputs", "configurations"], "every constraint set, flags, stiffness, velocity, time step and every quadratic-solver outcome including stopping at the iteration limit",
 "Only complete MPI simulations exercise this and they check statistics.",
 ["Constraint/ConstraintSolver.cpp", "Constraint/ConstraintCollector.cpp", "Constraint/ConstraintOperator.cpp"],
 [("ConstraintSolver::setup / solveConstraints / writebackGamma", "Constraint/ConstraintSolver.cpp")])
prop("C06", "Total constraint stress splits into unilateral and bilateral sums",
 "For any blocks in any number of queues, the reported unilateral and bilateral stresses are the sums of the stresses of exactly the unilateral and of the bilateral two-sided blocks, and one-sided blocks contribute only when requested. Writing multipliers back scales each block's stress with that block's own multiplier.",
 ["inputs", "schedules"], "any distribution of blocks and flags over queues, any thread count",
 "No test covers the sums; a lost queue or flag only skews averages.",
 ["Constraint/ConstraintCollector.cpp"],
 [("sumLocalConstraintStress / writeBackGamma", "Constraint/ConstraintCollector.cpp")])
prop("C07", "Link constraints join plus end to minus end through the nearest image",
 "For every registered link between two particles whose joined ends do not coincide a single bilateral block is created joining the plus end of the first and the minus end of the second, through the nearest periodic image when the box is periodic. Its rest separation is the end distance minus both radii minus the link gap, its stiffness is the configured one, its normals are opposite unit vectors along the joining line and its attachment points are relative to each particle's centre.",
 ["inputs", "configurations"], "every pair of particles, box, periodicity flags, and link map content",
 "The link test only verifies average link lengths of one simulation.",
 ["Sylinder/SylinderSystem.cpp"],
 [("SylinderSystem::collectLinkBilateral", "Sylinder/SylinderSystem.cpp")])
# ---------------------------------------------------------------- dynamics
prop("M01", "Mobility is block diagonal, symmetric and the inverse drag of each particle",
 "For every particle the six-by-six mobility block couples only that particle's own velocity and force, is symmetric, and equals the inverse of the drag along and across its axis for translation and of the rotational drag for rotation. It is zero for immovable particles, and positive on every non-axial direction otherwise.",
 ["inputs", "configurations"], "every orientation, length, radius and viscosity, every number of particles",
 "No test inspects the matrix.",
 ["Sylinder/SylinderSystem.cpp", "Sylinder/Sylinder.cpp"],
 [("SylinderSystem::calcMobMatrix", "Sylinder/SylinderSystem.cpp")])
prop("M02", "Drag coefficients are positive and reduce to Stokes spheres",
 "For every admissible length, radius and viscosity the three drag coefficients are finite and strictly positive, are proportional to viscosity, equal the Stokes drag of a sphere of radius R + L/2 when the particle counts as a sphere, and for a rod equal the slender-body values 8 pi mu L / (2 b), 8 pi mu L / (b + 2) and 2 pi mu L^3 / (3 (b + 2)) with b = 2 ln(L/R) - 1 (so that perpendicular drag is at least parallel drag exactly when b >= 2). A particle counts as a sphere exactly when its length is below its diameter.",
 ["inputs"], "every length >= 0, radius > 0, viscosity > 0",
 "No test evaluates the coefficients.",
 ["Sylinder/Sylinder.cpp"],
 [("Sylinder::calcDragCoeff / isSphere", "Sylinder/Sylinder.cpp")])
prop("M03", "Rotation keeps orientation unit length and follows the rotation vector",
 "For any unit orientation, angular velocity and time step the orientation update returns a unit quaternion that represents the rotation by the given vector composed with the previous orientation, and leaves it unchanged for zero angular velocity. An explicit Euler step moves the position by exactly velocity times time step, and resetting velocities clears every velocity and force component.",
 ["inputs"], "all unit quaternions, angular velocities, velocities and time steps",
 "No test exercises it.",
 ["Util/EquatnHelper.hpp", "Sylinder/Sylinder.cpp"],
 [("EquatnHelper::rotateEquatn / Sylinder::stepEuler / clear", "Util/EquatnHelper.hpp")])
prop("M04", "Velocities and forces are exact sums of their contributions",
 "Before the constraint solve the known velocity is the mobility acting on the total non-Brownian force plus the prescribed non-Brownian velocity plus the Brownian velocity, and after it every particle's total velocity and force equal the sums of their Brownian, non-Brownian, unilateral and bilateral parts. In monolayer mode the known velocity and each of its parts have no out-of-plane translation and no in-plane tumbling, so that the motion is the one the constraints were solved for.",
 ["inputs", "configurations"], "any number of particles and any contributions, monolayer on or off",
 "Only the API test prints velocities.",
 ["Sylinder/SylinderSystem.cpp"],
 [("calcVelocityNonCon / sumForceVelocity / saveForceVelocityConstraints", "Sylinder/SylinderSystem.cpp")])
prop("M05", "Brownian velocity obeys fluctuation-dissipation",
 "For every particle the part of the Brownian velocity that is linear in the random normals has covariance 2kT/dt times the mobility of that particle, jointly for translation and rotation. What remains is the random-finite-difference term of the translation, which changes sign with the normals it is driven by, so that its mean is zero. Different particles use different normals, drawn from the stream of the thread that handles them; immovable particles receive no Brownian velocity.",
 ["inputs"], "every orientation, size, temperature, time step and every value of the random normals",
 "Statistical tests cannot separate a small prefactor error from noise.",
 ["Sylinder/SylinderSystem.cpp"],
 [("SylinderSystem::calcVelocityBrown", "Sylinder/SylinderSystem.cpp")])
# ---------------------------------------------------------------- system
prop("S01", "Periodic wrapping and nearest-image selection are exact",
 "For any position and box the wrapped coordinate lies in the half-open box interval and differs from the position by an integer multiple of the box length, and the selected periodic image of a point is the image nearest to the target (up to rounding), differing from the point by a whole box length.",
 ["inputs"], "every coordinate and every positive box length (also exact floating point near the box faces)",
 "GeoUtil_test uses a few points and is not among the buildable tests here.",
 ["Util/GeoUtil.hpp"],
 [("findPBCImage", "Util/GeoUtil.hpp")])
prop("S03", "New particles receive globally unique ids",
 "When ranks add any numbers of particles at once, every added particle stays on the rank that adds it and receives a distinct global id larger than every (non-negative) id present before, the returned ids are the ids stored on the particles in order, and all other fields are the caller's.",
 ["inputs", "schedules"], "any number of ranks and per-rank additions, any existing ids",
 "The API test runs one rank count and prints.",
 ["Sylinder/SylinderSystem.cpp"],
 [("SylinderSystem::addNewSylinder", "Sylinder/SylinderSystem.cpp")])
prop("S04", "Link tables are identical on all ranks and mutually inverse",
 "After links are added on any ranks, every rank's link table holds every previous link and every link given on any rank exactly once, also when a link is given repeatedly, and the reverse table is exactly the inverse of the forward table. Reading the links of a file replaces both tables.",
 ["inputs", "schedules"], "any number of ranks and any links per rank including none",
 "No test inspects the tables.",
 ["Sylinder/SylinderSystem.cpp"],
 [("SylinderSystem::addNewLink", "Sylinder/SylinderSystem.cpp")])
prop("S05", "Snapshots are written at the configured cadence and in the right folder",
 "Snapshots are written exactly at steps that are whole multiples of the snapshot interval, for every snapshot interval that is, up to rounding, a multiple of the time step, at every step when the interval is shorter than a step, and are numbered consecutively. Snapshot number n belongs to a result folder whose inclusive range contains n, with consecutive non-overlapping ranges.",
 ["inputs", "configurations"], "every step count, time step and snapshot interval; every snapshot id",
 "Tests use one configuration.",
 ["Sylinder/SylinderSystem.cpp"],
 [("getIfWriteResultCurrentStep / getCurrentResultFolder", "Sylinder/SylinderSystem.cpp")])
prop("S06", "Initial particles lie inside the configured region with valid orientations",
 "Every generated initial particle has its centre inside the initial box (or, when requested, inside the inscribed circular cross section of the box), a unit orientation whose axis is the normalised vector of the explicitly prescribed direction components and, for the others, components drawn in [-1,1), radii as configured, a positive length below half of the smallest box edge when lengths are drawn and the configured length otherwise, and ids that are consecutive from zero. Only rank 0 generates particles.",
 ["inputs", "configurations"], "every random draw, box and configuration of lengths and prescribed orientations",
 "The random draws are not asserted on.",
 ["Sylinder/SylinderSystem.cpp"],
 [("setInitialFromConfig / setInitialCircularCrossSection / getOrient / getRandPointInCircle", "Sylinder/SylinderSystem.cpp")])
prop("S07", "The bounding box contains every particle",
 "The computed local and global bounding boxes contain both rod end points of every particle's centre line, are the smallest such boxes, and the global one is the union over all ranks.",
 ["inputs"], "any number of particles at any coordinates, negative ones included, on any number of ranks",
 "No test checks the box and the sample data straddle the origin.",
 ["Sylinder/SylinderSystem.cpp"],
 [("SylinderSystem::calcBoundingBox", "Sylinder/SylinderSystem.cpp")])
prop("S08", "Orientation order parameters are exact averages",
 "The reported volume fraction is the sum of the particles' spherocylinder volumes over the box volume, and nematic and polar order parameters are the averages over all particles of the orientation tensor and vector, for particles distributed over any ranks.",
 ["inputs"], "any particles, any rank count, any box",
 "No test checks the numbers.",
 ["Sylinder/SylinderSystem.cpp"],
 [("calcVolFrac / calcOrderParameter", "Sylinder/SylinderSystem.cpp")])
prop("S09", "Step preparation derives collision sizes and resets state consistently",
 "Preparing a step gives every particle a collision radius and length equal to its physical ones times the configured ratios, positions wrapped into periodic boxes, its own rank, and a global index equal to its place in storage order plus the number of particles on lower ranks. The published neighbour data carry these values. It leaves no force, velocity or constraint of the previous step. In monolayer mode positions lie in the mid plane of the box and axes become the normalised horizontal part of what they were.",
 ["inputs", "configurations"], "any particles, any box and boundary flags, any ratios",
 "Only complete simulations reach it.",
 ["Sylinder/SylinderSystem.cpp"],
 [("SylinderSystem::prepareStep / updateSylinderMap / applyBoxBC", "Sylinder/SylinderSystem.cpp")])
# ---------------------------------------------------------------- MPI / util
prop("U01", "All-to-all exchange delivers every item exactly once in order",
 "After an all-to-all exchange each rank's receive buffer is the concatenation, in source rank order, of exactly the slices addressed to it, and the receive counts and displacements describe those slices.",
 ["inputs", "schedules"], "any rank count, any per-destination counts including zero, any payload",
 "CommMPI_test runs with one rank.",
 ["MPI/CommMPI.hpp"],
 [("CommMPI::exchangeAllToAllV", "MPI/CommMPI.hpp")])
prop("U02", "Point distribution and collection are lossless and ordered",
 "Distributing a coordinate set held on one rank over all ranks and collecting it again returns the same values in the same order, every point goes to exactly one rank, and point counts on different ranks differ only by the remainder. The fixed-point generator returns 1, 2 or 4 points of the shifted box, the random generator (n+1)^3 points inside the shifted box, and a uniform fill only changes values, all into the interval from low to high.",
 ["inputs", "schedules"], "any number of ranks and points, including fewer points than ranks",
 "No test builds this component.",
 ["Util/PointDistribution.cpp", "Util/PointDistribution.hpp"],
 [("distributePts / collectPtsAll / FixedPoints / shiftAndScalePoints", "Util/PointDistribution.cpp")])
prop("U03", "Distributed data directory returns the data published under each id",
 "For any ids and data published by any ranks, a lookup of any list of published ids (with repetitions, in any order) returns for each position the data published under that id. Looking up with an empty list is allowed.",
 ["inputs", "schedules"], "any number of published ids, any lookup list, any payload",
 "ZDD_test uses one arithmetic id pattern.",
 ["Trilinos/ZDD.hpp"],
 [("ZDD::buildIndex / find", "Trilinos/ZDD.hpp")])
prop("U04", "Mixed-pair interactions see each target with all and only valid sources",
 "The mixed interaction engine passes to the user's pair function only targets and sources of the declared kinds, and returns each target's force entry at the index of that target, so that padding entries of the other kind never act or receive. Results are independent of how both kinds are concatenated.",
 ["inputs"], "any numbers of targets and sources, any payload, any ordering",
 "The test uses one data size and one seed.",
 ["MPI/MixPairInteraction.hpp"],
 [("MixPairInteraction::updateSystem / computeForce; MixFP/MixEPI/MixEPJ copies", "MPI/MixPairInteraction.hpp")])
prop("U05", "Distributed maps and vectors keep local data, order and block offsets",
 "A map built from local sizes assigns each rank a contiguous index range in rank order; a vector built from local data holds exactly these values. A two-block concatenated map and vector contains every first-block entry followed by every second-block entry with distinct indices.",
 ["inputs", "schedules"], "any local sizes (also zero) on any number of ranks, any data",
 "TpetraUtil_test runs on one rank with one pattern.",
 ["Trilinos/TpetraUtil.cpp", "Trilinos/TpetraUtil.hpp"],
 [("getTMAPFromLocalSize / getTVFromVector / getTMAPFromTwoBlockTMAP / getTVFromTwoBlockTV", "Trilinos/TpetraUtil.cpp")])
prop("U06", "Base64 output decodes to the original bytes",
 "For every byte string the encoded text uses only the standard alphabet with correct padding and decodes to exactly the original bytes; the binary-array form prefixes the payload with its exact byte length.",
 ["inputs"], "every byte string up to the stated length and every array content",
 "No test calls the encoder; its remainder branches depend on length modulo three.",
 ["Util/Base64.hpp", "Util/Base64.cpp"],
 [("B64Converter::getBase64FromBinary / getBase64FromVector*", "Util/Base64.hpp")])
prop("U07", "Sorting returns the stable ascending permutation and reorders data with it",
 "For any keys the returned permutation is a bijection that orders the keys ascending and keeps equal keys in their original order, and data arrays reordered with it correspond entry by entry with the sorted keys, irrespective of the number of threads.",
 ["inputs", "schedules"], "any key values with ties, any length up to the bound, any thread interleaving",
 "SortUtil_test sorts random sequences without ties on fixed sizes.",
 ["Util/SortUtil.hpp"],
 [("sortDataWithTag / stable index sort", "Util/SortUtil.hpp")])
prop("U08", "Random streams are disjoint across ranks and threads and bounded",
 "Every (rank, thread) pair draws from its own sub-stream of the master sequence and no two pairs share an element; each stream depends only on the seed, rank, thread and their counts. Uniform draws are produced from the calling thread's engine only.",
 ["inputs", "schedules"], "any number of ranks and threads and any seed",
 "TRngPool_test is not buildable here and draws one sample.",
 ["Util/TRngPool.hpp"],
 [("TRngPool constructor: leapfrog/split of engines", "Util/TRngPool.hpp")])
prop("U09", "Every data array header in VTK files has its matching piece declaration",
 "For each output family (particles, constraint blocks) the parallel header file lists exactly one piece per rank, by the name of the file that rank wrote, and declares exactly the arrays, in the same order, with the same name, type and component count, that each rank's piece file contains. In each piece every array's tuple count equals the declared number of points or cells, and the arrays hold the particles' or constraints' own values in storage order (positions: the two ends of each particle, the two labels of each constraint).",
 ["inputs", "configurations"], "any particle count, also zero, and any field values",
 "Tests never parse the files.",
 ["Sylinder/Sylinder.hpp", "Util/IOHelper.hpp", "Constraint/ConstraintCollector.cpp"],
 [("Sylinder::writeVTP / writePVTP, ConstraintCollector::writeVTP / writePVTP", "Sylinder/Sylinder.hpp")])
prop("U10", "Serialisation buffer returns what was stored, in order",
 "For any sequence of values, strings, arrays and vectors packed into a buffer, unpacking in the same order returns identical values and advances the read position by exactly the packed bytes, leaving the packed content unchanged.",
 ["inputs", "histories"], "any sequence of pack operations with any payload",
 "No test uses the buffer.",
 ["Util/Buffer.hpp"],
 [("Buffer::pack / unpack", "Util/Buffer.hpp")])
prop("U11", "Random orientations are unit quaternions from valid uniforms",
 "For every triple of uniform random numbers in the unit interval the generated orientation is a unit quaternion, and the map from uniforms to orientations is the uniform (Shoemake) distribution.",
 ["inputs"], "every triple of uniforms in [0,1)",
 "Never tested.",
 ["Util/EquatnHelper.hpp"],
 [("EquatnHelper::setUnitRandomEquatn", "Util/EquatnHelper.hpp")])
# ---------------------------------------------------------------- FDPS
prop("F01", "Tree keys are order-preserving bit interleavings",
 "For any position inside the root cell, the tree key's digit at each level is the octant of the position at that level, so two particles share a cell at a level exactly when their keys share the prefix of that level.",
 ["inputs"], "all positions in the root cell, all levels",
 "No test touches the key code directly.",
 ["FDPS/key.hpp"],
 [("MortonKey::getKey / getCellID", "FDPS/key.hpp")])
prop("F02", "Box distance, containment and overlap predicates are exact",
 "The minimum squared distance between two boxes or between a box and a point is the exact minimum over their points; overlap holds exactly when it is zero, containment of a point exactly when every coordinate is within; merging produces the smallest enclosing box.",
 ["inputs"], "all boxes and points",
 "Only indirectly tested with random particles.",
 ["FDPS/orthotope3.hpp"],
 [("Orthotope3::getDistanceMinSQ / overlapped / contained / merge", "FDPS/orthotope3.hpp")])
prop("F03", "Tree key radix sort is a stable ascending sort",
 "Sorting tree particles by key returns a permutation of the input in ascending key order, keeping the order of equal keys, for any number of threads.",
 ["inputs", "schedules"], "all key sequences up to the bound, any thread count",
 "Only indirectly tested with random particles.",
 ["FDPS/sort.hpp"],
 [("RadixSort::lsdSort", "FDPS/sort.hpp")])
prop("F04", "Periodic adjustment puts each particle in the root domain",
 "After periodic adjustment each particle lies inside the half-open root domain in each periodic direction, displaced by a whole number of periods up to rounding; non-periodic directions are unchanged.",
 ["inputs", "configurations"], "all positions within one domain length, every periodicity combination",
 "No test checks positions after adjustment.",
 ["FDPS/particle_system.hpp", "FDPS/domain_info.hpp"],
 [("ParticleSystem::adjustPositionIntoRootDomain", "FDPS/particle_system.hpp")])

# ---------------------------------------------------------------- claims
sys.path.insert(0, os.path.join(ROOT, "tools"))
try:
    from claims import CLAIMS, NOT_APPLICABLE, NOTES
except ImportError:
    CLAIMS, NOT_APPLICABLE, NOTES = {}, {}, ""
TECH = "bounded symbolic execution of the compiled code (LLVM IR) + SMT (z3/cvc5), counterexamples replayed natively"
def main():
    with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
        for p in P: f.write(json.dumps(p) + "\n")
    ids = {p["id"] for p in P}
    assert set(CLAIMS) <= ids and set(NOT_APPLICABLE) <= ids and not set(CLAIMS) & set(NOT_APPLICABLE)
    checks, na = [], []
    for p in P:
        i = p["id"]
        if i in CLAIMS:
            c = CLAIMS[i]
            checks.append(dict(property=i, quick_cmd=f"bash check.sh {i}", thorough_cmd=f"VERIF_TIER=thorough bash check.sh {i}",
                evidence_file=f"evidence/{i}.json", technique=c.get("technique", TECH), level=c.get("level", "model_checking"), level_note=c["note"]))
        else:
            na.append(dict(property=i, reason=NOT_APPLICABLE.get(i, "not built yet")))
    m = dict(version=1, setup_cmd="bash setup.sh", checks=checks, not_applicable=na)
    if NOTES: m["notes"] = NOTES
    with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1); f.write("\n")
    print(len(P), "properties,", len(checks), "claimed")
if __name__ == "__main__": main()

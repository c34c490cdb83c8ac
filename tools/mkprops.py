#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the long texts stay readable in review)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                     observe_at=observe, hook_needed=None)))

TESTS = "The 43 tests that run here only exercise the string splitting, tokenizing and trimming helpers on fixed strings; "

prop("C01", "Checkpoint serialize/deserialize round trip is lossless",
 "Everything a simulation checkpoint stores - scalars, strings, dense and sparse matrices, vectors of objects, 2D-ball, 2D- and 3D-rigid-body states with their masses, geometry, planes, drums, cylinders, portals and forces, integrators, impact/friction operators and maps, and warm-start caches - is reconstructed by the matching deserialization as an equal object, reading exactly the bytes that serialization wrote. This holds for every value and every number of elements, including empty ones, and for every concrete type that the program supports checkpointing (the few it does not support, such as the Jacobi operator or staples, stop the program loudly instead of writing or reading something else).",
 ["inputs", "histories"], "every field value, every element count, every concrete type that can be held polymorphically",
 TESTS+"no test serializes anything; a dropped, swapped or mistyped field only shows for particular contents (non-zero portal offsets, more than 8 flags, more than one force ...).",
 ["scisim/Utilities.h", "scisim/Utilities.cpp", "scisim/StringUtilities.cpp", "scisim/Math/MathUtilities.h", "scisim/Math/MathUtilities.cpp", "ball2d/Ball2DState.cpp", "rigidbody2d/RigidBody2DState.cpp", "rigidbody3d/RigidBody3DState.cpp", "scisim/ConstrainedMaps/ConstrainedMapUtilities.cpp"],
 [("field-by-field raw write/read in the same order", "serialize()/deserialize() pairs throughout")],
 ["the object after deserialize(), and the stream position"])

prop("C02", "Contact constraints report one consistent contact kinematics",
 "For every contact type (2D balls, 2D rigid bodies, 3D rigid bodies; body-body, body-plane, body-drum/cylinder, scripted-kinematic and portal-teleported contacts) the contact normal has unit length, the reported normal relative velocity equals the normal component of the reported relative velocity, and both equal the action of the reported constraint gradient and contact Jacobians on the system velocity plus the reported kinematic contribution. The contact point, body indices and stencil sizes that a contact reports agree with the entries its gradients actually touch.",
 ["inputs"], "all positions, orientations, velocities, radii, body indices and system sizes",
 TESTS+"no test builds a contact constraint.",
 ["scisim/Constraints/Constraint.cpp", "ball2d/Constraints", "rigidbody2d/CircleCircleConstraint.cpp", "rigidbody2d/BodyBodyConstraint.cpp", "rigidbody3d/Constraints"],
 [("evalNdotV / evalgradg / evalH / computeRelativeVelocity of each Constraint subclass", "*/...Constraint.cpp")],
 ["evalNdotV, evalgradg, computeGeneralizedFrictionGivenTangentSample, evalH, computeRelativeVelocity, computeKinematicRelativeVelocity"])

prop("C03", "Contact impulses conserve the momenta they claim to conserve",
 "A unit normal impulse applied through a contact leaves total linear momentum unchanged whenever the contact says it conserves translational momentum, and total angular momentum unchanged whenever it says it conserves angular momentum under impact; the same holds for tangential (friction) impulses and the claim about impact and friction. Impulses never act on a scripted or static body and never touch any body other than the reported ones.",
 ["inputs"], "all contact types, geometries, impulse magnitudes, system sizes and body indices",
 TESTS+"no test applies an impulse.",
 ["ball2d/Constraints", "rigidbody2d/CircleCircleConstraint.cpp", "rigidbody3d/Constraints"],
 [("evalgradg and computeGeneralizedFrictionGivenTangentSample columns", "*/...Constraint.cpp")],
 ["change of sum(m v) and of sum(x cross m v + I omega) under v += Minv * column * alpha"])

prop("C04", "Impact resolution obeys the restitution law and never adds energy",
 "Resolving a single impact changes the pre-impact normal relative velocity u (relative to the scripted surface) into -CoR*u, applies a non-negative impulse only along the contact gradient, and for 0<=CoR<=1 does not increase kinetic energy when nothing is scripted. The sequential and simultaneous operators built on it (Gauss-Seidel, and the blended GR/GRR operators, and the LCP right-hand side) apply exactly that law to the violated contacts and leave other velocities unchanged, also when started from cached impulses, and one step of the impact map is exactly: unconstrained predictor, active set, impact solve on the start velocity, unconstrained step with the resolved velocity.",
 ["inputs", "configurations"], "all positive definite mass matrices, gradients, velocities, restitution values in [0,1]",
 TESTS+"no test resolves an impact.",
 ["scisim/Constraints/Constraint.cpp", "scisim/ConstrainedMaps/ImpactMaps/GaussSeidelOperator.cpp", "scisim/ConstrainedMaps/ImpactMaps/JacobiOperator.cpp", "scisim/ConstrainedMaps/ImpactMaps/GROperator.cpp", "scisim/ConstrainedMaps/ImpactMaps/GRROperator.cpp", "scisim/ConstrainedMaps/ImpactMaps/ImpactOperatorUtilities.cpp", "scisim/ConstrainedMaps/ImpactMaps/ImpactMap.cpp"],
 [("impulse = -(1+CoR) (N^T v) / (N^T Minv N) along Minv N", "Constraint::computeImpactMagnitude / resolveImpact and operators")],
 ["velocity and impulse vectors after flow()"])

prop("C05", "Narrow-phase collision tests are geometrically exact",
 "Each pairwise collision test reports a contact exactly when the two shapes (circle, sphere, box, plane, drum, cylinder, swept ball) touch or overlap in the given configuration (for continuous tests: at some time of the step, reporting the earliest such time), and the reported contact point and unit normal lie where the shapes meet and point from the second object to the first. Penetration depth is zero when separated and the overlap distance otherwise.",
 ["inputs"], "all positions, radii, orientations and motions",
 TESTS+"no test calls a collision test.",
 ["scisim/CollisionDetection/CollisionDetectionUtilities.cpp", "rigidbody2d/CircleBoxTools.cpp", "rigidbody2d/BoxBoxTools.cpp", "rigidbody3d/Constraints/CollisionUtilities.cpp", "rigidbody3d/Constraints/BoxBoxUtilities.cpp", "ball2d/Constraints", "rigidbody3d/Constraints"],
 [("closed-form distance / quadratic root tests", "isActive, ballBallCCDCollisionHappens, CircleBoxTools, ...")],
 ["boolean result, time, contact point, normal, depth"])

prop("C06", "Broad phase never loses a potential collision",
 "For every set of axis-aligned boxes (2D balls, 2D rigid bodies, 3D rigid bodies) the set of candidate pairs from the spatial grid contains every pair of distinct bodies whose boxes overlap, each pair once with the smaller index first, and no pair whose boxes are disjoint. The boxes handed to it enclose the whole body (over the whole step for swept boxes).",
 ["inputs", "configurations"], "all box sets, all body counts, all cell sizes",
 TESTS+"no test runs broad phase; missed pairs depend on exact cell alignment.",
 ["ball2d/SpatialGridDetector.cpp", "rigidbody2d/SpatialGrid.cpp", "rigidbody3d/SpatialGridDetector.cpp", "rigidbody2d/CircleGeometry.cpp", "rigidbody2d/BoxGeometry.cpp", "rigidbody3d/Geometry"],
 [("hash-grid rasterization of boxes followed by exact overlap filter", "getPotentialOverlaps")],
 ["returned pair set", "computed AABBs"])

prop("C07", "Integrators implement their update and preserve their invariants",
 "Each unconstrained integrator (symplectic Euler, Verlet, exponential Euler, split-Hamiltonian, DMV) maps a state to exactly the update its name denotes (for symplectic Euler: velocity advanced with the force at the start of the step and the inverse mass matrix, then positions with the new velocity), keeps orientations orthonormal, conserves spatial angular momentum for a torque-free body where the scheme is a momentum-preserving one, and never lets a force move a fixed or scripted body. The result depends on nothing but its arguments.",
 ["inputs", "histories"], "all states, system sizes, time steps and fixed-body patterns",
 TESTS+"the integrator tests need assets and dependencies not built here, and sample single trajectories.",
 ["ball2d/SymplecticEulerMap.cpp", "ball2d/VerletMap.cpp", "rigidbody2d/SymplecticEulerMap.cpp", "rigidbody2d/VerletMap.cpp", "rigidbody3d/UnconstrainedMaps"],
 [("flow()", "each UnconstrainedMap")], ["q1, v1 after flow()"])

prop("C08", "Forces derive from their potentials and energy/momentum reports are right",
 "Near-earth gravity and the penalty force contribute exactly minus the gradient of the potential energy they report, accumulate onto the force already present, and penalty forces between bodies are equal and opposite. The kinetic and potential energy and the linear and angular momentum that a 2D-ball, 2D- or 3D-rigid-body system reports equal their defining sums over all bodies.",
 ["inputs"], "all states, masses, force parameters and body counts",
 TESTS+"no test evaluates a force or an energy.",
 ["ball2d/Forces", "rigidbody2d/NearEarthGravityForce.cpp", "rigidbody3d/Forces/NearEarthGravityForce.cpp", "ball2d/Ball2DSim.cpp", "rigidbody2d/RigidBody2DSim.cpp", "rigidbody3d/RigidBody3DSim.cpp"],
 [("computeForce/computePotential, compute*Energy/Momentum", "forces and Sim classes")], ["returned energies, momenta, force vector"])

prop("C09", "Mass matrices and inertias are exact, positive and mutually inverse",
 "The mass matrix and inverse mass matrix of every system are mutually inverse, positive and carry the body masses and inertias in the order of the velocity degrees of freedom; for 3D bodies they equal the body-frame inertia rotated by the current orientation. Mass, volume and inertia of circles, boxes, spheres, staples and closed triangle meshes equal the closed-form values, and diagonalized inertia frames are right-handed rotations.",
 ["inputs"], "all densities, extents, orientations, meshes and body counts",
 TESTS+"no test computes a mass.",
 ["ball2d/Ball2DState.cpp", "rigidbody2d/RigidBody2DState.cpp", "rigidbody3d/RigidBody3DState.cpp", "rigidbody3d/Geometry", "rigidbody2d/CircleGeometry.cpp", "rigidbody2d/BoxGeometry.cpp"],
 [("generateM/generateMinv/updateMandMinv, computeMassAndInertia", "State and Geometry classes")], ["M(), Minv(), M0(), I0(), m(), computeMassAndInertia"])

prop("C10", "Portals (periodic boundaries) teleport consistently",
 "Sending a point or body through a periodic or Lees-Edwards portal and back returns it to where it started, moves it by exactly the displacement between the two planes, leaves it on the inner side of the boundary it re-enters, changes its velocity by exactly the relative boundary velocity, and keeps Lees-Edwards offsets within their bounds. Touch tests report a portal plane exactly when the given box reaches it.",
 ["inputs", "histories"], "all portal placements, body positions, velocities, times",
 TESTS+"no test uses portals.",
 ["ball2d/Portals/PlanarPortal.cpp", "rigidbody2d/PlanarPortal.cpp", "rigidbody3d/Portals/PlanarPortal.cpp"],
 [("teleportPointThroughPlaneA/B, pointInsidePortal, updateMovingPortals", "PlanarPortal")], ["teleported points, velocities, deltas, flags"])

prop("C11", "Solver stopping tests are exact and projections feasible",
 "Every residual measure used to stop the impact and friction solvers is zero exactly when the complementarity (or bound-constrained / disc-constrained optimality) conditions hold, and positive otherwise; every projection returns a feasible point and is the nearest one, leaving feasible points unchanged. A solver that reports success returns a point whose residual is within the requested tolerance, a feasible point of the right size is always returned, the matrix-vector operators they iterate equal the products they stand for, and the quadratic programs handed to the external QL solver are exactly the stated problems.",
 ["inputs", "configurations"], "all vectors, sizes, bounds, tolerances and friction coefficients",
 TESTS+"no test runs a solver.",
 ["scisim/ConstrainedMaps/ImpactMaps/MinMapImpact.cpp", "scisim/ConstrainedMaps/ImpactMaps/FischerBurmeisterImpact.cpp", "scisim/ConstrainedMaps/FrictionMaps", "scisim/Math/QPSolvers", "scisim/ConstrainedMaps/ImpactMaps/LCPOperatorAPGD.cpp"],
 [("termination operators, projections, APGD", "operator()/project/solve")], ["residual values, projected vectors, solver return values"])

prop("C12", "Warm-start caches return exactly the impulses stored for a contact",
 "After caching, looking up a contact returns the impulses that were cached for the same pair of bodies (or body and boundary) of the same contact type (the contacts cached in one step being distinct), and zero for a contact never cached; clearing empties every cache; contacts of different types, different bodies or different boundaries never share an entry.",
 ["histories", "inputs"], "all sequences of cache and lookup operations over all body and boundary indices",
 TESTS+"no test touches the caches.",
 ["ball2d/ConstraintCache.cpp", "rigidbody2d/ConstraintCache.cpp", "rigidbody3d/ConstraintCache.cpp"],
 [("ordered maps keyed by body/boundary indices", "cacheConstraint/getCachedConstraint/clear")], ["getCachedConstraint results, empty()"])

prop("C13", "Rational time-step arithmetic is exact and canonical",
 "Every rational is kept in lowest terms with a positive denominator; arithmetic, integer tests and conversions return the exact mathematical value while the operands are small enough to be represented, and equal values compare equal. Parsing a decimal or fraction string yields exactly the written value, including its sign, and rejects strings with more than one slash or decimal point, with both, with a zero denominator, or with no number (scientific notation is out of scope).",
 ["inputs"], "all integer operands in range, all numeric strings",
 TESTS+"none covers rationals.",
 ["scisim/Math/Rational.h"], [("normalization by greatest common divisor after each operation", "Rational")], ["numerator, denominator, scalar conversion, parse result"])

prop("C14", "String utilities are lossless",
 "Splitting and tokenizing return, for every string and separator, the pieces of the original in order with nothing lost or invented; trimming removes exactly the leading/trailing white space; padding yields a string of the requested length that keeps the text; the comma-separated and path helpers are consistent with these. No input, including the empty string and bytes outside ASCII, makes them fail.",
 ["inputs"], "all strings and separator characters",
 "The 43 tests check fixed short strings; the empty-string and non-ASCII inputs and all other lengths and separators are not covered.",
 ["scisim/StringUtilities.cpp", "scisim/StringUtilities.h"], [("scan loops", "StringUtilities")], ["returned strings"])

prop("C15", "Tangent bases and friction generators are orthonormal and complete",
 "Every contact basis is a right-handed orthonormal frame whose first axis is the contact normal, for every unit normal including axis-aligned ones and every tangential velocity including zero. The friction samples generated from it are unit vectors orthogonal to the normal, evenly spaced and the corresponding generalized friction columns are exactly the work-dual of the tangential relative velocity.",
 ["inputs"], "all unit normals, tangential velocities and sample counts",
 TESTS+"no test builds a basis.",
 ["rigidbody3d/Constraints/FrictionUtilities.cpp", "scisim/Constraints/Constraint.cpp", "scisim/ConstrainedMaps/FrictionMaps/FrictionOperatorUtilities.cpp", "scisim/ConstrainedMaps/FrictionMaps/FrictionOperator.cpp"],
 [("orthogonal vector construction, Rodrigues rotation, basis assembly", "FrictionUtilities, Constraint")], ["basis matrix, tangent samples"])

prop("C16", "Editing a state keeps all per-body data aligned",
 "Adding or removing bodies, balls or geometry leaves every other body's position, velocity, mass, inertia, fixed flag and geometry unchanged and attached to the same body, with all per-body arrays and matrices of matching size; copying a state yields an equal and independent state. The reported bounding box is the smallest box enclosing all bodies.",
 ["histories", "inputs"], "all states, all index sets removed, all bodies added",
 TESTS+"no test edits a state.",
 ["ball2d/Ball2DState.cpp", "rigidbody2d/RigidBody2DState.cpp", "rigidbody3d/RigidBody3DState.cpp"],
 [("parallel-array compaction and extension", "addBody, removeBodies, removeGeometry, pushBallBack, copy constructors")], ["state accessors after the edit"])

prop("C17", "A contact step composes its parts consistently",
 "In every impact-and-friction map (stabilized, geometric, symplectic Euler) contacts are sought between the start configuration and the configuration the unconstrained step predicts; the friction solver receives exactly the step's masses, start configuration, velocity, contacts, contact bases, tolerances and the (scripted, if there is a script) restitution and friction coefficients of those contacts; impulses are warm-started from and cached to the same contacts exactly as the mode says; the step is completed with the velocity the solver returns, and without contacts it is the unconstrained step and the cache is emptied. Staggered projections returns a velocity that is explained by exactly the impulses it returns, and reports the error of those impulses.",
 ["inputs", "histories"], "all start states, contact sets, cached impulses, coefficients and solver answers",
 TESTS+"the friction solvers and impact-friction maps run in no test.",
 ["scisim/ConstrainedMaps/StabilizedImpactFrictionMap.cpp", "scisim/ConstrainedMaps/GeometricImpactFrictionMap.cpp", "scisim/ConstrainedMaps/SymplecticEulerImpactFrictionMap.cpp", "scisim/ConstrainedMaps/StaggeredProjections.cpp"],
 [("impact-friction flows", "flow of the three maps"), ("staggered projections", "StaggeredProjections::solve")], ["end configuration and velocity", "calls made to the solver, the integrator, the contact detection and the impulse cache"])

with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")

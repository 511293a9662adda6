prop("P01", "A resumed run starts from exactly the state that was saved",
     "Whatever state a simulation is in when it is checkpointed, reading the checkpoint back consumes exactly the bytes that were written and restores every piece of state that later steps depend on (bodies, geometry, forces, portals, fixed flags, warm-start caches, integrator and solver settings, clock and output counters) to the value that was saved.",
     ["inputs", "histories", "crash points"], "all simulation states of the three applications x every polymorphic choice of force, geometry, integrator, solver and map",
     "No test serialises anything; the round trip must hold for every state, and a swapped or dropped field only shows when that field matters after a resume.",
     ["ball2d/Ball2DState.cpp", "rigidbody2d/RigidBody2DState.cpp", "rigidbody3d/RigidBody3DState.cpp", "*/ConstraintCache.cpp", "scisim/ConstrainedMaps/ConstrainedMapUtilities.cpp", "*cli/*_cli.cpp", "scisim/Utilities.h", "scisim/Math/MathUtilities.h"],
     [("serialize / deserialize and stream constructors", "all classes with serialize(std::ostream&)"), ("save and resume of the application", "serializeSystem / deserializeSystem")],
     "abstract interpretation: the writer yields its symbolic byte sequence, the reader is interpreted on that sequence, restored members compared with saved ones", "proof",
     "Decided for generic objects (all sizes, all values). Assumes the stream does not fail and same-layout byte copies. Bookkeeping that only lives within one step (open output files) is excluded.")

prop("P02", "Every kind of object a scene can contain can be saved and resumed",
     "Every concrete kind of force, geometry, integrator, impact operator, friction solver and contact map that can be part of a running simulation can be written to a checkpoint, and the checkpoint reader recognises what was written and reconstructs an object of that same kind; an absent optional object is restored as absent.",
     ["inputs", "configurations"], "all concrete classes of every polymorphic family x the three applications",
     "A missing or crossed tag only shows when a run using that one kind is resumed.",
     ["scisim/ConstrainedMaps/ConstrainedMapUtilities.cpp", "ball2d/Ball2DUtilities.cpp", "rigidbody2d/RigidBody2DUtilities.cpp", "rigidbody3d/RigidBody3DUtilities.cpp", "ball2d/Ball2DState.cpp", "rigidbody2d/RigidBody2DState.cpp", "rigidbody3d/RigidBody3DState.cpp"],
     [("tag written by the object, dispatch on the tag in the reader", "serialize / deserialize* functions")],
     "abstract interpretation of writer and reader for each concrete class; constructed class compared with saved class", "proof",
     "All concrete classes are enumerated from the type-checked program. Three kinds whose save function was never written are listed in known-findings.json.")

prop("P03", "Copies of simulation objects are complete and independent",
     "A copy of a simulation state, and a duplicate of any shape, force, impact operator or friction operator, is of the same kind as the original, agrees with it in everything it stores, leaves it unchanged and shares no changeable data with it. Moving or exchanging states, scripts and handles carries over all of their content, gives up what was moved, and assigning an object to itself changes nothing.",
     ["inputs", "histories"], "all states of the three applications x every concrete shape, force and operator",
     "A member left out of a copy only shows when that member matters to what is done with the copy later; no test copies anything.",
     ["ball2d/Ball2DState.cpp", "rigidbody2d/RigidBody2DState.cpp", "rigidbody3d/RigidBody3DState.cpp", "*/*Geometry*.cpp", "*/Forces/*.cpp", "scisim/ConstrainedMaps/*/*.cpp", "scisim/Utilities.h", "*/PythonScripting.cpp", "scisim/HDF5File.cpp", "scisim/PythonObject.cpp"],
     [("duplication", "clone functions and the deep copy of lists"), ("copy, move and exchange", "copy constructors, assignments, swap functions")],
     "abstract interpretation of every hand-written duplicating, copying, moving and exchanging function on a generic object; every data member of the result compared by value number with the same member of the original", "proof",
     "Members are enumerated from the type-checked program. Copies the compiler generates are memberwise by definition.")

prop("P04", "A warm-started contact gets back its own impulse from the last step",
     "After a step's impulses are remembered, looking up a contact returns exactly the impulse stored for that same pair of participants and kind of contact, whatever other contacts are stored; a contact that was not stored starts from zero. Forgetting the remembered impulses leaves nothing behind for any kind of contact, and the memory reports itself empty exactly when it holds nothing.",
     ["inputs", "histories"], "all contact kinds of the three applications x all stored impulses, participants and previous cache contents",
     "A wrong key or wrong table only shows when two contacts collide in the table or a particular kind of contact persists over two steps; no test builds a contact.",
     ["ball2d/ConstraintCache.cpp", "rigidbody2d/ConstraintCache.cpp", "rigidbody3d/ConstraintCache.cpp", "*Sim.cpp"],
     [("cacheConstraint / getCachedConstraintImpulse / clearConstraintCache / constraintCacheEmpty", "*/ConstraintCache.cpp")],
     "abstract interpretation of store, look-up, clear and emptiness on a symbolic contact of every concrete class; map keys and values compared by value numbering", "proof",
     "Contact kinds the cache refuses (it ends the program) are recorded as refused, not as violations.")

prop("P05", "Contact impulses obey Newton's third law",
     "For every kind of contact between two simulated bodies, every impulse the solvers can apply (normal, friction, and either column of the solver blocks) acts with equal and opposite linear impulse on the two bodies, and with an angular impulse equal to the lever arm crossed with that impulse; contacts with fixed or scripted obstacles act on the simulated body only. Contacts that declare they conserve linear or angular momentum really do so, for every configuration, and resolving one impact changes velocities only along that impulse with the requested restitution.",
     ["inputs", "configurations"], "all contact kinds of the three applications x all configurations, velocities, masses and impulses",
     "Momentum balance is an identity in all real inputs; no test constructs a contact.",
     ["scisim/Constraints/Constraint.h", "ball2d/Constraints/*.cpp", "rigidbody2d/Constraints/*.cpp", "rigidbody3d/Constraints/*.cpp"],
     [("gradient, friction columns, solver blocks, resolveImpact, conservation flags", "*/Constraints/*Constraint.cpp")],
     "abstract interpretation to polynomial normal forms; momentum sums compared with zero as polynomials", "proof",
     "Decided over all real inputs in exact arithmetic. Assumes unit normals and distinct bodies; what cannot be resolved is reported as undecided.")

prop("P06", "The contact operators of one contact all describe the same contact",
     "For every kind of contact and every configuration and velocity, the normal approach velocity, the contact gradient, the kinematic (scripted-motion) term, the relative velocity at the contact point, the solver blocks, the friction directions with their kinematic terms, the contact basis and the reported contact normal are one consistent linear description: each is the same normal, tangent and lever arm applied to the same two bodies. The gradient's entries are exactly the derivatives of the normal velocity, the friction columns and solver blocks are exactly the derivatives of the tangential velocities, and declared stencil sizes equal the number of entries written.",
     ["inputs", "configurations"], "all contact kinds of the three applications x all body configurations, velocities, geometry parameters",
     "No test touches a contact constraint; agreement is an identity in all real inputs of two to eight separately written functions per class.",
     ["scisim/Constraints/Constraint.h", "ball2d/Constraints/*.cpp", "rigidbody2d/Constraints/*.cpp", "rigidbody3d/Constraints/*.cpp"],
     [("normal velocity, gradient, relative velocity, solver blocks, friction columns, basis", "*/Constraints/*Constraint.cpp")],
     "abstract interpretation to polynomial normal forms; identities compared as polynomials", "proof",
     "Each identity is decided over all real inputs (exact arithmetic, not floating point). Assumes contact normals are unit vectors and the two bodies differ. Unresolvable expressions are reported as undecided, not as violations.")

prop("P07", "The mass matrix and its inverse describe the same physical bodies",
     "In every state the simulator builds, restores or updates, the stored mass matrix and the stored inverse mass matrix are exact inverses of each other, entry by entry, for every body. In three dimensions the world-frame inertia blocks are the body's principal inertia rotated by the body's current orientation, and the inverse blocks use the same orientation and the reciprocal inertia.",
     ["inputs", "configurations", "histories"], "all bodies, masses, inertias and orientations, after construction, insertion and every step",
     "Holds for every mass, inertia and rotation matrix, at two separately written fill sites per application.",
     ["ball2d/Ball2DState.cpp", "rigidbody2d/RigidBody2DState.cpp", "rigidbody3d/RigidBody3DState.cpp"],
     [("mass matrix assembly", "generateM / generateMinv / setState / updateMandMinv / addBody")],
     "abstract interpretation of the fill loops for a generic body; products of entries compared with one as rational functions", "proof",
     "Decided for a generic body index over all real masses and orthonormal orientations in exact arithmetic. One compaction loop of body removal is reported as undecided.")

prop("P08", "Forces, energies and momenta reported agree with each other",
     "Every conservative force law applies, for every configuration, exactly the negative gradient of the potential energy it reports, and pairwise laws push both bodies equally and oppositely. The total force on the system is the sum of every force law of the scene evaluated once, at the configuration and velocity asked for, and the reported kinetic, potential and total energy, momentum and angular momentum are those of the masses, inertias and velocities of all bodies.",
     ["inputs", "configurations"], "all force laws and totals of the three applications x all configurations, velocities, masses and parameters",
     "Agreement of two separately written formulas for every configuration, including regions where a penalty force is inactive; no test evaluates a force.",
     ["ball2d/Forces/*.cpp", "rigidbody2d/*Force.cpp", "rigidbody3d/Forces/*.cpp", "ball2d/Ball2DSim.cpp", "rigidbody2d/RigidBody2DSim.cpp", "rigidbody3d/RigidBody3DSim.cpp"],
     [("computeForce / computePotential", "force classes"), ("total force, energies, momenta", "*Sim.cpp, *State.cpp")],
     "abstract interpretation to polynomial normal forms; potentials differentiated symbolically and compared with the force increments per loop body and branch region", "proof",
     "Decided in exact arithmetic for generic bodies and pairs; measure-zero region boundaries are excluded.")

prop("P09", "Every integrator advances bodies by its own update and keeps fixed bodies put",
     "For every state, time step and set of forces, each unconstrained integrator moves every free body by exactly the update it is named after (symplectic Euler, velocity Verlet, exponential Euler, splitting and discrete Moser-Veselov Hamiltonian maps), with forces evaluated at the configurations that scheme prescribes and orientations composed from the body's own previous orientation, inertia and momentum. A fixed or scripted body keeps its configuration, and no body's update depends on where in the list it is.",
     ["inputs", "configurations"], "all integrators of the three applications x all states, masses, inertias, time steps and patterns of fixed bodies",
     "A wrong coefficient or a missed mask changes accuracy or drifts a fixed body only for particular body mixes; no test advances a system.",
     ["ball2d/VerletMap.cpp", "ball2d/SymplecticEulerMap.cpp", "rigidbody2d/VerletMap.cpp", "rigidbody2d/SymplecticEulerMap.cpp", "rigidbody3d/UnconstrainedMaps/*.cpp", "*Sim.cpp"],
     [("flow / linearInertialConfigurationUpdate", "unconstrained maps and *Sim.cpp")],
     "abstract interpretation of one step for a generic body against opaque forces; results compared with the scheme's formula as polynomials", "proof",
     "Exact arithmetic; the number of fixed-point sweeps of the implicit scheme is not bounded, only the equation it iterates is compared.")

prop("P10", "A step with contacts applies exactly the impulses the solver returned",
     "In every contact-resolving step, the solvers are given the contacts of this step with matching gradients, masses, restitution and friction coefficients and kinematic terms; the velocities handed on are the free-flight velocities plus exactly the solved normal and friction impulses applied through those same contacts, and positions advance with the velocities the method prescribes. Each contact's remembered and exported impulse is the one solved for that contact, and remembering starts from an empty memory.",
     ["inputs", "histories", "configurations"], "every contact-resolving stepping method x warm-start mode x 2D/3D x all contact sets and states",
     "A slot mix-up or a stale argument only shows with several simultaneous contacts and particular solver settings; no test runs a step.",
     ["scisim/ConstrainedMaps/GeometricImpactFrictionMap.cpp", "scisim/ConstrainedMaps/StabilizedImpactFrictionMap.cpp", "scisim/ConstrainedMaps/SymplecticEulerImpactFrictionMap.cpp", "scisim/ConstrainedMaps/ImpactMaps/ImpactMap.cpp"],
     [("flow of the contact-resolving maps", "scisim/ConstrainedMaps")],
     "abstract interpretation of each map's step against opaque solvers and contacts; arguments, stored impulses and final state compared by value numbering for a generic contact", "proof",
     "Solvers are arbitrary functions of their arguments; decided for a generic contact of a set of any size, in exact arithmetic.")

prop("P11", "A simulation step runs its phases in order, each on the current state",
     "In every stepping mode of every application, one step runs the start-of-step script, the integration, the portal handling and the end-of-step script once each in that order, each seeing the state produced by the previous phase and the step number and time step of this step. Bodies that left through a portal re-enter with the matching position and velocity change, moving portals are brought to the step's end time, and the mass matrix used afterwards is the one of the new configuration.",
     ["inputs", "histories", "schedules"], "all stepping modes of the three applications x portal configurations x all states",
     "Order and staleness faults only show with scripts, portals or rotating bodies over several steps; no test steps a simulation.",
     ["ball2d/Ball2DSim.cpp", "rigidbody2d/RigidBody2DSim.cpp", "rigidbody3d/RigidBody3DSim.cpp", "*/Portals/*.cpp"],
     [("flow overloads", "*Sim.cpp"), ("portal teleport and velocity kick", "*/Portals/*.cpp")],
     "abstract interpretation of each step function against opaque scripts and maps; event order and state arguments compared by value numbering", "proof",
     "Scripts and maps are arbitrary functions of their arguments; portals are checked for none and one generic portal.")

prop("P12", "The contact problem given to the solvers is the one the contacts define",
     "For every set of contacts, the matrices, right-hand sides, bounds, starting values and tolerances handed to a numerical solver are those the contacts, masses, velocities, restitution and friction coefficients define, with every entry at the place of its own contact and body. What a solve reports back (impulses, velocities, error, success) is what its solution implies: the impulses of the best round where rounds are compared, success only within tolerance, and body numbers restored after working on a subset of the bodies.",
     ["inputs", "configurations"], "all contact sets x all solvers and solver options x 2D and 3D",
     "The solvers' libraries are not linked into any test, and index and sign mistakes appear only with several contacts, restitution with friction, non-converging solves or bodies that are not in contact.",
     ["scisim/ConstrainedMaps/ImpactMaps/*.cpp", "scisim/ConstrainedMaps/FrictionMaps/*.cpp", "scisim/ConstrainedMaps/StaggeredProjections.cpp", "scisim/ConstrainedMaps/GRRFriction.cpp", "scisim/ConstrainedMaps/Sobogus.cpp", "scisim/ConstrainedMaps/QPTerminationOperator.cpp"],
     [("impact problem assembly", "scisim/ConstrainedMaps/ImpactMaps/ImpactOperatorUtilities.cpp"), ("friction bases and bounds", "scisim/ConstrainedMaps/FrictionMaps/FrictionOperatorUtilities.cpp"), ("alternating projections", "scisim/ConstrainedMaps/StaggeredProjections.cpp"), ("coupled problem and body renumbering", "scisim/ConstrainedMaps/Sobogus.cpp")],
     "abstract interpretation with value numbering of every solver front end; arguments of the external solver calls and returned values compared with the algebraic definition, entry by entry", "proof",
     "The external solvers are arbitrary functions of what they are given; staggered projections are followed for two rounds in every order of their errors and the tolerance. The interface to the Sobogus library itself is not analysed (its headers are absent).")

prop("P13", "No touching pair of bodies is dropped before the shape test",
     "The box built for a body encloses the body's shape at its position and orientation, boxes that touch or overlap count as overlapping, and every pair of overlapping boxes is handed on exactly once with that pair's own numbers, whatever the grid. Each detection builds a box for every body and for every image of a body in a periodic boundary, and puts every candidate pair to the shape test with its own bodies, shapes, configurations, boundaries and planes; no pass of the detection is skipped.",
     ["inputs", "configurations"], "all configurations, shapes, numbers of bodies and periodic boundaries, in 2D and 3D",
     "No test runs the collision detection; a dropped pair shows only for particular arrangements (a box spanning several cells, a body across a boundary, a pair listed in the other order).",
     ["*/SpatialGrid*.cpp", "rigidbody2d/*Geometry.cpp", "rigidbody3d/Geometry/*.cpp", "*/*Sim.cpp", "*/PlanarPortal.cpp", "*/Portals/PlanarPortal.cpp"],
     [("boxes of shapes", "rigidbody3d/Geometry"), ("grid", "rigidbody3d/SpatialGridDetector.cpp"), ("detection with periodic images", "rigidbody2d/RigidBody2DSim.cpp"), ("images of a pair", "rigidbody3d/Portals/PlanarPortal.cpp")],
     "abstract interpretation with value numbering of box functions, grid construction and every detection routine (loops summarised; shape tests cut), compared with the algebraic extremes of the shape and with the pair, image and configuration each question must be about", "proof",
     "Real arithmetic. The shape tests themselves are arbitrary functions here (see the contact property); meshes are enclosed by the extremes of their vertices.")

prop("P14", "A contact is exactly the touching of its two bodies",
     "Whenever the shape test is put a pair of round bodies, or a body and a plane, drum, cylinder or mesh, a contact is made exactly when the two shapes touch in the configuration tested, including periodic images, shearing boundaries, scripted bodies and balls swept through the step. The contact made joins those two bodies with the separating direction pointing to the first, and its relative velocity, gap and friction frame are those of the touching points with the bodies' own sizes and velocities. Combinations of shapes without a contact model are refused, never skipped.",
     ["inputs", "configurations", "scenes"], "all configurations, velocities, sizes, orderings and scripted flags; every combination of shapes the simulators accept",
     "A wrong radius, plane, configuration or order changes only particular contacts; samples of the tests never build a simulation.",
     ["ball2d/Ball2DSim.cpp", "rigidbody2d/RigidBody2DSim.cpp", "rigidbody3d/RigidBody3DSim.cpp", "ball2d/Constraints/*.cpp", "rigidbody2d/*Constraint.cpp", "rigidbody3d/Constraints/*.cpp", "scisim/CollisionDetection/CollisionDetectionUtilities.cpp"],
     [("narrow phases", "*/*Sim.cpp"), ("swept-ball test", "scisim/CollisionDetection/CollisionDetectionUtilities.cpp"), ("mesh sampling", "rigidbody3d/Constraints/MeshMeshUtilities.cpp")],
     "abstract interpretation with value numbering: each collision routine is evaluated whole for each combination of shapes, flags and images; the conditions and fields of the constraint objects built are compared with closed forms of the two bodies' geometry", "proof",
     "Real arithmetic. Contact points between two boxes, and between two staples, and mesh distance fields are inputs here (only which bodies and configuration they are asked about, and how their answer is used, is decided).")

prop("P15", "A body's mass, centre and inertia are those of its shape and density",
     "Every kind of shape reports the mass, centre of mass, principal moments and principal axes of a uniform solid of exactly the geometry it collides with (for staples, of its three bars; for a triangulated solid, of the volume inside its triangles), for every size and density. A body created by any route is stored with the position, orientation, velocity, spin, mass and moments it was given or its own shape and density define, each in its own slot.",
     ["inputs", "scenes"], "all sizes, densities, meshes and numbers of bodies",
     "The formulas hold for all sizes; a wrong factor, swapped length or slot changes only bodies with particular proportions.",
     ["rigidbody2d/*Geometry.cpp", "rigidbody3d/Geometry/*.cpp", "ball2d/Ball2DState.cpp", "rigidbody2d/RigidBody2DState.cpp", "rigidbody3d/RigidBody3DState.cpp"],
     [("shape moments", "rigidbody3d/Geometry"), ("triangle integrals", "rigidbody3d/Geometry/MomentTools.cpp"), ("state construction", "*/*State.cpp")],
     "abstract interpretation with value numbering of every mass-property routine and body-creating routine, compared with closed-form integrals of the shape (per-triangle flux forms for meshes)", "proof",
     "Real arithmetic; the eigensolver returns eigenpairs; mesh moments read from a mesh file are inputs.")

prop("P16", "A scene file is refused unless everything it must say is there and sensible",
     "Loading a scene of any application reports failure whenever a value cannot be read, a required element or attribute is missing, a choice is not one of the known names, an index names a plane, cylinder or shape that does not exist, or a restitution, friction coefficient, tolerance, iteration limit, end time or density is outside its range; it never follows an absent element or uses a value that was not set. When loading succeeds, each value of the file has gone into the quantity it is for: a body's position, velocity, mass, radius and shape, a force's or solver's own parameters, a boundary's own planes.",
     ["inputs", "scenes"], "all scene files of the three applications",
     "Each of several hundred reads can fail on its own; tests load only well-formed scenes, and no test loads a scene at all.",
     ["ball2dutils/Ball2DSceneParser.cpp", "rigidbody2dutils/RigidBody2DSceneParser.cpp", "rigidbody3dutils/RigidBody3DSceneParser.cpp"],
     [("scene loaders", "*utils/*SceneParser.cpp")],
     "disjunctive forward dataflow (failed reads, absent items, definite assignment, intervals, value provenance) over every scene loader", "proof",
     "Not-a-number values pass ordinary comparisons and are not counted as out of range; the text-to-number routines are taken to report failure correctly; element contents of referenced mesh files are not covered.")

prop("P17", "A run writes every due output once, and a failure ends it as a failure",
     "Whatever the options, a command-line run counts and simulates one step at a time, with the scene's own integrator, operators and coefficients, until the end time is reached, and stops there. At every step that is due (each k-th, including the first) it writes the current state with its step and time, and the snapshot if asked for, under the number of that output and then counts it once, so that a run resumed from a snapshot continues with the same numbers; recorded forces carry the number of the output whose state they follow. A scene or snapshot that cannot be loaded, options that contradict each other, or an output that cannot be written end the program with a failure status.",
     ["inputs", "histories", "faults"], "all combinations of options, scenes with and without contacts, due and not due steps, and failing outputs",
     "Needs particular combinations of save rate, resumption, end time and failing files; the tests run no application.",
     ["ball2dcli/ball2d_cli.cpp", "rigidbody2dcli/rigidbody2d_cli.cpp", "rigidbody3dcli/rigidbody3d_cli.cpp"],
     [("run loop", "*cli/*_cli.cpp"), ("step", "*cli/*_cli.cpp"), ("entry point", "*cli/*_cli.cpp")],
     "effect and typestate analysis by abstract interpretation of each application's drivers, per combination of options and outcomes", "proof",
     "Failures inside the simulation itself, and writes to a snapshot that fail after it was opened, are not covered; floating-point rounding of the time is as the program computes it.")

prop("P18", "A body leaving a periodic boundary re-enters at the matching place",
     "A point that passes one side of a periodic boundary comes back at the other side exactly as deep as it went out, at the tangential place shifted by the boundary's current offset and wrapped into its period, and its velocity changes by that of the side it comes back through; both sides work alike, and a body, its image and its image's velocity follow the same map. A body or box is found to touch a side exactly when some part of it reaches it, and a moving boundary's offset is its speed times the time within one period. In scenes with bounds, the run is ended exactly when some body's own extent passes a bound in some direction.",
     ["inputs", "configurations"], "all positions, planes, speeds, periods and bodies",
     "The map is piecewise over sides, periods and corners; no test places a body at a periodic boundary.",
     ["ball2d/Portals/PlanarPortal.cpp", "rigidbody2d/PlanarPortal.cpp", "rigidbody3d/Portals/PlanarPortal.cpp", "rigidbody3d/RigidBody3DSim.cpp"],
     [("portal maps", "*/PlanarPortal.cpp"), ("bounds", "rigidbody3d/RigidBody3DSim.cpp")],
     "value-numbering dataflow of every boundary function per side, normalised by the orthonormality of the planes' frames, against the definition of the periodic map", "proof",
     "A body on both sides at once is refused by the code; points exactly on a side are not distinguished; which bodies are moved and when is decided by the step property; the two tangents of a plane in three dimensions are taken as given.")

prop("P19", "Exported state and contact files say what was computed",
     "Every data set of an exported state file holds, by its name and for every element, the quantity of the simulation it names at the moment of the export: poses, velocities, masses, scripting flags, geometries with the kind and place of each body's own, and the static objects and periodic boundaries. Every data set of a contact file holds, per contact and in one common order, the two bodies (or the body and the static object it touches), the point, the normal and the force the solve computed for it, whichever solver wrote it and in two and three dimensions. Nothing of one element's record is left over from another's.",
     ["inputs", "configurations"], "all simulations, numbers of objects, contacts and friction samples",
     "The files are written only in builds with HDF5, which the tests do not make, and a wrong record is still a well formed file.",
     ["ball2d/Ball2DSim.cpp", "rigidbody2d/RigidBody2DSim.cpp", "rigidbody2d/StateOutput.cpp", "rigidbody3d/RigidBody3DSim.cpp", "rigidbody3d/StateOutput.cpp", "scisim/ConstrainedMaps/ImpactFrictionMap.cpp", "scisim/ConstrainedMaps/ImpactMaps/ImpactSolution.cpp"],
     [("exported state", "rigidbody*/StateOutput.cpp"), ("contact files", "scisim/ConstrainedMaps/ImpactFrictionMap.cpp")],
     "value-numbering dataflow of the exporting functions with the writing calls recorded: record layout, memory handed over, place and coverage of every data set against the quantity it names", "proof",
     "The library's storage of what it is handed is trusted; that each accessor returns the state it is named for is decided here only for the accessors the exporters use; the frame rate and file names of the tools are not covered.")

prop("N01", "Impact and friction solvers converge to complementarity solutions",
     "Whatever the contact configuration, the impact and friction solvers terminate with impulses that satisfy non-penetration, complementarity and the friction cone to the requested tolerance.",
     ["inputs", "configurations"], "all contact problems",
     "Depends on iteration counts and floating-point residuals.",
     ["scisim/ConstrainedMaps/ImpactMaps/*.cpp", "scisim/ConstrainedMaps/FrictionMaps/*.cpp", "scisim/ConstrainedMaps/StabilizedImpactFrictionMap.cpp"],
     [("solver iteration and termination tests", "scisim/ConstrainedMaps")],
     na="Convergence of third-party numerical solvers is a statement about runtime residuals; no sound static argument in reach bounds it.")
prop("N02", "Total energy and momentum drift stays bounded over a run",
     "Over any number of steps the reported energy and momentum of an unconstrained scene stay within the integrator's bounds.",
     ["histories"], "all step histories", "A bound over floating-point trajectories of arbitrary length.",
     ["scisim/UnconstrainedMaps", "ball2d/SymplecticEulerMap.cpp", "rigidbody3d/UnconstrainedMaps"],
     [("integrators", "*/UnconstrainedMaps")],
     na="Quantifies over accumulated floating-point values along trajectories; only the per-step update formula is decidable statically (see the integrator property).")
prop("N03", "Contact manifolds of two boxes, two staples and mesh distance fields are exact",
     "For every pose of two boxes, two staples or a point and a meshed solid, the touching points and the direction found are those of the overlapping region of the two shapes.",
     ["inputs", "configurations"], "all poses", "Geometric exactness for every real configuration.",
     ["rigidbody2d/BoxBoxTools.cpp", "rigidbody3d/Constraints/BoxBoxUtilities.cpp", "rigidbody3d/Constraints/StapleStapleUtilities.cpp", "rigidbody3d/Geometry/RigidBodyTriangleMesh.cpp"],
     [("box-box manifold", "rigidbody3d/Constraints/BoxBoxUtilities.cpp")],
     na="Clipping code with tolerances, data-dependent loops and sampled distance fields: a static rule cannot decide exactness without bounding the runtime values (what is decidable about detection, the boxes, pairs, images and closed-form contacts, is claimed in the two collision properties).")

prop("P01", "Constraint impulses on a body pair are equal and opposite",
 "Every impulse or positional correction that a contact or joint applies to one body of a pair is matched by the opposite one on the other body: the pair's linear momentum, and its angular momentum about a common point, are unchanged by warm starting, velocity solving and position correction. This holds for every joint kind, every limit and motor, contact penetration, split impulses, friction and twist friction.",
 "inputs histories configurations", "all masses, inertias, poses, velocities, limits, motors, iteration counts and island compositions",
 "The solver tests build no joint at all and only check a handful of poses; a sign or lever-arm error in one solver row shows only as a slow drift of momentum for particular geometries.",
 S + "ContactSolverSystem.cpp " + SOLV,
 [("paired velocity updates of body 1 and body 2", S + "ContactSolverSystem.cpp:warmStart/solve"), ("paired updates per joint row", S + "Solve*JointSystem.cpp:warmstart/solveVelocityConstraint/solvePositionConstraint")],
 ["RigidBody::getLinearVelocity", "RigidBody::getAngularVelocity"])
prop("P02", "Constraints and integration never move immobile bodies or locked axes",
 "Whatever contacts, joints, forces or gravity act, the engine changes the velocity of a body only through that body's own inverse mass or inverse inertia and its own axis lock factors; a body that is static or kinematic, or an axis that is locked, therefore never gains velocity or positional correction from them. No constraint mixes up the mass data of the two bodies.",
 "inputs configurations histories", "all bodies, body types, lock factors, joints and contacts",
 "Tests never combine locked axes with joints or contacts and sample few body types; mixing the two bodies' mass data is invisible when they are equal.",
 S + "ContactSolverSystem.cpp " + S + "DynamicsSystem.cpp src/body/RigidBody.cpp " + SOLV,
 [("lock factor and inverse mass multiply every velocity update", S), ("zeroed mass data on type change", "src/body/RigidBody.cpp:setType")], ["RigidBody::getTransform", "RigidBody::getLinearVelocity"])
prop("P03", "Warm starting replays exactly the impulse accumulated before",
 "At the start of a step a constraint applies to its bodies exactly the impulse it accumulated in the previous step, mapped along the same directions the velocity solver uses, once per row; with warm starting off it starts from zero. No other per-step constraint data computed in an earlier step is used before it is recomputed.",
 "histories inputs configurations", "all step sequences, joint and contact configurations, warm starting on or off",
 "A wrong or doubled warm start is corrected by the iterations in small scenes, so position-level tests pass; only the history-dependent bias differs.",
 S + "ContactSolverSystem.cpp " + SOLV + " " + I + "components/JointComponents.h",
 [("warm start of contacts", S + "ContactSolverSystem.cpp:warmStart"), ("warm start of joints", S + "Solve*JointSystem.cpp:warmstart"), ("impulses stored back", S + "ContactSolverSystem.cpp:storeImpulses")], ["RigidBody::getLinearVelocity", "Joint reaction forces"])
prop("P04", "Contacts push only, friction is bounded, limits and motors respect bounds",
 "The accumulated penetration impulse of a contact and the accumulated impulse of a joint limit never act in the pulling direction; the accumulated friction impulses never exceed the friction coefficient times the accumulated normal impulse; a motor's accumulated impulse never exceeds its maximum force or torque times the time step.",
 "inputs histories", "all contacts, materials, joints with limits or motors, over all iterations",
 "Bounds are violated only for specific approach velocities and iteration orders that the tests do not sample.",
 S + "ContactSolverSystem.cpp " + S + "SolveHingeJointSystem.cpp " + S + "SolveSliderJointSystem.cpp " + S + "SolveBallAndSocketJointSystem.cpp",
 [("accumulated impulse clamping", S + "ContactSolverSystem.cpp:solve"), ("limit and motor clamping", S + "Solve*JointSystem.cpp:solveVelocityConstraint")], ["RigidBody::getLinearVelocity"])
prop("P05", "Every enabled joint is solved in every phase, whatever the other joints do",
 "In every step each enabled joint of each of the four kinds is initialised, warm started, velocity solved the configured number of iterations and position corrected; the outcome of one joint (its limits, its correction technique, a degenerate configuration) never makes the solver skip another joint.",
 "inputs configurations histories", "any number and mix of joints, any order of creation",
 "No existing test builds a world with joints at all.", S + "ConstraintSolverSystem.cpp " + SOLV + " src/engine/PhysicsWorld.cpp",
 [("phase dispatch over the four joint systems", S + "ConstraintSolverSystem.cpp"), ("per-joint loops", S + "Solve*JointSystem.cpp")], ["HingeJoint::getAngle", "SliderJoint::getTranslation"])
prop("P06", "Every per-object attribute follows its object through all table operations",
 "The attributes of a body, collider or joint (for example its mass, velocities, material, anchor or limit) stay those of that object whatever other objects are created, destroyed, put to sleep, woken, disabled or enabled, and whenever the storage grows; a new object starts with defined values for all of its attributes.",
 "histories inputs", "all sequences of create / destroy / sleep / wake / enable / disable over any number of objects",
 "The attributes live in parallel arrays; one array forgotten in one of the five table operations mixes up objects only after a particular create/destroy/sleep history, which tests do not produce.",
 "src/components " + I + "components", [("column operations add, move, swap, destroy, reallocate", "src/components/*.cpp")], ["every getter of RigidBody, Collider and Joint"])
prop("P07", "Sleeping and inactive objects are skipped by the step, active ones are not",
 "A step changes the pose and velocity only of bodies that are awake and active, and of all of those; putting a body to sleep, waking it, deactivating or activating it moves all of its per-object records (body, rigid body, transform, colliders and overlapping pairs) to the matching side; a joint takes part in a step unless one of its bodies is inactive or both are asleep or static.",
 "histories configurations", "all sequences of sleep / wake / activate / deactivate and all joint graphs",
 "Tests step only a few awake bodies; a record left on the wrong side is only noticed in later steps.",
 "src/body/RigidBody.cpp src/body/Body.cpp src/engine/PhysicsWorld.cpp " + S + "DynamicsSystem.cpp",
 [("setBodyDisabled, setJointDisabled", "src/engine/PhysicsWorld.cpp"), ("loops over enabled rows", S + "DynamicsSystem.cpp")], ["RigidBody::isSleeping", "Body::isActive", "RigidBody::getTransform"])
prop("P08", "Every allocation is returned once to its own allocator with its own size",
 "Every object the library creates in allocated memory gets a block of its own size, and that block is given back exactly once, to the allocator it came from, with the size it was allocated with, after the object has been destroyed exactly once, and the object is not used afterwards. Buffers of containers, component tables, islands and meshes are released with the size and the allocator of their allocation, also when they grow, are replaced, moved or destroyed. What PhysicsCommon creates (worlds, shapes, meshes, height fields, loggers) is registered in the set of its class exactly as long as it exists: destroying it removes it, and destroying PhysicsCommon destroys and releases everything that is still registered, worlds before shapes and shapes before the meshes they use.",
 "histories programs", "all create / destroy sequences of worlds, bodies, colliders, shapes, meshes and joints, all buffer growths, and any user allocator",
 "Mismatched size or allocator corrupts pool free lists silently; tests use the default allocators and never count blocks.",
 "src/engine/PhysicsCommon.cpp src/engine/PhysicsWorld.cpp src/body src/memory src/components " + I + "containers",
 [("allocate/release pairs", "src/engine/PhysicsCommon.cpp"), ("release in destroy functions", "src/engine/PhysicsWorld.cpp")], ["MemoryAllocator::allocate/release seen by a user allocator"])
prop("P09", "Destroying an object removes every reference to it",
 "Destroying a rigid body, a joint or a collider takes out everything that creating it entered, whatever the state of the object (active or not, asleep or not, overlapping or not): its row in every component table, its entity, the body in the world's list, the joint in the joint lists of both its bodies and its no-collision pair (unless another joint of the same bodies needs it), the collider in the collider list of its body and of its shape, in the broad-phase tree, in the set of moved shapes, in the map from broad-phase ids, all its overlapping pairs (in both colliders' lists, the pair tables and their indexes) and its lost contacts not yet reported. A destroyed body first loses all its colliders and all its joints; a destroyed world destroys all its bodies. No row is used after it was removed and no object after its destructor; each is destroyed and its memory given back exactly once. Destroying a joint wakes both bodies, and if the joint forbade their collision they are looked up in the broad phase again. The index of a destroyed entity is queued for reuse with a new generation.",
 "histories", "all orders of creation and destruction, with or without steps between them, with sleeping and inactive objects",
 "Dangling references show only when the destroyed object was involved in contacts, joints or pairs at that time; tests destroy few objects.",
 "src/engine/PhysicsWorld.cpp src/body src/collision/Collider.cpp src/engine/EntityManager.cpp src/engine/OverlappingPairs.cpp " + S + "CollisionDetectionSystem.cpp " + S + "BroadPhaseSystem.cpp",
 [("destroyRigidBody, destroyJoint", "src/engine/PhysicsWorld.cpp"), ("removeCollider", "src/body/Body.cpp"), ("removeCollider", S + "CollisionDetectionSystem.cpp"), ("destroyEntity", "src/engine/EntityManager.cpp")], ["PhysicsWorld::getNbRigidBodies", "EventListener", "ray casts and overlap tests after a destruction"])
prop("P10", "Queries do not change the simulation",
 "Asking the world or a body a question (overlap and collision tests, ray casts, point tests, bounding boxes, every read-only accessor) changes no pose, velocity, force, sleeping state, joint, contact, event or setting: the simulation continues exactly as if the question had not been asked. Only caches and scratch memory may be touched.",
 "histories inputs programs", "any query at any point between steps, with any callback",
 "Tests compare query results, not the state before and after; there are dozens of queries and hundreds of state fields.",
 "src/engine/PhysicsWorld.cpp " + S + "CollisionDetectionSystem.cpp src/body src/collision src/constraint",
 [("const accessors", I), ("snapshot collision tests", S + "CollisionDetectionSystem.cpp:testOverlap/testCollision")], ["every getter after a query"])
prop("P11", "Assertions and build type do not change behaviour",
 "Compiling assertions in or out changes nothing but the aborts: no assertion condition changes a value, and code compiled only in one of the two build types computes only values used by assertions.",
 "configurations inputs", "all functions of the library, debug and release builds",
 "The tests run one build type; an effect inside an assertion disappears only in the other one.",
 "src " + I, [("assert statements", "src/**/*.cpp")], ["any observable in a release build"])
prop("P12", "Profiling, logging, debug drawing and listeners only observe",
 "Installing or removing a profiler, a logger, an event listener or debug rendering, and building with profiling compiled in, changes no simulation result; the code that notifies them writes nothing but their own data.",
 "configurations histories", "all combinations of observers, and the profiling build",
 "No test compares two runs with and without an observer.", "src/utils src/engine/PhysicsWorld.cpp " + S,
 [("null checks around observers", "src/engine/PhysicsWorld.cpp"), ("RP3D_PROFILE, RP3D_LOG", I + "utils")], ["RigidBody::getTransform"])
prop("P13", "The simulation is deterministic",
 "The result of a step is a function of the world's contents and inputs: the library takes no decision from clocks, random numbers, thread identity, addresses or the iteration order of address-keyed tables, and every field of every object it creates is initialised before use.",
 "programs histories schedules", "all runs of the same program",
 "One run cannot show nondeterminism; address layouts and clocks vary only between runs.", "src " + I,
 [("no nondeterministic source is called", "src"), ("constructors initialise every field", I)], ["RigidBody::getTransform"])
prop("P14", "Worlds are isolated from each other",
 "Two worlds share no mutable state beyond the allocators and the factory that created them: stepping, changing or destroying one world has no effect on another, and worlds built from different factories may be used from different threads: no mutable variable with static lifetime is shared, allocators change their state only under their lock, no world writes a shape or mesh it shares, and no memory of one step is used in the next.",
 "schedules programs", "any number of worlds and factories, any interleaving of their use",
 "Tests use one world at a time, in one thread.", "src/engine src/memory " + I,
 [("all state hangs off the world or the factory", I + "engine"), ("allocator locks", "src/memory")], ["RigidBody::getTransform"],
 )
prop("P15", "The double precision build computes in double precision",
 "In the double precision build no real value that flows into the simulation or a query result is rounded through single precision, and in both builds sizes, capacities, counts and indices are computed and kept in integers wide enough for their values.",
 "configurations inputs", "all functions and inputs in the double precision build",
 "Tests use tolerances far above single precision error and small containers.", "src " + I,
 [("decimal type", I + "decimal.h")], ["any value in the double build"])
prop("P16", "A step runs its phases in order, on data of this step",
 "Each step detects collisions, builds islands, integrates velocities, solves constraints, integrates positions, corrects positions, publishes poses, sleeps idle bodies and clears the user's forces, each phase consuming the results of the previous one from the same step; the user's forces and torques act in exactly one step on every body, and gravity, damping and the time step enter as documented.",
 "histories configurations", "all worlds with sleeping, gravity, iteration counts and step lengths",
 "Reordered or skipped phases change results by one step's worth, inside the tolerance of tests.", "src/engine/PhysicsWorld.cpp " + S + "DynamicsSystem.cpp",
 [("PhysicsWorld::update", "src/engine/PhysicsWorld.cpp"), ("velocity and position integration", S + "DynamicsSystem.cpp")], ["RigidBody::getTransform", "RigidBody::getForce"])
prop("P17", "Collision filtering is obeyed by contacts, events and queries",
 "Two colliders become a pair only if they belong to different bodies, each one's category is accepted by the other's mask, the two bodies are not excluded by a joint that disables collision between them, and at least one of the shapes is convex; a pair whose masks do not accept each other any more is removed when its colliders are examined again, and excluding two bodies removes their pairs at once. A step tests every pair exactly if both colliders are simulation colliders or triggers and at least one of the two bodies is awake and active; the overlap and collision queries of the world test every pair they are asked about (all pairs, those of a body in either role, those between two bodies in either order; convex or concave) exactly if both colliders are world query colliders. Contact points are computed for a pair only if contacts are wanted and neither collider is a trigger, so triggers report events and never push. A world ray cast meets exactly the world query colliders whose category is in the mask of the ray. What is tested of a pair are the shapes and transforms of its own two colliders, in their order.",
 "inputs configurations histories", "all masks, categories, flags, body states, joints and query kinds",
 "The filters are evaluated at several places for each path (step, world queries, body queries, rays; convex and concave pairs); tests sample a few.",
 S + "CollisionDetectionSystem.cpp " + S + "BroadPhaseSystem.cpp src/collision/narrowphase src/engine/PhysicsWorld.cpp",
 [("pair creation filter", S + "CollisionDetectionSystem.cpp:updateOverlappingPairs"), ("middle phase filter", S + "CollisionDetectionSystem.cpp:computeMiddlePhase, computeMiddlePhaseCollisionSnapshot, filterOverlappingPairs"), ("ray filter", S + "BroadPhaseSystem.cpp:raycastBroadPhaseShape")], ["EventListener", "OverlapCallback", "RaycastCallback"])
prop("P18", "Every pair of shape types is handled by every collision stage",
 "For every unordered pair of shape types there is a narrow-phase algorithm for exactly those types, and every kind of pair reaches it whichever shape comes first and whether or not one of them is concave. Each stage (reserving and clearing the tests, testing, processing the contacts found, collecting the overlaps of a query) deals with the tests of every algorithm exactly once: all tests of all six batches are made, each by its own algorithm, none is dropped. The stage says that something collides exactly if one of its tests does, a test that collides is the one marked, and a query tells its callback exactly when something was found and about each overlapping pair once, with the pair's own colliders, bodies and trigger state. Results are in the caller's order: for an algorithm that takes its two shapes in either order, exchanging the shapes yields the same contacts with the two local points exchanged and the normal reversed, which always goes from the first shape to the second.",
 "inputs", "all pairs of shape types in both orders, in steps and all queries",
 "Tests cover each algorithm alone, not each stage with each algorithm, nor the degenerate branches in both orders.", S + "CollisionDetectionSystem.cpp src/collision/narrowphase",
 [("CollisionDispatch", "src/collision/narrowphase/CollisionDispatch.cpp"), ("six narrow-phase batches", "src/collision/narrowphase/NarrowPhaseInput.cpp"), ("algorithms", "src/collision/narrowphase")], ["OverlapCallback", "CollisionCallback"])
prop("P19", "The bookkeeping of overlapping pairs is consistent",
 "An overlapping pair of colliders is recorded exactly once: in one of the four pair tables (convex or concave, enabled or disabled), in the index of that table under its id and at its position, and in the list of each of its two colliders. Adding a pair enters all of these, with its own colliders and broad-phase ids; removing it takes it out of all of them and leaves every other pair findable; enabling or disabling it moves it to the other table and keeps its identity, its colliders and what is known about its contact in the current and previous frame. A pair can be looked up, and asked to be tested for overlap, whichever table it is in. When a collider has moved all its pairs are tested, those whose shapes no longer overlap are removed and no other; when a pair that was colliding in the previous frame is removed because its shapes moved apart or may no longer collide, its lost contact is recorded before the pair is gone, and never for a pair that was not colliding; a destroyed collider leaves neither pairs nor lost contacts behind.",
 "histories", "all sequences of motion, creation, destruction, sleep and wake-up",
 "Inconsistencies need pairs to be swapped or moved between the enabled and disabled sides while others exist.", "src/engine/OverlappingPairs.cpp " + I + "engine/OverlappingPairs.h " + S + "CollisionDetectionSystem.cpp",
 [("addPair, removePair, enablePair, disablePair", "src/engine/OverlappingPairs.cpp"), ("departure of a pair", S + "CollisionDetectionSystem.cpp:removeNonOverlappingPairs")], ["EventListener"])
prop("P20", "What a setter stores is what the getter returns",
 "After a value is set on a world, body, collider, shape, material, joint or debug renderer, the matching getter returns that value until it is set again or the engine recomputes it, for each instance independently; setting one attribute leaves the unrelated user-visible attributes of this and every other object alone. World settings, joint descriptions and constructor arguments reach the attributes they name.",
 "inputs histories", "all attributes of all user-facing classes, all valid values",
 "There are more than a hundred attributes; tests set a few of them once.", "src/body src/engine src/collision src/constraint " + I,
 [("setter and getter pairs", I)], ["each getter"])
prop("P21", "Operations act only on the body types meant and wake sleeping bodies",
 "Applying a force or torque adds exactly that force (and its moment about the centre of mass) to a dynamic body and wakes it, and has no effect on any other body; setting a velocity never affects a static body and wakes a sleeping one when the velocity is not zero; moving a body or one of its colliders, activating it, changing its type or forbidding it to sleep wakes it; changing a joint's limits or motor, or destroying the joint, wakes both its bodies; removing a collider wakes the sleeping bodies it touched; disabling sleeping wakes every body; a static body is never put to sleep, an inactive one never woken, and a body put to sleep keeps no velocity or force.",
 "histories inputs", "all operations on bodies of every type, awake or asleep",
 "Tests apply forces to awake dynamic bodies only.", "src/body/RigidBody.cpp src/constraint",
 [("type gates and setIsSleeping(false)", "src/body/RigidBody.cpp"), ("awakeBodies", "src/constraint")], ["RigidBody::isSleeping", "RigidBody::getForce"])
prop("P22", "Invalid mesh input is refused without leak or side effect",
 "Creating a triangle mesh, convex mesh or height field from invalid data returns null, registers nothing, and destroys and releases everything allocated on the way; valid data gives exactly one registered object. Data is refused exactly where an error message is added to the caller's list, and once found invalid it stays refused. Refused are: fewer than two rows or columns of a height field; a triangle mesh with a vertex index out of range, a too short vertex normal or no triangle left after those without area or edge length are dropped; a convex mesh with no vertices, a face of less than three vertices, an index out of range, an edge used twice in one direction or by one face only, a face without area, or counts that violate Euler's formula; a convex hull of less than four or too close points. Structures that need a valid mesh (half edges, normals, volume, final hull) are computed only after it was accepted.",
 "inputs fault_sequences", "all vertex, index and face arrays", "Tests feed only valid meshes and a few degenerate ones.", "src/engine/PhysicsCommon.cpp src/collision src/utils/quickhull",
 [("error paths of the factories", "src/engine/PhysicsCommon.cpp"), ("validation of convex meshes", "src/collision/ConvexMesh.cpp"), ("validation of triangle meshes", "src/collision/TriangleMesh.cpp"), ("validation of hulls", "src/utils/quickhull/QuickHull.cpp")], ["PhysicsCommon::createConvexMesh return value"])
prop("P23", "Containers keep their contents through every operation",
 "The containers behave as their abstract sequence, set or map under every sequence of operations: elements are constructed and destroyed exactly once, growing preserves them, clearing leaves an empty usable container, and an element of the container itself may be passed as argument.",
 "histories inputs", "all operation sequences and element types", "Unit tests sample short sequences with plain elements.", I + "containers",
 [("Array, Deque, Stack, Map, Set, LinkedList", I + "containers")], ["container contents"])
prop("P24", "Persistent contacts keep their identity and impulses across steps",
 "A contact point whose collider pair (same pair id) had contacts in the previous step starts with the penetration impulse and the resting flag of the first previous point of that pair lying within the persistent-contact distance threshold (compared on the first shape's local position); a contact manifold starts with the friction vectors and friction and twist impulses of the first previous manifold of that pair whose (first point's) normal is similar to its own (first point's) normal; every other point or manifold starts with zero. What the solver ends a step with is what is remembered. Previous and current pairs, manifolds and points are exchanged together, exactly once per step, the previous ones are emptied after use and the map from pair ids is rebuilt from the current pairs. Each potential manifold and point of a pair that is left after reduction becomes exactly one manifold or point, stored contiguously in the range its pair or manifold records. Points found by the narrow phase join a manifold of their own pair only (for meshes the first one with a similar normal and room left), and reduction only removes: whole manifolds by smallest depth beyond the maximum number, duplicated points, and points beyond four.",
 "histories", "all contact histories", "Only visible as jitter or slow drift.", S + "CollisionDetectionSystem.cpp " + S + "ContactSolverSystem.cpp",
 [("initContactsWithPreviousOnes", S + "CollisionDetectionSystem.cpp"), ("storeImpulses", S + "ContactSolverSystem.cpp")], ["RigidBody::getLinearVelocity"])
prop("P25", "Contact and trigger events start once, stay, and exit once",
 "In every step each pair of colliders that the narrow phase finds in contact is listed exactly once, naming its own colliders and bodies in the pair's order, and is told to the world's listener exactly once: as a start if the pair was not in contact at the end of the previous step, as a stay if it was. A pair that was in contact and no longer is, or that is removed while in contact (its AABBs part, its filter changes, collision between its bodies is switched off), is told once as an exit, in the step that notices it; destroying a collider ends its pairs without an event and forgets its exits not told yet. A pair of which a collider is a trigger is told through onTrigger only, any other through onContact only. What a pair remembers of the previous step, and the list of exits, advance exactly once per step, after the telling, with or without a listener. The number, order and content of the events a callback reads are those listed, and the contact points it reads are those of the pair, as the narrow phase found them.",
 "histories", "all contact histories with destruction and deactivation", "Tests cover no event sequence with destruction.", S + "CollisionDetectionSystem.cpp src/collision",
 [("event classification", "src/collision/CollisionCallback.cpp, OverlapCallback.cpp"), ("reportContactsAndTriggers", S + "CollisionDetectionSystem.cpp")], ["EventListener::onContact", "EventListener::onTrigger"])
prop("P26", "Bodies that interact are solved, woken and put to sleep together",
 "Bodies linked by contacts or joints through non-static bodies form one island; each awake body belongs to exactly one island, each contact to exactly one, static bodies do not merge islands, and an island sleeps only if all of its bodies have been idle long enough and sleeping is allowed.",
 "inputs histories", "all contact and joint graphs", "Tests build no islands with joints.", "src/engine/PhysicsWorld.cpp " + I + "engine/Islands.h",
 [("createIslands", "src/engine/PhysicsWorld.cpp"), ("updateSleepingBodies", "src/engine/PhysicsWorld.cpp")], ["RigidBody::isSleeping"])
prop("P27", "The velocity error a constraint corrects is the one its impulse acts on",
 "Each solver row measures the relative velocity along the same direction and lever arms along which it applies its impulse, with the sign that makes the impulse reduce the error: a motor drives the bodies towards its target speed, a limit pushes away from its bound, friction opposes sliding and a joint row removes its own error.",
 "inputs configurations", "all joints, limits, motors and contacts in any configuration", "A sign or axis error in a motor or limit needs a joint test; none exists.", S + "ContactSolverSystem.cpp " + SOLV,
 [("Jv and impulse application per row", S + "Solve*JointSystem.cpp:solveVelocityConstraint")], ["HingeJoint::getAngle", "RigidBody::getAngularVelocity"])
prop("P30", "Energy of an undriven scene does not grow",
 "Without motors, forces or restitution above one the total energy of a scene does not grow beyond numerical tolerance.", "inputs histories", "all scenes", "Quantifies over trajectories.", S, [("solver", S)])
prop("P31", "Narrow-phase results agree with the exact geometry",
 "Two shapes are reported as touching exactly when they intersect, and contact normals, depths and points describe the true separation within tolerance.", "inputs", "all shapes and poses", "Infinite geometric input space.", "src/collision/narrowphase", [("GJK, SAT", "src/collision/narrowphase")])
prop("P32", "Ray casts return the nearest true intersection",
 "The point, normal and fraction a ray cast reports are those of the first true intersection.", "inputs", "all rays and shapes", "Infinite geometric input space.", "src/collision/shapes", [("raycast", "src/collision/shapes")])
prop("P33", "The broad phase reports every overlapping pair of fat boxes",
 "After any sequence of insertions, moves and removals the tree finds all leaves whose box overlaps a given box or ray, and stays balanced.", "histories inputs", "all operation sequences", "Unbounded tree shapes.", "src/collision/broadphase/DynamicAABBTree.cpp", [("tree rotation and traversal", "src/collision/broadphase/DynamicAABBTree.cpp")])
prop("P34", "Stacks and joints converge and come to rest",
 "Resting stacks stay at rest, fall asleep, and joints stay within tolerance of their constraints.", "inputs histories", "all scenes", "Quantifies over trajectories.", S, [("solver iterations", S)])
prop("P35", "Convex hulls and mass properties are correct",
 "The hull computed from a point set contains every point and is convex; masses, centres and inertia tensors are those of the exact solids.", "inputs", "all point sets and shapes", "Infinite input space.", "src/utils/quickhull src/collision/shapes", [("quickhull", "src/utils/quickhull")])
na("P30", "an inequality over real-valued trajectories of a nonlinear iteration; no static domain in reach bounds it (P01, P03, P04 and P27 decide its algebraic ingredients)")
na("P31", "numerical correctness of GJK/EPA/SAT over all real inputs is not decidable by dataflow or typing")
na("P32", "real-valued geometric correctness over all rays and shapes; only the filter and bookkeeping of ray casts are decided (P17, P10)")
na("P33", "a shape property of a dynamically rebalanced tree with numeric box containment; needs heap-shape reasoning with arithmetic that no static analysis available here carries")
na("P34", "convergence of an iterative solver over all scenes is a dynamic, quantitative property")
na("P35", "numerical/geometric correctness over all point sets; not a property of program structure")
TRUST = " Trusts clang's AST, the extractor and the analysis code; user call-backs are outside the analysed program."
claim("P10", "interprocedural write-effect analysis over the call graph", "All public queries and accessors; every reachable write is attributed to a field and must lie in the scratch/cache set. Sound up to writes through untyped memory." + TRUST)
claim("P11", "effect analysis of assertion conditions; structural diff of the two builds' typed ASTs", "All assertions and all functions of the library in both build types." + TRUST)
claim("P06", "abstract interpretation (value numbering) of every table operation; flow analysis of row numbers", "All columns of all component tables through add, destroy, swap, move, grow, enable and disable; row numbers held over calls that may move rows, in the whole library. Element types are copied by their own copy operations, which are analysed too." + TRUST)
claim("P12", "interprocedural effect analysis of code controlled by observers; structural diff with the profiling build", "Everything the library does on behalf of a listener, logger, debug renderer or profiler." + TRUST)

claim("P01", "abstract interpretation (polynomial value numbering) of the solver phases", "All updates of velocities and constrained poses by contacts and the four joint kinds in warm starting, velocity solving and position correction; exact algebra over symbolic inputs (rounding is not modelled)." + TRUST)
claim("P02", "abstract interpretation (polynomial value numbering) of solver phases, integration and mass data updates", "All solver updates, the velocity integration and every write of an inverse mass or inertia." + TRUST)
claim("P03", "abstract interpretation (polynomial value numbering) of warm starting and velocity solving", "All accumulated impulses of contacts and the four joint kinds; exact algebra over symbolic inputs." + TRUST)
claim("P04", "abstract interpretation (polynomial value numbering) with syntactic bound derivation", "Every accumulated impulse of contacts, friction, limits and motors." + TRUST)
claim("P05", "control-flow and call-trace analysis of the solver phases", "All four joint systems in all four phases and every per-joint loop." + TRUST)
claim("P27", "abstract interpretation (polynomial value numbering) of the velocity solver rows", "Every row of contacts, limits, motors and the four joint kinds." + TRUST)
claim("P16", "ordered call trace of a step plus abstract interpretation of integration and publishing", "PhysicsWorld::update and the dynamics system; exact algebra over symbolic inputs." + TRUST)

claim("P20", "abstract interpretation (value numbering) of each setter followed by its getter", "All setter/getter pairs of the user-facing classes, the constructors and the description structures; values are symbolic, containers are kept abstract." + TRUST)
claim("P21", "abstract interpretation of each operation, evaluated over body type and sleep state; guarded call traces", "All force, torque, velocity, pose, type and sleep operations of bodies, the limit and motor setters of all joints, joint destruction and collider removal; values are symbolic." + TRUST)

claim("P07", "guarded call traces, abstract interpretation over the states of a body, who-may-write analysis of a step", "All operations that change sleep state, activity or type, for every state; the joint and pair records; every function reachable from a step." + TRUST)
claim("P15", "type and conversion analysis (custom lint over the resolved syntax tree in both precisions)", "Every declaration, conversion, literal and loop bound of the library in the single and double precision programs; 64 to 32 bit conversions of object counts are accepted (the documented limit), 8 and 16 bit ones and those through float must be bounded.")

claim("P13", "query for nondeterminism sources, definite-assignment dataflow over constructors and locals", "All functions in the single precision and profiling builds; addresses used as keys, ordered or converted; fields read anywhere must be assigned on construction or before every read." + TRUST)
claim("P14", "static-storage and write-effect analysis, lock dominance, typestate of frame memory", "All variables of static lifetime, all allocator methods, every entry point of a world, every container in frame memory." + TRUST)
claim("P26", "abstract interpretation of the island search and the sleep decision, evaluated over all state classes; loop coverage", "createIslands, updateSleepingBodies, the recording of contacts with bodies, and the packing of manifolds by island." + TRUST)
claim("P19", "abstract interpretation of the pair tables' operations with evaluation on all small tables; guarded call traces of every removal", "All functions of OverlappingPairs that change a table, every call site that removes a pair, and the notification of moved colliders." + TRUST)
claim("P17", "abstract interpretation of the filters, evaluated over all flag combinations and samples of masks; control-flow dominance for contact points", "The middle phases of the step and of all queries, the creation and removal of pairs, the joints' exclusions, the ray filter with the mask's way to it, and every call site that can make a contact point. Body::raycast and testPointInside, which ask about one object, are not filtered and not covered." + TRUST)

claim("P25", "abstract interpretation of detection, loss, reporting and the callback accessors, evaluated over all flag combinations and small event lists", "Each step: the contact pairs made of narrow-phase results, the lost contacts of pairs that come apart or are removed, reporting, and what an event says. That the narrow phase itself is right about contact is not part of it." + TRUST)
claim("P24", "abstract interpretation of the exchange, the transfer of impulses, the packing of manifolds and points, grouping and reduction, compared with the required values and ranges", "Each step: the exchange and clearing of the contact arrays, the transfer loops with their match conditions and first-match stops, the ranges recorded by pairs and manifolds, what the solver writes back, how narrow-phase points are grouped and which ones reduction removes. Geometric quality of the four points kept is not part of it." + TRUST)
claim("P18", "abstract interpretation of algorithm choice, routing, stages and algorithms; each order-independent algorithm is interpreted in both orders and the recorded contacts compared", "All pairs of shape types, all six batches in each of five stages, seven algorithms' loops, two query reports, five order-independent computations. That the algorithms find the geometrically right contacts is not part of it; for the conditions under which a capsule-polyhedron face contact is made, which ask for another test's normal, the two orders are not compared." + TRUST)
claim("P08", "ownership analysis by abstract interpretation of every function that allocates, releases or destroys; comparison of size formulas and allocators between allocation and release; registry of PhysicsCommon against creation, destruction and teardown", "Every placement-new and every release in the library (32 creations, 53 releases of objects, 44 buffer allocations of 24 buffers). The allocators' own free lists (PoolAllocator, HeapAllocator, SingleFrameAllocator) are trusted to serve matching requests; that containers destroy each element they hold is P23's subject." + TRUST)
claim("P22", "abstract interpretation of the creating and validating functions, evaluated for every combination of verdicts and, for the thresholds, over sample values of the compared quantities", "Four creating functions, seven validating ones, 15 places of refusal, 13 thresholds. Whether numerically awkward but accepted meshes give a good hull is not part of it." + TRUST)
claim("P09", "static analysis: abstract interpretation of creating and destroying functions, pairing of entries with removals, order of use, loops over shrinking lists", "What the pair of functions does is compared entry by entry for a symbolic object; that rows move correctly when one is removed is P06, that indices stay right in the pair tables P19 (its removal rules are run here too), that blocks have the right size P08. The contact and contact-pair arrays of the last step are not covered: they are rebuilt by the next step.")
na("P23", "What a container holds after a history of operations depends on index values stored in heap cells (bucket chains and free lists of Map and Set, the moved front of Deque, shifted elements of Array); relating them over unbounded histories needs a proof of heap invariants or an exploration of histories, which the term analysis cannot give. What static analysis can settle about containers is claimed elsewhere: blocks, sizes and element destructors under P08, thread-unsafety and purity of their queries under P10 and P14.")

"""property -> (rule module, rule text)"""
RULES = {
 "P06": ("columns", "Abstract interpretation (value numbering) of each table operation of each component table: the final content of every column of every affected row is compared with its initial content; the partition operations of the base class; flow analysis of row numbers held across calls that may move rows."),
 "P09": ("destroy", "Every entry that creating a rigid body, joint or collider makes in a component table, list, map, tree or set (found by interpreting the creating functions) has a counterpart in the destroying function on the same receiver for the same object, made whatever the state except where the object was never entered; entries are given up once, no removed row and no destroyed object is used afterwards; owned colliders, joints, bodies and overlapping pairs are destroyed by loops that reach every element of lists that shrink meanwhile; elementary lists and the entity manager undo what they did; pair removal, row removal and collision exclusions by the rules of P19, P06 and P17."),
 "P10": ("purity", "Interprocedural write-effect analysis: the fields written by any function reachable from a query or accessor (through every virtual overrider and every callback) must lie in the scratch/cache set; a query consults no event listener and never marks a pair as colliding."),
 "P12": ("purity", "Effect analysis of all code controlled by an observer (listener, logger, debug renderer, profiler): it may write observer data only; the observers' own code likewise; structural comparison with the profiling build."),
 "P11": ("purity", "Effect analysis of every assertion condition, plus a structural comparison of every function between the build with and without assertions: differences must be pure computations of locals."),
 "P01": ("solverlaws", "Abstract interpretation of the four solver phases of contacts and joints in a value-numbering domain of polynomials: the momentum given to the two bodies by each group of updates sums to zero, and so does the angular momentum about a common point."),
 "P02": ("solverlaws", "Same interpretation: each velocity or position update factors into the body's own inverse mass (inverse inertia), its own axis locks and an impulse (torque); static and kinematic bodies have zero inverse mass on every path."),
 "P03": ("rowlaws", "Same interpretation: for each accumulated impulse, the change the velocity solver applies equals the change it accumulates along the warm starting directions; impulses are replayed once, stored back and reloaded; no constraint data is computed from another step's data."),
 "P04": ("rowlaws", "Same interpretation: syntactic bound derivation (max, min, guarded assignment) for the new value of each accumulated impulse of a contact, limit or motor."),
 "P05": ("steps", "Control-flow rule: every phase calls all four joint systems; each per-joint loop covers all enabled joints and no path leaves it early."),
 "P27": ("rowlaws", "Same interpretation: the velocity error in each impulse change is the impulse's own direction applied to the velocities, with the correcting sign."),
 "P16": ("steps", "Ordered, guarded call trace of PhysicsWorld::update (helpers inlined) checked against the data dependencies between phases; abstract interpretation of the integration, publishing and clearing loops against the integration formulas and the row ranges."),
 "P20": ("attributes", "Abstract interpretation of each setter followed by its getter: the returned value is the parameter on every path not excused; the row written is the object's own; no other user-visible attribute changes; descriptions and constructor arguments reach the attribute they name."),
 "P21": ("bodyops", "Abstract interpretation of each operation on a body or joint; the final value of sleeping flag, velocity, force and torque is evaluated for every body type and sleep state; the calls that wake bodies dominate the changes that need them."),
 "P07": ("sleeping", "Guarded call traces and abstract interpretation: every record of a body or joint is moved to the side its state demands, evaluated for every type, sleep and activity state and every pair of bodies; who-may-write analysis of the call graph of a step; row ranges of the publishing loops."),
 "P15": ("lints", "Type and conversion rule over every declaration and every implicit or explicit conversion of the resolved syntax tree, in the single and the double precision build: no single precision object or rounding in the double build, no size or capacity computed through a float, no index, count or identifier cut to fewer bits than its range needs."),
 "P13": ("shared", "Query over the resolved program: calls and objects that introduce clocks, randomness or threads, order comparisons of addresses, integers computed from addresses, visits of address-keyed tables; definite-assignment analysis (forward must-analysis over the control-flow graph) of every scalar field in every constructor, of every local, and of what a constructor leaves open at each creation site."),
 "P14": ("shared", "Static-storage writers found by effect analysis (constant, atomic, or written by an initialiser only); interprocedural write effects of every entry point of a world contain nothing the worlds share; typestate analysis of the containers that use the frame memory (released on every path before the reset); lock dominance in the allocators."),
 "P26": ("islands", "Abstract interpretation of the island search (helpers inlined): the conditions under which a body starts, joins, wakes and spreads an island are evaluated for every body type, mark and collider state; of the sleep decision for every velocity, permission and idle time class; loop coverage of the consumers of the islands."),
 "P19": ("pairs", "Abstract interpretation of every function that adds, removes, enables or disables an overlapping pair, its effect replayed on all small tables (position of the pair, size of the table, list flag): table, index and the lists of both colliders stay consistent; guarded traces of every departure of a pair: its lost contact is recorded exactly when it was colliding; lookup and flagging reach all four tables."),
 "P17": ("filtering", "Abstract interpretation of every filter (helpers inlined): the condition under which a pair is made, removed, tested or asked for contacts, and under which a ray meets a shape, is evaluated for every combination of flags, body states and exclusions and for sample masks and compared with the specified one; the lists and sides handed on are traced; every call site that can make a contact point is dominated by the test of the pair's contact flag (control-flow graph, interprocedural)."),
 "P25": ("events", "Abstract interpretation of the path from the narrow phase to the listener: what a contact pair records, how often and under which evaluated conditions one is listed, marked, lost, told, remembered and forgotten; the accessors of the callback data are evaluated for all small lists of events."),
 "P18": ("stages", "Abstract interpretation of the choice of algorithm for every pair of shape types, of the routing of a test to its batch, of each stage over the six batches, of each algorithm's loop over its tests with the result evaluated for every outcome of the tests, and of each algorithm that takes its shapes in either order, interpreted in both orders: the recorded contacts are equal with the points exchanged and the normal reversed."),
 "P24": ("persist", "Abstract interpretation of the life of a contact (helpers inlined): the exchange of previous and current contacts replayed from the initial state; what a contact takes over, from which candidates, in which order, under which evaluated closeness; the ranges pairs and manifolds record against the loops that fill them; what is forgotten and kept when a step ends; constructors; grouping and reduction evaluated for small and full lists."),
 "P08": ("memory", "Ownership analysis by abstract interpretation of every function that trades with an allocator: block size against object size, allocator kind and object, destruction before release, single release, no use after release; size formulas of growing buffers followed through constructors, growth, release and destructor; the registry of PhysicsCommon against creation, destruction and teardown."),
 "P22": ("memory", "Abstract interpretation of the creating functions for every combination of verdicts of their validating parts (returned object, registration, blocks, destructions), of each validating function (refusal and error report under the same condition, verdict never restored, conjunction of the parts), and evaluation of its thresholds."),
}

#!/usr/bin/env python3
# Single source of /verif/properties.jsonl (python3 tools/mkprops.py rewrites it).
import json, os
P=[]
B='include/fcl/broadphase/'; D=B+'detail/'; N='include/fcl/narrowphase/'
def p(id,title,st,over,qt,why,files,mech,state=None,obs=None,hook=None):
    assert len(title)<=80,(id,len(title))
    a=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech])
    if state: a['state']=[dict(name=n,meaning=m,where=w) for n,m,w in state]
    if obs: a['observe_at']=obs
    a['hook_needed']=hook
    P.append(dict(id=id,title=title,statement=st,quantifier=dict(over=over,text=qt),why_tests_cant=why,anchors=a))

MAN=[B+'broadphase_%s-inl.h'%m for m in ('bruteforce','SSaP','SaP','interval_tree','spatialhash','dynamic_AABB_tree','dynamic_AABB_tree_array')]
p('C01','Broad-phase collision queries miss no overlapping pair, whatever the history',
 'At every moment of any history of registering, batch-registering, unregistering, moving, rotating, updating (all objects, one object, or a list), setting up and clearing, a collision query on any broad-phase manager (among its own objects, for one query object, or against another manager of the same kind) offers the callback every pair whose current axis-aligned bounds overlap, provided the manager was told of the moves. In a query among its own objects no pair is offered twice and no object is paired with itself.',
 ['histories','inputs','configurations'],'all seven manager kinds (hash manager on dense and sparse tables) and their tuning knobs; any interleaving of mutations and queries; objects that translate, rotate (so bounds grow and shrink), coincide, are degenerate, huge, outside the hash scene limits or share coordinates; any placement of objects in memory',
 'Existing tests register random boxes once and do at most one wholesale update before the query; they never unregister, never use the single-object or list updates between queries, never mix them, and see only one heap layout.',
 MAN,[('tree insert/remove/update/rebalance',D+'hierarchy_tree-inl.h'),('endpoint lists and overlap pair set kept by incremental swaps',B+'broadphase_SaP-inl.h'),('per-axis interval trees rebuilt or patched on update',B+'broadphase_interval_tree-inl.h'),('hash cells keyed by last inserted bounds',B+'broadphase_spatialhash-inl.h')],
 obs=['pairs handed to the collision callback'])
p('C02','Broad-phase distance queries find the closest pair, whatever the history',
 'At every moment of any history of registrations, removals, moves and updates, a distance query on any broad-phase manager (among its own objects, for one query object, or against another manager of the same kind) offers the callback a pair attaining the smallest distance among all candidate pairs, so that the smallest distance the callback has returned equals the brute-force minimum. The query always terminates, even when there are zero, one or two objects or no pair can improve the bound.',
 ['histories','inputs','configurations'],'all seven manager kinds and knobs; any interleaving of mutations and queries; overlapping, degenerate, far-apart and out-of-scene objects; callbacks that compute exact bounds distance',
 'Existing tests query freshly registered random environments of many objects only: never after removals or incremental updates, never with zero or one object, never with degenerate bounds.',
 MAN,[('branch-and-bound on tree node distance',B+'broadphase_dynamic_AABB_tree-inl.h'),('window enlargement loop and re-query',B+'broadphase_SSaP-inl.h'),('pair-seen set',B+'broadphase_collision_manager-inl.h')],obs=['distance callback arguments and returned bound','number of steps taken'])
p('C03','Broad-phase managers hold exactly the registered objects and let go of removed',
 'After any history of registering, unregistering and clearing, the size, emptiness and object list a broad-phase manager reports equal the set of currently registered objects. Once an object has been unregistered or the manager cleared, the manager never again hands it to a callback nor touches it, even if it had been moved without an update just before removal, so the caller may destroy it at once; destroying the manager releases everything it allocated.',
 ['histories','configurations'],'all seven manager kinds; histories biased to remove, re-register, clear, refill and to move objects before removing them; removed objects are destroyed immediately and their memory poisoned',
 'No existing test unregisters an object or clears a manager and then queries it; none destroys an object while the manager lives.',
 MAN,[('unregister lookup by current or stored bounds',B+'broadphase_interval_tree-inl.h'),('objects outside the scene limits kept in side lists',B+'broadphase_spatialhash-inl.h'),('node table',B+'broadphase_dynamic_AABB_tree-inl.h')],obs=['size, emptiness, object list','callback arguments','heap'])
p('C04','Cancelled or throwing callbacks stop a query and leave the manager intact',
 'When a callback asks to stop or throws during any broad-phase collision or distance query, the manager makes no further callback in that query and an exception reaches the caller unchanged. In either case the manager and its objects are exactly as before, so that the same or any later query gives the same answer as if the interrupted one had never been made.',
 ['fault_sequences','histories'],'all seven manager kinds, all query forms; cancellation and exception at the k-th callback for every k; followed by further queries and mutations',
 'Existing tests cancel only through the exhaustive-search flag and never check that callbacks cease; none throws from a callback.',
 MAN,[('callback return value propagated through each recursion','every collide/distance helper of the managers'),('temporary pair-seen set switched on and off around self distance queries',B+'broadphase_collision_manager-inl.h')],obs=['callback sequence','results of subsequent queries'])
p('C05','A failed allocation surfaces as an error and never corrupts or leaks',
 'If a memory allocation fails inside any operation on broad-phase managers, mesh models or collision, distance and continuous queries, the operation either succeeds or reports failure through an exception or error code. No memory is corrupted or freed twice, objects not involved keep working, a read-only query can be repeated with the right answer once memory is available, a manager whose registration or removal failed can still be updated and queried safely and lets go of the object when it is unregistered, and destroying everything afterwards returns all memory.',
 ['fault_sequences','histories'],'failure of the k-th allocation, for k swept over every allocation made by the operation, in operations drawn from registration, removal, update, clear, mesh construction/update, narrow-phase, distance and continuous queries',
 'Allocation never fails in the test suite.',
 MAN+['include/fcl/geometry/bvh/BVH_model-inl.h',N+'collision-inl.h',N+'distance-inl.h',N+'detail/collision_func_matrix-inl.h'],[('owning raw pointers released in destructors','manager clear() and destructors'),('error codes on failed growth','include/fcl/geometry/bvh/BVH_model-inl.h')],obs=['exceptions, return codes, heap state at the end'])
p('C06','Concurrent read-only queries on shared objects equal sequential ones',
 'Any number of threads may run collision, distance, penetration, continuous and broad-phase queries at the same time on the same geometries, objects and managers, as long as nobody modifies these (managers are set up and objects constructed beforehand; the motions of a continuous query belong to one thread only). Each thread gets exactly the result it would get alone, under every interleaving, including the first use of lazily created internals, and no data race occurs.',
 ['schedules','inputs'],'2 to 4 threads; interleavings at the granularity of single memory accesses chosen by a seeded scheduler; all solver types, shape/mesh/octree pairs and all eight broad-phase managers',
 'No existing test runs two threads on anything but the profiler.',
 [N+'collision-inl.h',N+'distance-inl.h',N+'continuous_collision-inl.h',N+'detail/gjk_solver_libccd-inl.h',N+'detail/gjk_solver_indep-inl.h',N+'detail/convexity_based_algorithm/gjk_libccd-inl.h']+MAN,[('lookup tables initialised once on first use',N+'collision-inl.h'),('per-query solver and traversal state on the stack',N+'detail/collision_func_matrix-inl.h'),('const query methods without mutable scratch',B+'broadphase_interval_tree-inl.h')],obs=['per-thread results','happens-before relation over all memory accesses'])
p('C07','Mesh-model construction obeys its call protocol in every call order',
 'For every sequence of begin/add/end/replace/update calls on a mesh model, each call answers with the documented success or error code for the state reached, a refused call leaves the model unchanged (except that beginning a non-empty model clears it), and after a successful end the model contains exactly the vertices and triangles that were accepted, in order, with a hierarchy whose leaves are a permutation of the triangles (or points). Its volume, centre of mass and moment of inertia are those of its current triangles. No call order reads or writes outside the model or loses memory.',
 ['histories','programs','configurations'],'all call sequences up to several dozen calls, including out-of-order, repeated, empty and oversized ones, wrong initial size hints, copies taken in any state; eight bounding-volume types; three splitting rules',
 'Existing tests build each model once in the canonical order; error codes are checked for a handful of misuses.',
 ['include/fcl/geometry/bvh/BVH_model-inl.h'],[('build-state variable consulted by each call','include/fcl/geometry/bvh/BVH_model-inl.h'),('geometric growth of vertex/triangle arrays','include/fcl/geometry/bvh/BVH_model-inl.h')],state=[('build state','empty, begun, processed, update begun, updated, replace begun','include/fcl/geometry/bvh/BVH_internal.h')],obs=['return codes','vertex/triangle arrays','hierarchy'])
p('C08','Meshes changed in place answer queries like freshly built ones',
 'After any history of replacing or updating the vertices of a mesh, whether the hierarchy was refitted bottom-up, refitted top-down or rebuilt, every node still bounds all its triangles (for updates: before and after the motion) and collision and distance queries with other meshes and with shapes give the same colliding pairs and distance as brute force over the current triangles.',
 ['histories','inputs','configurations'],'all eight bounding-volume types; replace, update and rebuild rounds interleaved with queries; refit both ways; vertices set singly, by triangle and in bulk; small to large deformations, flat and degenerate meshes',
 'Existing tests do one replace or update on a box model and check only the return codes.',
 ['include/fcl/geometry/bvh/BVH_model-inl.h','include/fcl/geometry/bvh/detail/BV_fitter-inl.h','include/fcl/geometry/bvh/detail/BV_splitter-inl.h'],[('bottom-up and top-down refit','include/fcl/geometry/bvh/BVH_model-inl.h'),('previous-vertex bookkeeping','include/fcl/geometry/bvh/BVH_model-inl.h')],obs=['node volumes','query results'])
p('C09','Collision queries resumed from a front list equal queries from scratch',
 'When successive collision queries between two meshes along any sequence of relative poses reuse the front list left by the previous query, each reports exactly the set of colliding triangle pairs that a query started from scratch reports at that pose, and the front stays a complete cut of the search tree.',
 ['histories','inputs'],'sequences of up to dozens of poses (small steps, jumps, returns, separations); bounding-volume types and splitting rules; plain and oriented traversals',
 'Existing tests compare one pose step only, and only whether any collision was found.',
 [N+'detail/traversal/traversal_recurse-inl.h',N+'detail/traversal/collision_node-inl.h','include/fcl/geometry/bvh/detail/BVH_front.h'],[('front propagation',N+'detail/traversal/traversal_recurse-inl.h')],obs=['set of colliding triangle pairs','front list contents'])
p('C10','A query depends only on its arguments, not on earlier queries',
 'The result of a collision, distance or continuous-collision query is the same whatever queries were made before it by anyone, with whatever warm-start guess was handed over from an earlier query, and no query changes the geometries it is given. Results accumulated into one result object never exceed the requested number of contacts, are never lost or altered by later queries, the most costly cost sources are kept however few contacts are requested, and a running minimum distance never increases.',
 ['histories','inputs'],'any sequence of queries of mixed kinds over a shared pool of shapes, meshes and octrees; solver types; warm starts from unrelated pairs; fresh or shared result objects; request limits',
 'Tests run each query once on a fresh result; the warm start is tested on a handful of shape pairs.',
 [N+'collision-inl.h',N+'distance-inl.h',N+'continuous_collision-inl.h',N+'detail/collision_func_matrix-inl.h',N+'collision_result-inl.h',N+'distance_result-inl.h'],[('fresh solver per query',N+'collision-inl.h'),('cached guess copied in and out of the solver',N+'detail/collision_func_matrix-inl.h'),('accumulating result',N+'collision_result-inl.h')],obs=['results','bytes of geometry before and after'])
p('C11','Dynamic bounding-volume trees keep their invariants through any history',
 'After any history of bulk initialisation, insertion, removal, volume update (plain, with margin, with velocity), refit and rebalancing, the tree holds exactly the live leaves, every interior node has two children whose parent links agree, every node bounds its descendants, and size, emptiness and height agree with the structure. No node is leaked, freed twice or used after removal.',
 ['histories','inputs','configurations'],'pointer-based and array-based trees; all initialisation levels and rebalancing modes and thresholds; identical, degenerate and clustered volumes; any placement of nodes in memory',
 'Existing tests cover one insertion scenario of the array tree and reach the rest only through default-configured managers.',
 [D+'hierarchy_tree-inl.h',D+'hierarchy_tree_array-inl.h',D+'morton-inl.h'],[('insertion/removal with ancestor refit',D+'hierarchy_tree-inl.h'),('rotations ordered by memory position',D+'hierarchy_tree-inl.h'),('index free list and array growth',D+'hierarchy_tree_array-inl.h')],obs=['tree structure via public accessors'])
p('C12','Interval tree queries return exactly the stored overlapping intervals',
 'After any history of inserting and deleting intervals, by node or by content, querying the interval tree returns exactly those stored intervals that overlap the query interval, each once, and enumerating by removal yields each stored interval once. Deleting an absent interval changes nothing.',
 ['histories','inputs'],'interleaved insertions, deletions and queries with equal, nested, degenerate and extreme intervals; small to several hundred elements',
 'No existing test exercises deletions; the tree is reached only through one manager that is rebuilt between queries.',
 [D+'interval_tree-inl.h',D+'interval_tree_node-inl.h'],[('red-black rebalancing with max-high augmentation',D+'interval_tree-inl.h')],obs=['returned interval sets'])
p('C13','Hash tables return exactly the live entries of the queried cells',
 'After any history of insertions, removals and clears, querying a hash table for a region returns every live entry whose inserted region shares a cell with it and no removed entry, without duplicates; this holds for the dense and the sparse table alike.',
 ['histories','inputs','configurations'],'dense and sparse tables, random and spatial hash functions, table sizes down to one; regions on cell boundaries, zero-width, partly or wholly outside the scene',
 'No existing test exercises the tables directly or removes from them.',
 [D+'simple_hash_table-inl.h',D+'sparse_hash_table-inl.h',D+'spatial_hash-inl.h'],[('cell enumeration',D+'spatial_hash-inl.h'),('per-cell bins',D+'simple_hash_table-inl.h')],obs=['query results'])
p('C14','The profiler counts everything once under any threads and clock behaviour',
 'With any number of threads recording events, averages and timed blocks at once, the totals reported afterwards (per thread or merged) are exactly what was recorded: no count, sample or block is lost or doubled, and times equal the clock readings taken. Concurrent starting, stopping, clearing and reporting neither races, deadlocks nor loses what was recorded after a clear.',
 ['schedules','fault_sequences'],'1 to 4 threads, interleavings at memory-access granularity, clock advances, stalls and backward jumps at any point, exceptions from the output stream while reporting',
 'One fixed test with real sleeps and one thread.',
 ['src/common/detail/profiler.cpp','include/fcl/common/detail/profiler.h','src/common/time.cpp'],[('one mutex around all shared maps','src/common/detail/profiler.cpp')],obs=['printed report','happens-before relation'],hook=None)
p('C15','Seeding makes every random stream reproducible under any schedule',
 'After setting a seed before first use, the streams drawn by generators created afterwards are the same in every run of the program whose generators are created in the same order, whatever the clock shows, and different seeds give different streams. Generators created by concurrent threads each receive a different seed without a race, the set of seeds handed out not depending on the interleaving, and every drawn value lies in its documented range, of which no value is left out over many draws.',
 ['schedules','inputs','configurations'],'seeds, numbers of generators and threads, interleavings at memory-access granularity, clock values including jumps',
 'No existing test sets a seed or creates generators from two threads.',
 ['src/math/detail/seed.cpp','src/math/rng.cpp','include/fcl/math/rng-inl.h','include/fcl/math/detail/seed.h'],[('process-wide seed source under a mutex','src/math/detail/seed.cpp')],obs=['drawn values, handed-out seeds'])
p('C16','Octrees changed while in use are queried by their current occupancy',
 'After any history of inserting hits and misses, pruning, expanding, deleting nodes or changing the occupancy and free thresholds of an octree, collision and distance queries between it and shapes, meshes, other octrees or a tree-based manager agree with brute force over its currently occupied cells, within the precision of the narrow-phase solvers, and its boxes, node look-ups and thresholds show the same cells. An empty octree collides with nothing and is at no distance. A cell whose occupancy is at or above the occupancy threshold counts as occupied; cells that also are at or below the free threshold may be treated either way.',
 ['histories','inputs','configurations'],'sequences of occupancy updates at various depths interleaved with queries; resolutions; poses with and without rotation; the tree manager kinds with the octree handled as a geometry or cell by cell',
 'Existing tests build a random octree once, with default thresholds, then query it.',
 ['include/fcl/geometry/octree/octree-inl.h',N+'detail/traversal/octree/octree_solver-inl.h',B+'broadphase_dynamic_AABB_tree-inl.h',B+'broadphase_dynamic_AABB_tree_array-inl.h'],[('occupancy predicates read the live tree','include/fcl/geometry/octree/octree-inl.h'),('simultaneous descent with free-space pruning',N+'detail/traversal/octree/octree_solver-inl.h')],obs=['query results'])
p('C17','An object\'s cached bounds follow its pose and geometry through any history',
 'After any sequence of pose changes through any of the setters, geometry deformation and copies, once bounds are recomputed an object\'s axis-aligned bounds contain the placed geometry, the pose read back is the pose set, and two objects with the same geometry and pose have the same bounds however they got there. Objects sharing one geometry never influence each other, and user data are null until set and then read back as set.',
 ['histories','inputs'],'sequences over rotation, quaternion, translation, transform and identity setters, interleaved with recomputation, on every shape kind, meshes and octrees, several objects sharing a geometry',
 'Tests set each pose once with one setter.',
 [N+'collision_object-inl.h',N+'continuous_collision_object-inl.h','include/fcl/geometry/collision_geometry-inl.h'],[('bounds recomputed from local bounds, by translation or by bounding sphere when rotated',N+'collision_object-inl.h')],obs=['bounds, pose'])
p('C18','Moving objects follow their motions and stay inside their bounds at all times',
 'After any sequence of evaluations of a motion (translational, interpolated, screw or spline) at times going forwards, backwards or repeated, all pose getters show the pose of the last time only: the prescribed pose at that time, the given poses at the start and the end. Over any window of time, the Taylor models of the motion enclose every pose taken (for splines, of its translation), and the motion bounds of volumes and triangles (splines excepted) are at least the distance moved in the remaining time. The bounds of a continuous collision object contain its geometry throughout the window of time they were computed for, and its user data are null until set.',
 ['histories','inputs','schedules'],'simulated clocks that jump to any time in [0,1]; all motion kinds with random, tiny and half-turn rotations; windows of time; every geometry kind as the moving object',
 'Existing tests evaluate no Taylor model and no motion at times out of order.',
 ['include/fcl/math/motion/interp_motion-inl.h','include/fcl/math/motion/screw_motion-inl.h','include/fcl/math/motion/spline_motion-inl.h','include/fcl/math/motion/translation_motion-inl.h','include/fcl/math/motion/taylor_model/taylor_model-inl.h',N+'continuous_collision_object-inl.h'],[('integrate() keeps the current pose in the motion','include/fcl/math/motion/interp_motion-inl.h'),('polynomials with an interval remainder','include/fcl/math/motion/taylor_model/taylor_model-inl.h')],obs=['poses, enclosures, bounds'])
# pure functions of their input: not decided here
NA='pure function of its input: no schedule, history, clock or fault for a simulator to decide'
def na(id,title,st,files,mech):
    p(id,title,st,['inputs'],'all valid inputs','Tests sample a finite set of inputs.',files,mech); NAL.append((id,NA))
NAL=[]
na('C30','Narrow-phase collision verdicts and contacts are geometrically true','Two geometries are reported in collision exactly when they share a point (up to the requested tolerance), and each contact\'s position, normal and depth describe a separating translation.',[N+'detail/gjk_solver_libccd-inl.h',N+'detail/gjk_solver_indep-inl.h',N+'detail/primitive_shape_algorithm/box_box-inl.h'],[('GJK/EPA and closed-form shape tests',N+'detail/convexity_based_algorithm/gjk_libccd-inl.h')])
na('C31','Distances and nearest points are geometrically true','The reported distance is the smallest distance between the two geometries, attained by the reported nearest points, which lie on the geometries; signed distance is minus the penetration depth.',[N+'distance-inl.h',N+'detail/convexity_based_algorithm/gjk_libccd-inl.h'],[('GJK distance',N+'detail/convexity_based_algorithm/gjk_libccd-inl.h')])
na('C32','Continuous collision never reports free motion through an obstacle','A continuous query answers no collision only if the two moving geometries stay apart during the whole motion, and otherwise returns a time not later than the first contact.',[N+'continuous_collision-inl.h',N+'detail/conservative_advancement_func_matrix-inl.h'],[('conservative advancement with motion bounds','include/fcl/math/motion/')])
na('C33','Bounding volumes and their tests are conservative','Every bounding volume fitted to points or shapes contains them, merging contains both, and overlap/distance tests between volumes never deny an overlap nor overestimate a distance.',['include/fcl/math/bv/OBB-inl.h','include/fcl/math/bv/RSS-inl.h','include/fcl/math/bv/kIOS-inl.h','include/fcl/math/bv/kDOP-inl.h'],[('fitters','include/fcl/math/bv/utility-inl.h')])
na('C34','Shape properties and meshes generated from shapes match the shapes','Local bounds, volume, centre of mass and moment of inertia of each shape are right, and a mesh generated from a shape approximates its surface with outward orientation.',['include/fcl/geometry/shape/','include/fcl/geometry/geometric_shape_to_BVH_model-inl.h'],[('closed formulas and tessellation','include/fcl/geometry/geometric_shape_to_BVH_model-inl.h')])
na('C35','Interval vectors and matrices enclose the exact results','Every operation on intervals, interval vectors and interval matrices encloses the exact result for all values of its arguments (as far as the Taylor models of C18 do not use it).',['include/fcl/math/motion/taylor_model/interval_matrix-inl.h'],[('interval arithmetic','include/fcl/math/motion/taylor_model/interval-inl.h')])
if __name__=='__main__':
    out=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),'properties.jsonl')
    open(out,'w').write(''.join(json.dumps(x,ensure_ascii=False)+'\n' for x in P))
    print(len(P),'properties')

"""What each check runs."""
BP = 'all eight broad-phase managers (naive, SSaP, SaP, interval tree, spatial hash on the dense and the sparse table, dynamic AABB tree, dynamic AABB tree on arrays), interval trees, hash tables, hierarchy trees, collision objects'
SIG = 'one case is one seeded plan (history of operations with its faults) executed in a fresh simulated process; two runs count as distinct when the signature of '
def bp(n, quick, thorough, rule, must, maxsec=28):
    return dict(harness='broadphase.cpp', defs=['-DPROP=%d' % n], quick=quick, thorough=thorough, real=BP, rule=SIG + rule, must=must, maxsec=maxsec)
def ct(n, quick, thorough, real, rule, must, maxsec=35):
    return dict(harness='containers.cpp', defs=['-DPROP=%d' % n], quick=quick, thorough=thorough, real=real, rule=SIG + 'the sequence of ' + rule, must=must, maxsec=maxsec)
def th(n, quick, thorough, real, rule, must, maxsec=35):
    return dict(harness='threads.cpp', defs=['-DPROP=%d' % n], quick=quick, thorough=thorough, real=real, rule=SIG + rule + ' differs', must=must, maxsec=maxsec,
        tech='deterministic simulation: seeded search over thread schedules at memory-access granularity with clock, stream and allocation faults, happens-before race detection, against a reference model')
MB = 'mesh models of all eight volume types and three split rules, fitting, splitting, refitting'
def me(n, quick, thorough, real, rule, must, maxsec=35, **k):
    return dict(harness='mesh.cpp', defs=['-DPROP=%d' % n], quick=quick, thorough=thorough, real=MB + real, rule=SIG + rule + ' differs', must=must, maxsec=maxsec, **k)
QS = 'collision, distance and continuous-collision queries on all shapes, meshes of all eight volume types, octrees; both GJK solvers'
def qu(n, quick, thorough, rule, must, maxsec=30, **k):
    return dict(harness='queries.cpp', defs=['-DPROP=%d' % n], narrow=True, quick=quick, thorough=thorough, real=QS, rule=SIG + rule + ' differs', must=must, maxsec=maxsec, **k)
CHECKS = {
    'C01': bp(1, 120000, 3000000, 'the sequence of (overlapping pairs required, objects registered) at each collision query differs', ['probe.query-with-overlaps']),
    'C02': bp(2, 120000, 3000000, 'the sequence of (objects registered, positive minimum or not) at each distance query differs', ['probe.distance-positive']),
    'C03': bp(3, 100000, 600000, 'the sequence of query outcomes between removals differs', []),
    'C04': bp(4, 100000, 600000, 'the sequence of query outcomes around interruptions differs', ['fault.callback-throw', 'fault.callback-cancel']),
    'C05': dict(parts=[
        dict(bp(5, 24000, 600000, '', [], maxsec=20), name='managers'),
        dict(me(5, 40000, 1000000, '', '', [], maxsec=20), name='meshes'),
        dict(qu(5, 12000, 300000, '', [], maxsec=20), name='queries'),
    ], real=BP + '; ' + MB + '; ' + QS, rule=SIG + 'the sequence of outcomes around the failed allocations differs', must=['fault.alloc', 'probe.interrupted-collide', 'probe.interrupted-distance', 'probe.failed-mutation', 'probe.failed-allocation', 'probe.query-failed', 'probe.recovered'],
        tech='deterministic simulation: seeded histories in which the k-th memory allocation of an operation fails, against a set-of-objects model, with a checked heap'),
    'C06': qu(6, 10000, 150000, 'the interleaving and the outcomes of the queries', ['probe.query-compared', 'probe.manager-query-compared', 'probe.tables-not-yet-made'], tech='deterministic simulation: seeded search over thread schedules at memory-access granularity, with happens-before race detection, against the outcomes of the same queries made alone'),
    'C07': me(7, 120000, 3000000, '', 'the sequence of (state before, call, answered or refused, state after)', ['probe.built-model-checked', 'probe.refused', 'op.eupd', 'op.erep']),
    'C08': me(8, 60000, 1500000, ', collision and distance traversals of meshes, triangle intersection and distance', 'the sequence of (intersecting pairs, apart or not) at each query', ['probe.bounds-checked', 'probe.query-hit', 'probe.query-miss', 'probe.distance-checked', 'op.update-bottomup', 'op.update-topdown', 'probe.top-level', 'probe.shape-hit', 'probe.shape-apart', 'probe.replaced-after-update'], maxsec=35, narrow=True),
    'C09': me(9, 60000, 1500000, ', collision traversals with and without front list', 'the sequence of (front size, colliding pairs) at each pose', ['probe.resumed-free', 'probe.resumed-colliding']),
    'C10': qu(10, 20000, 500000, 'the sequence of (query kind, kinds of the pair, outcome class)', ['probe.repeated', 'probe.warm-hit', 'probe.warm-miss', 'probe.accumulated', 'probe.minimum']),
    'C11': ct(11, 40000, 1000000, 'the pointer-based and the array-based hierarchy tree, Morton coding, AABBs', '(live leaves, height) after each operation differs', ['op.init3', 'op.balance-topdown']),
    'C12': ct(12, 60000, 1500000, 'the interval tree', '(overlapping intervals, stored intervals) at each query differs', ['op.delete-absent', 'op.walk']),
    'C13': ct(13, 200000, 1500000, 'the dense and the sparse hash table, the spatial hash; a scattering hash of the harness as second hash function', '(overlapping entries, entries sharing a cell, live entries) at each query differs', ['op.remove']),
    'C14': th(14, 40000, 1000000, 'the profiler and the time functions', 'the interleaving of the operations', ['fault.clock-backward', 'fault.stream-throw', 'fault.alloc', 'probe.report-checked', 'probe.total-checked']),
    'C15': th(15, 12000, 300000, 'seed source, generators and samplers', 'the streams drawn', ['probe.reproduced', 'probe.threads-reproduced', 'fault.clock-moved']),
    'C16': dict(harness='octree.cpp', defs=[], narrow=True, quick=12000, thorough=300000, real='octrees and their queries against shapes, meshes of all eight volume types, other octrees and both dynamic AABB tree managers; octomap', rule=SIG + 'the sequence of (cells hit, contacts) and (cells, apart or not) at each query differs', must=['probe.collision-hit', 'probe.collision-miss', 'probe.distance-apart', 'probe.distance-touching', 'probe.distance-nothing', 'probe.manager-cells', 'probe.manager-apart', 'probe.boxes-checked'], maxsec=40),
    'C17': dict(harness='objects.cpp', defs=['-DPROP=17'], narrow=True, quick=60000, thorough=1500000, real='collision objects, local and placed bounds of all shapes, octrees and meshes of all eight volume types, replacing and updating meshes', rule=SIG + 'the sequence of (geometry kind, rotated or not, deformations) at each computation of bounds differs', must=['probe.bounds-checked', 'probe.mesh-bounds-checked', 'op.deform', 'op.copy', 'op.assign'], maxsec=30),
    'C18': dict(harness='objects.cpp', defs=['-DPROP=18'], narrow=True, quick=60000, thorough=1500000, real='translational, interpolated, screw and spline motions, Taylor models and interval arithmetic, motion bounds, continuous collision objects', rule=SIG + 'the sequence of (motion kind, question, simulated time) differs', must=['probe.pose-checked', 'probe.enclosure-checked', 'probe.triangle-bound-checked', 'probe.volume-bound-checked', 'probe.moving-bounds-checked'], maxsec=30),
}

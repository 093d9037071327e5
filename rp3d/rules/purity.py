"""P10 queries are pure, P11 assertions are pure and build types agree, P12 observers only observe."""
import re
from ..model import walk, children, show, load, is_assert, AnalysisBroken
from ..effects import effects

USER = "PhysicsWorld Body RigidBody Collider Joint BallAndSocketJoint FixedJoint HingeJoint SliderJoint CollisionShape ConvexShape ConcaveShape ConvexPolyhedronShape SphereShape BoxShape CapsuleShape TriangleShape ConvexMeshShape ConcaveMeshShape HeightFieldShape TriangleMesh ConvexMesh HeightField Material PhysicsCommon HalfEdgeStructure DebugRenderer".split()
ALLOC = ("HeapAllocator", "PoolAllocator", "SingleFrameAllocator", "MemoryManager", "DefaultAllocator")
# scratch and caches a query may touch: allocator internals, the moved-shape set and pair table of the broad phase (recomputed
# from the poses at the next step in any case), temporal-coherence caches of the narrow phase, result records
QUERY_OK = {"BroadPhaseSystem.mMovedShapes", "ColliderComponents.mOverlappingPairs", "CollisionDetectionSystem.mBroadPhaseOverlappingNodes",
            "CollisionDetectionSystem.mLostContactPairs", "RaycastTest.userCallback", "Entity.id",
            "OverlappingPairs.mConcavePairs", "OverlappingPairs.mConvexPairs", "OverlappingPairs.mMapConcavePairIdToPairIndex", "OverlappingPairs.mMapConvexPairIdToPairIndex",
            "OverlappingPairs.mDisabledConcavePairs", "OverlappingPairs.mDisabledConvexPairs", "OverlappingPairs.mMapDisabledConcavePairIdToPairIndex", "OverlappingPairs.mMapDisabledConvexPairIdToPairIndex",
            "OverlappingPairs::OverlappingPair.needToTestOverlap", "OverlappingPairs::OverlappingPair.collidingInCurrentFrame"}
QUERY_OK_CLS = ("RaycastInfo", "LastFrameCollisionInfo", "NarrowPhaseInfoBatch", "NarrowPhaseInput", "ContactPairData", "ContactPair", "ContactManifoldInfo", "ContactPointInfo",
                "ConcaveMeshRaycastCallback", "TriangleConvexNarrowPhaseCallback", "MiddlePhaseTriangleCallback", "OverlapCallback", "CollisionCallback", "RaycastTest")
# copied as whole records when pairs move inside their table; otherwise owned by the step
PAIR_MOVE_ONLY = {"OverlappingPairs::OverlappingPair." + x for x in "pairID broadPhaseId1 broadPhaseId2 collider1 collider2 narrowPhaseAlgorithmType collidingInPreviousFrame isEnabled".split()} | {
    "OverlappingPairs::ConcaveOverlappingPair.lastFrameCollisionInfos", "OverlappingPairs::ConcaveOverlappingPair.isShape1Convex", "OverlappingPairs::ConcaveOverlappingPair.mPoolAllocator"}

def lcls(l): return l.rsplit(".", 1)[0] if "." in l else l
def root_cls(l): return lcls(l).split("::")[0].split("<")[0]

def observers_ok(l):
    return root_cls(l) in ("DefaultLogger", "Logger", "Profiler", "ProfileNode", "ProfileNodeIterator", "ProfileSample", "DebugRenderer") or lcls(l) in ("Profiler", "ProfileNode") or l == "PhysicsCommon.mProfilers" or l.endswith(".mProfiler")

def state_labels(P, writes, allow):
    return sorted(l for l in writes if not allow(l))

def check_P10(P, rep):
    E = effects(P)
    W = P.method("PhysicsWorld", "raycast")
    roots = []
    for f in P.fns.values():
        if f.cls not in USER or f.n.startswith(("~", "operator")) or f.n in ("ctor", "dtor"): continue
        acc = f.acc
        if acc == "private": continue
        if re.match(r"(test|raycast|collide|get|is[A-Z]|has|to_string|compute(Overlapping|Local|Transformed|AABB))", f.n) and acc in ("public", None):
            roots.append(f)
        elif f.cls == "CollisionDetectionSystem" and f.n in ("testOverlap", "testCollision", "raycast"): roots.append(f)
    for n in ("testOverlap", "testCollision", "raycast", "getWorldTransform", "getLocalToBodyTransform"):
        for f in P.methods("CollisionDetectionSystem", n): roots.append(f)
    def allow(l):
        if root_cls(l) in ALLOC or observers_ok(l): return True
        if l.startswith("*"): return True
        if l in QUERY_OK: return True
        if root_cls(l) in QUERY_OK_CLS: return True
        if l.startswith(("std", "::std")): return True
        return False
    rep.need(len([r for r in roots if r.cls == "PhysicsWorld" and r.n.startswith("test")]), 6, "world queries")
    nonconst = {}
    listener = P.field("PhysicsWorld", "mEventListener")
    rep.need(1 if listener else 0, 1, "the world's event listener field")
    for f in sorted(roots, key=lambda x: x.f):
        rep.analysed(f)
        if f.n.startswith("get") and not f.const and f.rt and (f.rt.endswith("&") or f.rt.endswith("*")) : pass
        for l in sorted(E.writes(f.f)):
            if l.startswith("*param"):
                # out parameters are the caller's; parameters that are engine objects are labelled below by field
                continue
            if l in PAIR_MOVE_ONLY:
                tr = direct_writers(P, E, f.f, l)
                tr = [t for t in tr if not (t[0].cls.startswith("OverlappingPairs::") and (t[0].n in ("ctor", "operator=")))]
                rep.check(not tr, "%s leaves %s alone (only whole-record moves of the pair table)" % (f.short(), l), tr[0][0].where(tr[0][1]) if tr else "", chain(P, E, f.f, l), ident="query %s writes %s" % (f.short(), l))
                continue
            ok = allow(l)
            rep.check(ok, "%s does not modify %s" % (f.short(), l), f.where() if ok else (E.trace(f.f, l) or [(f, None)])[-1][0].where((E.trace(f.f, l) or [(f, None)])[-1][1]), "" if ok else chain(P, E, f.f, l), ident="query %s writes %s" % (f.short(), l))
        rep.ok("%s: write effects within the allowed scratch set" % f.short())
    # queries never talk to the event listener: only the step does
    seen = P.reachable([r for r in roots if not r.n.startswith("get")])
    for k in sorted(seen):
        g = P.fns.get(k)
        if not g: continue
        for n in g.nodes():
            if n.get("k") == "mem" and n.get("n") == "mEventListener" and n.get("cls") == "PhysicsWorld":
                rep.bad("a query consults the event listener", g.where(n), " -> ".join(P.path_to(seen, k)))
        rep.check(not (g.cls == "OverlappingPairs" and g.n in ("enablePair", "disablePair")), "a query enables or disables no pair", g.where(), " -> ".join(P.path_to(seen, k)), ident="query reaches %s" % g.short())
    rep.ok("no query consults the event listener")
    rep.count("query_roots", len(roots))

def direct_writers(P, E, key, label):
    out = []; seen = P.reachable([key])
    for k in seen:
        g = P.fns.get(k)
        if not g: continue
        for (r, l), (node, via) in E.W.get(k, {}).items():
            if l == label and via is None and r not in ("local", "fresh"): out.append((g, node))
    return out

def chain(P, E, key, label):
    return " -> ".join("%s:%d %s" % (f.file, (n or {}).get("l", f.l), f.short()) for f, n in E.trace(key, label))

# ------------------------------------------------------------------------------------------------ P11
PUREEXT = re.compile(r"^(abs|fabs|sqrt|min|max|isfinite|isnan|isinf|size|empty|begin|end|find|count|operator\S*|get|c_str|at|std::.*)")

def check_P11(P, rep):
    PA = load(P.config, keep_asserts=True)
    E = effects(PA)
    n = 0
    for f in PA.fns.values():
        if not f.file.startswith(("src/", "include/")): continue
        for x in f.nodes():
            if not is_assert(x): continue
            n += 1; rep.analysed(f)
            c = x["a"][0]
            what = "assertion in %s has no side effect: %s" % (f.short(), show(c)[:90])
            bad = None
            for y in walk(c):
                if y.get("k") == "asg": bad = "assigns " + show(y["a"][0])
                elif y.get("k") == "un" and y.get("op", "").startswith(("++", "--")): bad = "modifies " + show(y["a"][0])
                elif y.get("k") in ("new", "delete"): bad = "allocates or frees"
                elif y.get("k") == "call":
                    if y.get("ext"):
                        if y.get("op") in ("=", "+=", "-=", "++", "--", "<<"): bad = "external mutation " + show(y)
                        elif y.get("n") in ("push_back", "erase", "insert", "clear", "pop_back", "swap", "store", "exchange", "lock", "unlock", "reset", "release"): bad = "external mutation " + show(y)
                        continue
                    for t in PA.targets(y):
                        for l in E.writes(t):
                            if l.startswith(("DefaultLogger", "Logger")): continue
                            if observers_ok(l): continue
                            if root_cls(l) in ALLOC and "Allocat" in t.split("::")[0]: bad = "calls %s which writes %s" % (t, l); continue
                            if root_cls(l) in ALLOC: continue
                            if l == "*heap" : continue
                            bad = "calls %s which writes %s" % (t, l)
                        if bad is None and y.get("op") in ("=", "+=", "-=", "*=", "/="): bad = "assigns " + show(y)
                if bad: break
            rep.check(bad is None, what, f.where(x), bad or "")
    rep.need(n, 250, "assertions")
    rep.count("assertions", n)
    # the two build types differ only in assertions and in the values feeding them
    N = load("ndebug"); compare(P if P.config != "double" else load("single"), N, rep, "assertion", E)

def canon(P, n):
    """structural hash of a statement tree without positions and assertion leftovers"""
    if n is None or n is False: return None
    if isinstance(n, list): return tuple(x for x in (canon(P, y) for y in n) if x not in (None, ("null_s",)))
    if not isinstance(n, dict): return n
    k = n.get("k")
    if k == "null_s": return None
    if k == "cast" and n.get("t") == "void": return None
    if k == "sizeof": return ("sizeof", n.get("st"))
    if OBS_T.match(n.get("t", "") or "") and "Profiler" in n["t"] and k in ("ref", "mem", "call", "null", "cast"): return None
    out = [k]
    for kk in sorted(n):
        if kk in ("l", "k", "d", "loc", "c0"): continue
        v = n[kk]
        if isinstance(v, (dict, list)): v = canon(P, v)
        elif isinstance(v, str): v = re.sub(r"(, )?\bProfiler \*", "", re.sub(r"@\S+|:\d+:\d+", "", v))
        out.append((kk, v))
    return tuple(out)

def stmts(n): return [x for x in n.get("a", []) if isinstance(x, dict)] if n and n.get("k") in ("block", "seq", "comp", "compound") else ([n] if n else [])

def flat(n):
    """statement nodes of a body, outermost first, as (canonical form, node)"""
    return [x for x in walk(n)] if n else []

def compare(A, B, rep, kind, E):
    """every function of the debug program equals that of the release program up to pure declarations"""
    nd = 0
    for k, f in A.fns.items():
        if not f.file.startswith(("src/", "include/")): continue
        g = B.fns.get(k)
        if g is None:
            # a function that exists in one build type only: must be called from assertions only (no caller left after stripping)
            rep.check(not [c for c in A.callers().get(k, []) if not purely(A, E, f)], "%s exists in one build type only and is pure or unused" % f.short(), f.where()); nd += 1
            continue
        ca, cb = canon(A, [i.get("e") for i in f.inits if i.get("e")]), canon(B, [i.get("e") for i in g.inits if i.get("e")])
        if ca != cb:
            fa = {i.get("field"): i for i in f.inits}; fb = {i.get("field"): i for i in g.inits}
            for n, i in fa.items():
                if n in fb: rep.check(canon(A, i.get("e")) == canon(B, fb[n].get("e")), "build types initialise %s::%s alike" % (f.cls, n), f.where(i)); continue
                rep.check(n and B.field(f.cls, n) is None, "build types initialise the same fields of %s" % f.cls, f.where(i))
        ca, cb = canon(A, f.body), canon(B, g.body)
        if ca == cb: continue
        nd += 1; rep.analysed(f)
        bad = diff_impure(A, E, f, f.body, g.body, B) or diff_impure(B, E, g, g.body, f.body, A)
        rep.check(not bad, "build types agree on %s up to pure local computations" % f.short(), f.where(bad), show(bad)[:200] if bad else "")
    for k, g in B.fns.items():
        if k not in A.fns and g.file.startswith(("src/", "include/")):
            rep.check(purely(B, E, g), "%s exists in the release build only" % g.short(), g.where()); nd += 1
    rep.count("functions_differing_between_builds", nd)
    rep.count("functions_compared", len(A.fns))

def purely(P, E, f):
    if E is None: return False
    return not [l for l in E.writes(f.f) if not observers_ok(l)]

CTRL = ("if", "for", "while", "do", "switch", "case", "default", "forr")
def diff_impure(P, E, f, a, b, Q=None):
    """first statement of a that has no counterpart in b and is not a pure declaration/expression of locals"""
    import collections
    cb = collections.Counter(); conds = collections.Counter()
    for y in walk(b) if b else []:
        cb[canon(P, y)] += 1
        if y.get("k") in CTRL: conds[(y["k"], canon(P, head(y)))] += 1
    declared = set()
    only_here = lambda t: t.get("k") == "mem" and Q is not None and Q.field(t.get("c", ""), t["n"]) is None
    def impure(n):
        for y in walk(n):
            k = y.get("k"); t = None
            if k == "asg": t = y["a"][0]
            elif k == "un" and y.get("op", "")[:2] in ("++", "--"): t = y["a"][0]
            if t is not None:
                if only_here(t) or OBS_T.search(t.get("t", "")): continue
                while t.get("k") in ("mem", "idx", "cast"): t = t.get("b") or t["a"][0]
                if not (t.get("k") == "ref" and t.get("d") in declared): return True
            if k in ("ret", "break", "continue", "new", "delete"): return True
            if k == "call":
                if y.get("o") and "Profiler" in y["o"].get("t", ""): continue
                for t in P.targets(y):
                    if t in P.fns and [l for l in E.writes(t) if not observers_ok(l) and root_cls(l) not in ALLOC and l != "*heap" and not l.startswith("*param")]: return True
        for y in walk(n):
            if y.get("k") == "var": declared.add(y.get("d"))
        return False
    def visit(n):
        c = canon(P, n)
        if c is None or cb[c] > 0: return None
        k = n.get("k")
        if k == "block" or (k in CTRL and conds[(k, canon(P, head(n)))] > 0):
            for x in children(n):
                r = visit(x)
                if r is not None: return r
            return None
        return n if impure(n) else None
    return visit(a) if a else None

def head(n): return [n.get(x) for x in ("init", "c", "inc", "range", "v", "cv") if isinstance(n.get(x), dict)]

# ------------------------------------------------------------------------------------------------ P12
OBS_T = re.compile(r"\b(Profiler|Logger|EventListener|DebugRenderer)\b[^,]*[*&]")
OBSCLS = ("DebugRenderer", "Profiler", "ProfileNode", "ProfileNodeIterator", "ProfileSample", "Logger", "DefaultLogger", "PhysicsCommon")
def mentions_observer(x):
    for y in walk(x):
        if y.get("k") == "mem" and "DebugRendering" in y.get("n", ""): return show(y)
        if y.get("k") in ("mem", "ref", "call") and OBS_T.search(y.get("t", "")): return show(y)
        if y.get("k") == "call" and "DebugRendering" in (y.get("n") or ""): return show(y)
    return None
def notify_ok(l):
    if observers_ok(l) or root_cls(l) in ALLOC or l.startswith(("*", "std", "::std")): return True
    return root_cls(l) in ("CollisionCallback", "OverlapCallback", "RaycastInfo", "RaycastTest")

def check_P12(P, rep):
    from ..cfg import cfg
    E = effects(P); ng = 0
    for f in sorted(P.fns.values(), key=lambda x: x.f):
        if f.body is None or not f.file.startswith(("src/", "include/")) or f.cls.split("::")[0] in OBSCLS: continue
        has = [n for n in f.nodes() if n.get("k") in ("if", "cond", "while", "for", "bin", "switch", "ret") and True]
        conds = [n for n in has if n["k"] in ("if", "while", "for", "switch") and n.get("c") and mentions_observer(n["c"])]
        for n in has:
            if n["k"] == "cond" and mentions_observer(n["a"][0]):
                rep.bad("a value computed by the engine depends on whether an observer is installed", f.where(n), show(n)[:200])
        if not conds: continue
        if f.n.startswith(("set", "get")) and not [c for c in conds if True and f.cls != "PhysicsWorld"] and False: continue
        rep.analysed(f)
        G = cfg(f); cn = [c for c in G.nodes if c.kind == "c" and isinstance(c.x, dict) and mentions_observer(c.x)]
        for c in cn:
            ng += 1
            edges = {l for _, l in c.succ}
            both = {}
            for l in edges:
                r = G.reach([G.entry], blocked_edges={(c.i, l)})
                full = G.reach([G.entry])
                both[l] = full - r
            for l, ns in both.items():
                for i in sorted(ns):
                    n = G.nodes[i]
                    if n is c or not isinstance(n.x, dict) or n.kind == "r": continue
                    for root, lab, node, via in E.site_writes(f, n.x):
                        lab = lab or ("*" + str(root))
                        if notify_ok(lab): continue
                        rep.bad("%s modifies %s only if an observer is (not) installed" % (f.short(), lab), f.where(node), "condition: %s; %s" % (show(c.x)[:100], chain(P, E, via, lab) if via else ""), ident="%s modifies %s depending on an observer" % (f.short(), lab))
                    for y in walk(n.x):
                        if y.get("k") == "new" or (y.get("k") == "call" and y.get("n") in ("__assert_fail", "abort", "exit")): pass
            rep.ok("%s: code controlled by %s only notifies" % (f.short(), show(c.x)[:60]))
    rep.need(ng, 5, "branches on observers")
    # the observers' own code writes only its own data
    step = set(P.reachable([P.method("PhysicsWorld", "update")]))
    for f in sorted(P.fns.values(), key=lambda x: x.f):
        c = f.cls.split("::")[0]
        if c in ("DebugRenderer", "Profiler", "ProfileNode", "ProfileNodeIterator", "ProfileSample", "Logger", "DefaultLogger") and f.n not in ("dtor",):
            rep.analysed(f)
            for l in sorted(E.writes(f.f)):
                rep.check(notify_ok(l) or root_cls(l) in OBSCLS[:-1], "%s writes only observer data (%s)" % (f.short(), l), f.where(), chain(P, E, f.f, l))
    # installing an observer stores it and nothing else
    for cls, n, own in (("PhysicsWorld", "setEventListener", {"PhysicsWorld.mEventListener"}), ("PhysicsWorld", "setIsDebugRenderingEnabled", {"PhysicsWorld.mIsDebugRenderingEnabled"}), ("PhysicsCommon", "setLogger", {"PhysicsCommon.mLogger", "::PhysicsCommon::mLogger"})):
        f = P.method(cls, n); rep.analysed(f)
        for l in sorted(E.writes(f.f)):
            rep.check(l in own or notify_ok(l) or "mLogger" in l, "%s::%s stores the observer only" % (cls, n), f.where(), l)
        rep.ok("%s::%s" % (cls, n))
    for f in P.fns.values():
        if f.n == "setProfiler":
            for l in sorted(E.writes(f.f)): rep.check(l.endswith("mProfiler") or notify_ok(l), "%s stores the profiler only" % f.short(), f.where(), l)
    # profiling build
    Q = load("profile"); compare(P if P.config != "double" else load("single"), Q, rep, "profiling", E)
    EQ = None
    rep.count("observer_branches", ng)

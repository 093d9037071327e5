"""P13 determinism: no clock, randomness, thread identity or address takes part in a decision; everything is initialised before use.
P14 isolation: no unsynchronised static state, no write to what worlds share, no frame memory kept across steps."""
import re
from ..model import walk, show, load, children
from ..effects import effects
from ..cfg import cfg
from ..definit import Fields, undefined_after, undefined_reads, must_assign_after, scalar_fields, own, strip

WORLD = "PhysicsWorld Body RigidBody Collider Joint BallAndSocketJoint FixedJoint HingeJoint SliderJoint Material DebugRenderer".split()
SHARED = ("PhysicsCommon CollisionShape ConvexShape ConcaveShape ConvexPolyhedronShape SphereShape BoxShape CapsuleShape ConvexMeshShape ConcaveMeshShape HeightFieldShape "
          "TriangleMesh ConvexMesh HeightField HalfEdgeStructure").split()
NONDET = re.compile(r"^(s?rand(om)?(_r)?|[delmnj]rand48|time|clock|gettimeofday|clock_gettime|getpid|gettid|pthread_self|get_id|getenv|secure_getenv|random_device|arc4random|now|thread|async|getrandom|sleep_for|sleep_until|hardware_concurrency)$")
NONDET_T = re.compile(r"\b(random_device|mt19937|default_random_engine|linear_congruential_engine|mersenne_twister_engine|uniform_\w+_distribution|chrono|std::thread|std::future)\b")
PROCESS = {"setlocale", "strtok", "fesetround", "fesetenv", "localtime", "gmtime", "asctime", "ctime", "setenv", "putenv", "unsetenv", "signal", "atexit", "_mm_setcsr", "srand", "srandom", "rand", "strerror", "tmpnam", "_controlfp", "chdir", "umask"}
OBSERVERS = ("DefaultLogger", "Logger", "Profiler", "ProfileNode", "ProfileSample", "Timer", "ProfileNodeIterator")

def is_observer(f): return f.cls.split("::")[0] in OBSERVERS

# --------------------------------------------------------------------------------------------------------------- P13
# classes with fields that a count or a validity condition guards: reading them before they are written is excluded by the class itself
GUARDED = {"VoronoiSimplex": "the slots of the simplex are read below the number of points only",
           "ContactPointInfo": "the contact slots are read below nbContactPoints only",
           "HalfEdgeStructure::Edge": "the twin is assigned when the half edge is stored, the next edge when all are known",
           "PolygonVertexArray": "filled by the convex hull algorithm before it is used",
           "HeightField": "minimum and maximum are assigned from the first cell of the grid"}

def address_key(t):
    """a Set or Map (or iterator of one) whose keys contain addresses"""
    t = t.replace("const ", "").replace(" const", "").replace("reactphysics3d::", "")
    m = re.match(r"^(Set|Map|std::unordered_set|std::unordered_map|std::set|std::map)<(.*)", t)
    if not m: return False
    d = 0; key = ""
    for ch in m.group(2):
        if ch == "," and d == 0: break
        if ch in "<(": d += 1
        if ch in ">)":
            if d == 0: break
            d -= 1
        key += ch
    return "*" in key

def unordered_ok(P, E, f):
    """functions that visit an address-keyed table only to release every element or to unlink it: the order has no effect"""
    for n in f.nodes():
        if n.get("k") in ("for", "forr", "while") and n.get("b") is not None:
            hit = any(x.get("k") in ("call",) and x.get("n") in ("begin",) for x in walk(n.get("init") or {})) or n.get("k") == "forr"
    return True

def check_P13(P, rep):
    n_call = n_ptr = n_fields = n_locals = n_create = 0
    for cfgn in ("single", "profile"):
        P = load(cfgn); E = effects(P)
        F = Fields(P)
        # R1 no source of nondeterminism outside the observers
        for f in sorted(P.fns.values(), key=lambda f: f.f):
            if not own(f): continue
            rep.analysed(f)
            for n in f.nodes():
                k = n.get("k")
                if k in ("call", "ctor", "fref"):
                    n_call += 1
                    if not is_observer(f) and k != "ctor" and n.get("n") and not any(t in P.fns for t in P.targets(n)) and NONDET.match(n["n"]):
                        rep.bad("%s takes no input from %s" % (f.short(), n["n"]), f.where(n), show(n)[:80])
                if not is_observer(f) and k == "var" and NONDET_T.search(n.get("t", "")):
                    rep.bad("%s uses no clock, random generator or thread" % f.short(), f.where(n), n["t"])
                # R2/R3 addresses take no part in decisions
                if k == "bin" and n.get("op") in ("<", ">", "<=", ">=") and all(strip(x).get("t", "").endswith("*") for x in n["a"]):
                    n_ptr += 1
                    loop = any(y.get("k") in ("for", "while", "do") and isinstance(y.get("c"), dict) and any(z is n for z in walk(y["c"])) for y in f.nodes())
                    rep.check(loop or "/memory/" in f.file, "%s takes no decision from the order of addresses" % f.short(), f.where(n), show(n)[:90])
                if k == "cast" and n.get("ck") == "PointerToIntegral":
                    n_ptr += 1
                    rep.check("/memory/" in f.file or "/containers/" in f.file, "%s computes nothing from an address" % f.short(), f.where(n), show(n)[:90])
                # R4 address-keyed tables are looked up, not enumerated
                if k == "call" and n.get("n") in ("begin", "toArray") and n.get("o") is not None and address_key(n["o"].get("t", "").rstrip("&* ")):
                    n_ptr += 1
                    rep.check(enumerates_harmlessly(P, E, f, n), "%s enumerates an address-keyed table only to release or unlink its elements" % f.short(), f.where(n), n["o"].get("t", ""),
                              ident="%s enumerates an address-keyed table" % f.short())
                if k == "forr" and address_key(n.get("range", {}).get("t", "").rstrip("&* ")):
                    n_ptr += 1
                    rep.check(enumerates_harmlessly(P, E, f, n), "%s enumerates an address-keyed table only to release or unlink its elements" % f.short(), f.where(n), "", ident="%s enumerates an address-keyed table" % f.short())
        # R5 fields: every constructor defines every scalar field
        bad = {}
        for c, d in sorted(P.classes.items()):
            if not d["file"].startswith(("src/", "include/")) or "anonymous union" in c: continue
            if "Components" in P.bases(c) and c != "Components": continue        # columns of tables: written row by row (P06)
            for f in P.methods(c, "ctor"):
                if not own(f): continue
                n_fields += len(scalar_fields(P, c))
                m = undefined_after(P, F, c, f)
                if m and cfgn == "single": bad[f.f] = (c, m)
            if not P.methods(c, "ctor") and "/memory/" not in d["file"]:
                m = [x["n"] for x in scalar_fields(P, c) if not x.get("init")]
                for x in m: bad.setdefault(("plain", c), (c, m))
        guarded = {c for c in GUARDED}
        # R6/R7 what a constructor leaves open is assigned at the creation, before the object is used
        for f in sorted(P.fns.values(), key=lambda f: f.f):
            if not own(f): continue
            r, n = undefined_reads(P, f, {k for k, (c, m) in bad.items() if isinstance(k, str) and P.classes[c]["file"].endswith("containers/Array.h")})
            n_locals += n
            for v, y in r:
                rep.bad("%s reads %s only after it has been assigned" % (f.short(), v["n"]), f.where(y), "%s %s" % (v["t"], v["n"]), ident="%s reads %s unassigned" % (f.short(), v["n"]))
            for n in f.nodes():
                if n.get("k") != "ctor" or n.get("f") not in bad or n.get("zi"): continue
                c, m = bad[n["f"]]
                if P.classes[c]["file"].endswith("containers/Array.h"): continue
                n_create += 1
                miss = must_assign_after(P, F, f, n, c, m)
                if miss and c in guarded: miss = [x for x in miss if x not in GUARDED_FIELDS.get(c, ())]
                for x in miss:
                    rep.check(not read_anywhere(P, c, x), "field %s of the %s made by %s is assigned before use" % (x, c, f.short()), f.where(n), "left undefined by the constructor", ident="%s.%s undefined" % (c, x))
                if not miss: rep.ok("the fields of the %s made by %s are all assigned" % (c, f.short()))
    rep.need(n_fields, 300, "scalar fields of classes with constructors")
    rep.need(n_locals, 60, "uninitialised scalar locals")
    rep.need(n_create, 3, "creations of objects whose constructor leaves fields open")
    rep.count("calls", n_call); rep.count("address_uses", n_ptr); rep.count("constructed_fields", n_fields); rep.count("uninitialised_locals", n_locals); rep.count("creation_sites", n_create)

GUARDED_FIELDS = {"VoronoiSimplex": {"mBarycentricCoords", "mPointsLengthSquare"}, "ContactPointInfo": {"penetrationDepth"}, "HalfEdgeStructure::Edge": {"twinEdgeIndex", "nextEdgeIndex"},
                  "PolygonVertexArray": {"mNbVertices", "mVerticesStart", "mVerticesStride", "mIndicesStart", "mIndicesStride", "mNbFaces", "mPolygonFacesStart", "mVertexDataType", "mIndexDataType"},
                  "HeightField": {"mMinHeight", "mMaxHeight"}}

def read_anywhere(P, c, name):
    for f in P.fns.values():
        for n in f.nodes():
            if n.get("k") == "mem" and n.get("n") == name and n.get("c") == c: return True
    return False

RELEASING = re.compile(r"^(release|destroy\w*|delete\w*|remove\w*|clear|free|dtor|~.*|begin|end|operator.*|size|getLogger|setLogger|find|contains|containsKey)$")
def enumerates_harmlessly(P, E, f, at):
    """what the visiting loops do with the elements is to destroy, release or unlink them"""
    if f.cls in ("Set", "Map") or "/containers/" in f.file: return True
    loops = [n for n in f.nodes() if n.get("k") in ("for", "forr", "while", "do")]
    mine = [n for n in loops if any(x is at for x in walk(n))] or loops
    for s in mine:
        for n in walk(s.get("b") or {}):
            if n.get("k") == "call" and not (n.get("op") or RELEASING.match(n.get("n") or "")): return False
            if n.get("k") in ("asg",):
                # nothing is computed from the visiting order
                return False
    return True

# --------------------------------------------------------------------------------------------------------------- P14
def init_only(P, key, seen=None):
    """f is called only from initialisers of static variables"""
    cs = P.callers().get(key, [])
    statics = []
    for v in P.vars.values():
        if isinstance(v.get("i"), dict) and any(x.get("k") == "call" and x.get("f") == key for x in walk(v["i"])): statics.append(v)
    n = len(statics)
    for g, node in cs:
        ok = False
        for y in g.nodes():
            if y.get("k") == "decl":
                for v in y["a"]:
                    if (v.get("static") or v.get("staticlocal") or v["d"] in P.vars and P.vars[v["d"]].get("staticlocal")) and v.get("i") is not None and any(x is node for x in walk(v["i"])): ok = True
        if not ok:
            if seen is None: seen = set()
            if g.f in seen: return False
            seen.add(g.f)
            if not init_only(P, g.f, seen): return False
        n += 1
    return n > 0

def check_P14(P, rep):
    E = effects(P)
    # ---- R1: static state
    n_stat = 0
    for d, v in sorted(P.vars.items()):
        if not str(v.get("file", "")).startswith(("src/", "include/")): continue
        if v.get("tls"): continue
        n_stat += 1
        t = v["t"]
        if v.get("const") or re.search(r"\b(std::)?(atomic|mutex|once_flag|recursive_mutex)\b", t): rep.ok("static %s is constant or synchronised" % d.split("@")[0]); continue
        ws = []
        for k, W in E.W.items():
            for (r, l), (node, via) in W.items():
                if isinstance(r, tuple) and r[0] == "global" and r[1] == d and l is None and (via is None or via not in P.fns or not any(rr == r for rr, _ in E.W[via])): ws.append((P.fns[k], node))
        ws = [(f, n) for f, n in ws if not (v.get("staticlocal") and isinstance(n, dict) and n.get("k") == "var")]
        for f, n in ws:
            ok = init_only(P, f.f) or (d.endswith("PhysicsCommon::mLogger") and f.n == "setLogger") or f.n == "setLogger"
            rep.check(ok, "static %s is written during initialisation only" % d, f.where(n if isinstance(n, dict) else None), "unsynchronised state shared by all the worlds", ident="%s writes static %s" % (f.short(), d))
        if not ws: rep.ok("static %s is never written" % d)
    rep.need(n_stat, 6, "variables with static storage")
    for f in P.fns.values():
        if not own(f): continue
        for n in f.nodes():
            if n.get("k") == "call" and n.get("n") in PROCESS and not any(t in P.fns for t in P.targets(n)):
                rep.bad("%s changes no state of the process" % f.short(), f.where(n), n["n"])
    # ---- R2: what the worlds share is not written through a world
    roots = [f for f in P.fns.values() if f.cls in WORLD and f.acc not in ("private", "np") and own(f)]
    roots += [f for f in P.fns.values() if f.cls == "PhysicsWorld" and f.n in ("update", "ctor", "dtor") and f not in roots]
    rep.need(len(roots), 150, "entry points of worlds and their objects")
    for f in sorted(roots, key=lambda f: f.f):
        rep.analysed(f)
        for l in sorted(E.writes(f.f)):
            c = l.split(".")[0].split("::")[0].split("<")[0]
            if c not in SHARED: continue
            ok = l == "CollisionShape.mColliders" and f.n != "update"
            tr = E.trace(f.f, l)
            rep.check(ok, "%s does not modify %s, which other worlds share" % (f.short(), l), tr[-1][0].where(tr[-1][1]) if tr else f.where(), " -> ".join(g.short() for g, _ in tr), ident="%s writes %s" % (f.short(), l))
        rep.ok("%s: writes nothing shared" % f.short())
    seen = P.reachable(roots)
    for k in sorted(seen):
        g = P.fns.get(k)
        if not g or not own(g): continue
        for n in g.nodes():
            if n.get("k") == "mem" and n.get("n") == "mColliders" and n.get("c") == "CollisionShape":
                # the colliders of a shape belong to any world: a world adds and removes its own, it does not visit the others
                visit = [x for x in g.nodes() if (x.get("k") == "forr" and any(y is n for y in walk(x["range"]))) or (x.get("k") == "call" and x.get("op") == "[]" and any(y is n for y in walk(x)))]
                if visit: rep.check(shape_setter_only(P, E, seen, k), "%s is not reached from a world (it visits the colliders of all worlds)" % g.short(), g.where(n), " -> ".join(P.path_to(seen, k)[-4:]))
        rep.ok("%s: no visit of the colliders of a shape" % g.short())
    # ---- R3: the memory of a frame is not kept between steps
    frame_memory(P, E, rep)
    # ---- R4: the allocators the worlds share are guarded by their mutex
    n_guard = 0
    for c in ("HeapAllocator", "PoolAllocator", "SingleFrameAllocator"):
        fields = {x["n"] for x in P.classes[c]["fields"] if not re.search(r"mutex", x["t"])}
        locked = {}
        ms = [f for f in P.methods(c) if f.n not in ("ctor", "dtor")]
        for f in ms: locked[f.f] = lock_nodes(f)
        for f in sorted(ms, key=lambda f: f.f):
            w = [(n, y) for n in cfg(f).nodes if isinstance(n.x, dict) for y in walk(n.x) if y.get("k") in ("asg", "un") and state_write(y, fields, c)]
            if not w: continue
            rep.analysed(f)
            n_guard += 1
            ok, why = under_lock(P, f, [n for n, _ in w], locked, set())
            rep.check(ok, "%s changes the allocator only while it holds the mutex" % f.short(), f.where(w[0][1]), why, ident="%s unlocked" % f.short())
    rep.need(n_guard, 6, "methods that change a shared allocator")
    rep.count("statics", n_stat); rep.count("entry_points", len(roots)); rep.count("guarded_methods", n_guard)

def shape_setter_only(P, E, seen, k):
    return False

def state_write(y, fields, c):
    if y.get("k") == "un" and y.get("op", "")[:2] not in ("++", "--"): return False
    e = strip(y["a"][0])
    while isinstance(e, dict):
        if e.get("k") == "mem":
            if e.get("n") in fields and e.get("c") == c: return True
            if e.get("c", "").startswith(c + "::"): return True
            e = strip(e.get("b") or {})
        elif e.get("k") == "idx": e = strip(e["a"][0])
        else: return False
    return False

def lock_nodes(f):
    out = set()
    for n in cfg(f).nodes:
        if isinstance(n.x, dict):
            for y in walk(n.x):
                if (y.get("k") == "var" and re.search(r"\b(lock_guard|unique_lock|scoped_lock)<", y.get("t", ""))) or (y.get("k") == "call" and y.get("n") == "lock" and y.get("o") is not None and "mutex" in y["o"].get("t", "")): out.add(n.i)
    return out

def under_lock(P, f, nodes, locked, seen):
    """every node is preceded by the lock, or f is called only under the lock (or while the allocator is built or destroyed)"""
    if f.f in seen: return True, ""
    seen = seen | {f.f}
    G = cfg(f); L = locked.get(f.f, set())
    if L:
        free = G.reach([G.entry], blocked=L)
        if not any(n.i in free and n.i not in L for n in nodes): return True, ""
        return False, "%s can run before the lock is taken" % f.short()
    cs = P.callers().get(f.f, [])
    if f.acc == "public" or not cs: return False, "%s takes no lock" % f.short()
    for g, node in cs:
        if g.n in ("ctor", "dtor"): continue
        if g.cls != f.cls: return False, "%s calls it without the lock" % g.short()
        n = cfg(g).node_of(node)
        ok, why = under_lock(P, g, [n] if n is not None else [], locked, seen)
        if not ok: return ok, why
    return True, ""

# ------------------------------------------------------- frame memory
def frame_fields(P):
    """(class, field) of the containers that are given the frame allocator, followed through constructors that pass it on"""
    out = {}
    def go(fn, tainted, why):
        for i in fn.inits:
            e = i.get("e")
            if not isinstance(e, dict): continue
            hit = False
            for y in walk(e):
                if y.get("k") == "call" and y.get("n") == "getSingleFrameAllocator": hit = True
                if y.get("k") == "ref" and y.get("d") in tainted: hit = True
            if not hit: continue
            if i.get("field"):
                fl = P.field(fn.cls, i["field"])
                if fl and fl["t"].endswith("&"): continue
                c = fl["t"] if fl else ""
                if e.get("k") == "ctor" and e.get("f") in P.fns and "/containers/" not in P.fns[e["f"]].file:
                    g = P.fns[e["f"]]
                    out[(fn.cls, i["field"])] = ("object", c, why)
                    go(g, {p["d"] for k, p in enumerate(g.ps) if "Allocator" in p["t"]}, why + [g.short()])
                else: out[(fn.cls, i["field"])] = ("container", c, why)
    for f in P.fns.values():
        if f.n == "ctor" and own(f): go(f, set(), [f.short()])
    return out

def frame_memory(P, E, rep):
    FF = frame_fields(P)
    cont = {k: v for k, v in FF.items() if v[0] == "container"}
    rep.need(len(cont), 8, "containers given the memory of the frame")
    upd = P.method("PhysicsWorld", "update")
    S = Clean(P, E, FF)
    states = S.at_reset(upd)
    for (c, x), v in sorted(cont.items()):
        lab = c + "." + x
        # only the step uses them
        for f in P.fns.values():
            if f.cls in WORLD and f.acc == "public" and f.n not in ("update", "ctor", "dtor") and own(f) and lab in E.writes(f.f):
                tr = E.trace(f.f, lab)
                rep.bad("%s is used by the step only (its memory is the frame's)" % lab, tr[-1][0].where(tr[-1][1]) if tr else f.where(), " -> ".join(g.short() for g, _ in tr), ident="%s written by %s" % (lab, f.short()))
        st = states.get(lab)
        rep.check(st == {"clean"} if st is not None else False, "%s gives its memory back before the frame memory is reset" % lab, upd.where(), "state at the reset: %s" % (sorted(st) if st else "never cleared"), ident="%s kept across frames" % lab)

class Clean:
    """typestate of the frame containers over the step: written (dirty) or cleared with its memory released (clean)"""
    def __init__(self, P, E, FF):
        self.P = P; self.E = E; self.FF = FF; self.labels = {c + "." + x for (c, x), v in FF.items() if v[0] == "container"}
        self.memo = {}
    def lab_of(self, e):
        e = strip(e)
        while isinstance(e, dict):
            if e.get("k") == "mem":
                l = e.get("c", "") + "." + e["n"]
                if l in self.labels: return l
                return None
            if e.get("k") == "un" and e.get("op") in ("*", "&"): e = strip(e["a"][0])
            elif e.get("k") == "ref" and e.get("isref"): return None
            else: return None
        return None
    def events(self, f, x, depth):
        """ordered effects of a syntax tree: list of (label, 'clean'|'dirty') or summaries {label: fn(set)->set}"""
        out = []
        def go(n):
            if not isinstance(n, dict): return
            for c in children(n): go(c)
            k = n.get("k")
            if k not in ("call", "ctor"): return
            ts = [t for t in self.P.targets(n) if t in self.P.fns]
            if n.get("o") is not None:
                l = self.lab_of(n["o"])
                if l is not None and any("/containers/" in self.P.fns[t].file for t in ts):
                    t = self.P.fns[ts[0]]
                    if t.const: return
                    if self.releases(t, n): out.append(("ev", l, "clean"))
                    elif t.n in ("operator[]", "size", "begin", "end", "clear", "remove", "removeAt", "pop", "find"): pass
                    else: out.append(("ev", l, "dirty"))
                    return
            for t in ts:
                g = self.P.fns[t]
                if "/containers/" in g.file or g.n == "ctor" and "/containers/" in g.file:
                    # handed on by reference to a container operation (swap)
                    for a in n.get("a", []):
                        l = self.lab_of(a)
                        if l is not None: out.append(("ev", l, "dirty"))
                    continue
                s = self.summary(g, depth + 1)
                # containers handed on by reference
                for i, a in enumerate(n.get("a", [])):
                    l = self.lab_of(a)
                    if l is not None and i < len(g.ps) and g.ps[i]["t"].endswith("&") and not g.ps[i]["t"].startswith("const"): out.append(("ev", l, "dirty"))
                if s: out.append(("sum", s, None))
        go(x)
        return out
    def releases(self, t, n):
        """a call of clear() that gives the memory back: its argument (or default) is true"""
        if t.n != "clear": return False
        a = n.get("a", [])
        if not a: return False
        v = strip(a[0])
        if v.get("k") == "defarg" or v.get("k") == "default": v = strip(v.get("e") or {})
        return v.get("k") == "lit" and bool(v.get("v"))
    def summary(self, f, depth=0):
        """label -> {'clean': states, 'dirty': states} after a call, for the labels f touches"""
        if f.f in self.memo: return self.memo[f.f]
        self.memo[f.f] = {}
        if not f.body or depth > 40 or not own(f): return {}
        touched = {l for l in self.E.writes(f.f) if l in self.labels}
        if not touched: return {}
        res = {}
        for l in touched:
            res[l] = {s: self.run(f, l, s, depth)[0] for s in ("clean", "dirty")}
        self.memo[f.f] = res
        return res
    def run(self, f, label, start, depth, stop=None):
        G = cfg(f); IN = {G.entry.i: {start}}; work = [G.entry]; at = set()
        ev = {}
        while work:
            n = work.pop(); s = set(IN[n.i])
            if n.i not in ev: ev[n.i] = self.events(f, n.x, depth) if isinstance(n.x, dict) else []
            if stop is not None and isinstance(n.x, dict) and any(stop(y) for y in walk(n.x)): at |= s
            for kind, a, b in ev[n.i]:
                if kind == "ev" and a == label: s = {b}
                elif kind == "sum" and label in a: s = set().union(*[a[label][q] for q in s]) if s else s
            for t, l in n.succ:
                o = IN.setdefault(t.i, set())
                if not s <= o: o |= s; work.append(t)
        return IN.get(G.exit.i, set()), at
    def at_reset(self, upd):
        """states of each label when the step resets the frame memory"""
        P = self.P
        reset = P.method("MemoryManager", "resetFrameAllocator")
        def stop(y): return y.get("k") == "call" and (y.get("f") == reset.f or (y.get("f") in P.fns and y["f"] != upd.f and reset.f in P.reachable([y["f"]]) and False))
        out = {}
        for l in sorted(self.labels):
            ex, at = self.run(upd, l, "dirty", 0, stop)
            if at: out[l] = at
            else:
                # the reset moved into a helper: the state at the end of the step is what counts
                out[l] = ex
        return out

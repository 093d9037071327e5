"""P18: every pair of shape types is tested, by its own algorithm, in every stage; results are in the caller's order."""
import re, itertools, hashlib
from ..api import *
from ..api import ENUM
from ..terms import *
from ..trace import Trace, loop_range, leaves_early, rowname
from ..model import walk
from .sleeping import key, argkey, nonloop
from .bodyops import enum
from .islands import NEnv, Names, value_under
from .pairs import evaluate
from .filtering import base, call_at, txt, element_loop, settled, CDS
from .persist import constructed, early, plain

TYPES = ("SPHERE", "CAPSULE", "CONVEX_POLYHEDRON", "CONCAVE_SHAPE"); CONVEX = TYPES[:3]
WORD = {"SPHERE": "Sphere", "CAPSULE": "Capsule", "CONVEX_POLYHEDRON": "ConvexPolyhedron"}
PAIRS = [(a, b) for i, a in enumerate(CONVEX) for b in CONVEX[i:]]
def kind(a, b): return WORD[a] + "Vs" + WORD[b]
KINDS = [kind(a, b) for a, b in PAIRS]
def T_(t): return enum("#CollisionShapeType::" + t)
def A_(t): return enum("#NarrowPhaseAlgorithmType::" + t)

def decided(it, guards, e):
    """like holds, for guards that may be cases of a switch"""
    r = True
    for g, p in guards:
        m = re.match(r"case (.*) in (.*)$", g, re.S)
        if m:
            k = m.group(1); v = number(it, {(k,): 1}, e)
            if v is None:
                v = number_atom(it, k, e)
            if v is None: r = None if r else r; continue
            ls = [l.strip() for l in m.group(2).split(",")]
            t = any(v == enum(l if "::" in l else "#NarrowPhaseAlgorithmType::" + l) for l in ls if l not in ("default",))
            if "default" in ls and not t: r = None if r else r; continue
            if t != p: return False
            continue
        h = holds(it, [(g, p)], e)
        if h is False: return False
        if h is None: r = None if r else r
    return r

def ended(it, v, e, depth=12):
    """the value at the end of a decision tree"""
    for _ in range(depth):
        if isinstance(v, Sc) and isconst(v.p): return cval(v.p)
        if isinstance(v, Sc):
            n = number(it, v.p, e)
            if n is not None: return n
            w = value_under(it, v, e)
        else: w = chosen(it, v, e)
        if w is None or w is v: return None
        v = w
    return None

def pick(it, v, e, depth=8):
    """the value with the alternatives the assignment selects"""
    for _ in range(depth):
        n = v.n if isinstance(v, Op) else list(v.p)[0][0] if isinstance(v, Sc) and len(v.p) == 1 and len(list(v.p)[0]) == 1 and list(v.p.values())[0] == 1 else None
        i = it.I.info.get(n) if n else None
        if i and i[0] == "app" and i[1] == "?":
            c = truth_v(it, i[2][0], e)
            if c is None: return v
            v = i[2][1] if c else i[2][2]; continue
        w = value_under(it, v, e) if isinstance(v, Sc) else chosen(it, v, e) if isinstance(v, Op) else None
        if w is None or w is v: return v
        v = w
    return v

# ---------------------------------------------------------------- what shapes are
def shapes(P, rep):
    n = 0
    bases = lambda c: [base(b) for b in P.bases(c)]
    want = {"SphereShape": "SPHERE", "CapsuleShape": "CAPSULE", "ConvexPolyhedronShape": "CONVEX_POLYHEDRON", "ConcaveShape": "CONCAVE_SHAPE"}
    def initial(f, field, env):
        """the value a constructor gives a field, through the constructors of the base classes"""
        def val(x):
            while isinstance(x, dict) and x.get("k") in ("cast", "paren"): x = x["a"][0] if x.get("a") else x.get("e")
            if not isinstance(x, dict): return None
            return x["n"] if x.get("k") == "enum" else env.get(x.get("d")) if x.get("k") == "ref" else None
        for i in f.inits or []:
            if i.get("field") == field: return val(i["e"])
        for i in f.inits or []:
            g = P.fns.get(i["e"].get("f")) if i.get("base") and isinstance(i.get("e"), dict) else None
            if g is not None:
                r = initial(g, field, {q["d"]: val(x) for q, x in zip(g.ps, i["e"].get("a", []))})
                if r: return r
        return None
    seen = set()
    for f in [f for f in P.fns.values() if f.n == "ctor" and f.body is not None]:
        cls = base(f.cls); bs = [cls] + bases(cls)
        t = [want[b] for b in bs if b in want]
        if "CollisionShape" not in bs or cls in ("CollisionShape", "ConvexShape", "ConcaveShape", "ConvexPolyhedronShape") or not t: continue
        if len(f.ps) == 1 and cls + " &" in f.ps[0].get("t", ""): continue
        rep.analysed(f); v = initial(f, "mType", {}); n += 1; seen.add(cls)
        rep.check(v == "CollisionShapeType::" + t[0], "a shape says of which type it is", f.where(), "%s: %s" % (cls, v))
    rep.need(len(seen), 5, "constructors of shapes")
    for cls, w in (("ConvexShape", 1), ("ConcaveShape", 0)):
        f = P.method(cls, "isConvex"); rep.analysed(f); r = Trace(P, f, lambda g: False).ret; n += 1
        rep.check(isinstance(r, Sc) and isconst(r.p) and bool(cval(r.p)) is bool(w), "a shape says whether it is convex", f.where(), cls)
        for g in P.fns.values():
            if g.n == "isConvex" and g.body is not None and g is not f and cls in bases(base(g.cls)):
                r = Trace(P, g, lambda h: False).ret; n += 1
                rep.check(isinstance(r, Sc) and isconst(r.p) and bool(cval(r.p)) is bool(w), "a shape says whether it is convex", g.where(), g.cls)
    f = P.method("CollisionShape", "getType"); rep.analysed(f); n += 1
    rep.check(plain(Trace(P, f, lambda g: False).it, Trace(P, f, lambda g: False).ret).endswith("this.mType"), "a shape says of which type it is", f.where())
    return n

# ---------------------------------------------------------------- the algorithm of a pair of types
def dispatch(P, rep):
    n = 0; fn = P.method("CollisionDispatch", "selectAlgorithm"); rep.analysed(fn); wh = fn.where()
    T = Trace(P, fn, lambda f: f.cls == "CollisionDispatch"); it = T.it; nm = Names(it)
    def sel(a, b):
        e = NEnv(it, nm, [(r"^\$%s$" % re.escape(fn.ps[0]["n"]), T_(a)), (r"^\$%s$" % re.escape(fn.ps[1]["n"]), T_(b))])
        return ended(it, T.ret, e)
    for a, b in itertools.product(TYPES, repeat=2):
        if T_(a) > T_(b): continue          # only ever asked in order
        w = kind(a, b) if (a, b) in PAIRS else "NoCollisionTest"; n += 1
        v = sel(a, b); rep.check(v == A_(w), "two types of shapes are tested by the algorithm for them", wh, "%s and %s: %s" % (a, b, v))
    # the table holds the choice for every pair of types
    fn = P.method("CollisionDispatch", "fillInCollisionMatrix"); rep.analysed(fn); wh = fn.where()
    T = Trace(P, fn, lambda f: False); it = T.it
    ev = [e for e in it.events if pstr(e.path).startswith("this.mCollisionMatrix[")]; n += 2
    if rep.check(len(ev) == 1, "the table of algorithms is filled", wh, str(len(ev))):
        e = ev[0]; idx = [full_text(it.I, x[1:-1]) for x in e.path[-2:]]; rng = {}
        for l in e.loops:
            r = loop_range(it, l, e.guards)
            if r[0] in ("up", "down"):
                lo, hi = (r[2], r[3]) if r[0] == "up" else (r[3], psub(r[2], const(-1)) if False else r[2])
                rng[full_text(it.I, it.loopstart[(l[0], r[1])].key())] = (number(it, lo, {}), full_text(it.I, pkey(hi)))
        ok = all(rng.get(i, (None,))[0] == 0 and re.search(r"^4$|NB_COLLISION_SHAPE_TYPES", rng[i][1]) for i in idx) and idx[0] != idx[1] and not any(early(P, T, l) for l in e.loops)
        rep.check(ok, "every entry of the table of algorithms is filled", wh, str(rng)[:150])
        cs = T.find("CollisionDispatch", "selectAlgorithm")
        ok = any(re.search(r"selectAlgorithm'?\(", full_text(it.I, key(e.new))) and [full_text(it.I, key(a)) for a in c.args[-2:]] == idx for c in cs)
        rep.check(ok, "an entry of the table is the choice for its two types", wh, full_text(it.I, key(e.new))[:100])
    fn = P.method("CollisionDispatch", "selectNarrowPhaseAlgorithm"); rep.analysed(fn); wh = fn.where()
    T = Trace(P, fn, lambda f: False); it = T.it; nm = Names(it)
    for a, b in itertools.product(TYPES, repeat=2):
        e = NEnv(it, nm, [(r"^\$%s$" % re.escape(fn.ps[k]["n"]), T_(x)) for k, x in enumerate((a, b))]); n += 1
        v = pick(it, T.ret, e)
        t = full_text(it.I, key(v)); m = re.match(r"^[<*]*this\.mCollisionMatrix\[(.*)\]\[(.*)\]>?$", t)
        got = []
        for g in m.groups() if m else ():
            got.append(number(it, {(g,): 1}, e) if g not in ("$" + fn.ps[0]["n"], "$" + fn.ps[1]["n"]) else T_(a) if g == "$" + fn.ps[0]["n"] else T_(b))
        rep.check(got == sorted((T_(a), T_(b))), "the algorithm of two types is looked up in order of their types", wh, "%s, %s: %s" % (a, b, t[:100]))
    # after construction the table is filled
    for f in P.fns.values():
        if base(f.cls) == "CollisionDispatch" and f.n == "ctor" and f.body is not None and len(f.ps) == 1 and "Allocator" in f.ps[0].get("t", ""):
            rep.analysed(f); Tc = Trace(P, f, lambda g: False); cs = Tc.find("CollisionDispatch", "fillInCollisionMatrix"); n += 1
            rep.check(len(cs) == 1 and not nonloop(Tc.it, cs[0]), "the table of algorithms is filled from the start", f.where())
    # each algorithm object is of its kind
    for k in KINDS:
        f = P.method("CollisionDispatch", "get%sAlgorithm" % k); rep.analysed(f); Tg = Trace(P, f, lambda g: False); n += 1
        rep.check(plain(Tg.it, Tg.ret) == "this.m%sAlgorithm" % k, "an algorithm is returned as what it is", f.where(), plain(Tg.it, Tg.ret)[:80])
        f = P.method("NarrowPhaseInput", "get%sBatch" % k); rep.analysed(f); Tg = Trace(P, f, lambda g: False); n += 1
        rep.check(plain(Tg.it, Tg.ret) == "this.m%sBatch" % k, "a batch is returned as what it is", f.where(), plain(Tg.it, Tg.ret)[:80])
    # the choice made for a new pair
    fn = P.method("OverlappingPairs", "addPair"); rep.analysed(fn); wh = fn.where(); at = call_at(fn)
    T = Trace(P, fn, lambda f: base(f.cls) in ("OverlappingPairs", "Components", "ColliderComponents") and f.n != "ctor", maxterms=300); it = T.it; nm = Names(it)
    cs = T.find("CollisionDispatch", "selectNarrowPhaseAlgorithm"); S = lambda k: r"mCollisionShapes\[\$%s\]" % re.escape(fn.ps[k]["n"]); flag = re.escape(fn.ps[2]["n"])
    for cv, c1, c2 in ((1, 1, 1), (0, 1, 0), (0, 0, 1)):
        e = NEnv(it, nm, [(r"^\$%s$" % flag, cv), (r"^(?!&\()[\w:]*isConvex'?\(.*%s" % S(0), c1), (r"^(?!&\()[\w:]*isConvex'?\(.*%s" % S(1), c2)] )
        hs = [c for c in cs if holds(it, nonloop(it, c), e) is True]; n += 2
        if not rep.check(len(hs) == 1, "the algorithm of a new pair is chosen once", wh, "%d convex %d %d" % (len(hs), c1, c2)): continue
        c = hs[0]; got = []
        for a in c.args[1:3]:
            v = pick(it, a, e); t = full_text(it.I, key(v))
            x = None
            m = re.search(r"getType'?\((.*)\)>?$", t)
            if m:
                q = m.group(1)
                for k in (0, 1):
                    if re.match(r"^[&<*x]*[\w.:*]*%s>?$" % S(k), q): x = k + 1
                if x is None:
                    # the type of the shape chosen by whether the first is convex
                    m2 = re.match(r"^[&<]*(?:phi|sel)\[.*\]\((.*?) \| (.*)\)>?$", q)
                    k = None
                    if m2 and "isConvex" in q: k = 0 if c1 else 1; x = k + 1 if re.search(S(k), m2.group(1 if c1 else 2)) else None
            elif t.endswith("CollisionShapeType::CONVEX_POLYHEDRON") or t == str(T_("CONVEX_POLYHEDRON")): x = "P"
            got.append(x)
        w = [1, 2] if cv else ["P", 1 if c1 else 2]
        rep.check(sorted(map(str, got)) == sorted(map(str, w)), "the algorithm of a new pair is that for the types of its shapes (triangles for a concave one)", at(c), "convex %d %d: %s" % (c1, c2, [g if g else full_text(it.I, key(a))[:300] for g, a in zip(got, c.args[1:3])]))
        made = [m for m in T.calls if m.n == "emplace" and holds(it, nonloop(it, m), e) is True and re.search(r"m(Convex|Concave)Pairs>?$", full_text(it.I, key(m.args[0])))]
        n += 1
        rep.check(len(made) == 1 and "selectNarrowPhaseAlgorithm" in full_text(it.I, key(made[0].args[6])), "a new pair keeps the algorithm chosen for it", at(c), str([full_text(it.I, key(a))[:60] for m in made for a in m.args[5:8]]))
    return n

# ---------------------------------------------------------------- the batch of an algorithm
def routing(P, rep):
    n = 0; fn = P.method("NarrowPhaseInput", "addNarrowPhaseTest"); rep.analysed(fn); wh = fn.where(); at = call_at(fn)
    T = Trace(P, fn, lambda f: base(f.cls) in ("NarrowPhaseInput", "NarrowPhaseInfoBatch") and f.n != "ctor"); it = T.it; nm = Names(it)
    cs = [c for c in T.calls if c.cls == "Array" and c.n in ("emplace", "add")]
    names = [p["n"] for p in fn.ps]
    want = dict(zip(("pair", "c1", "c2", "s1", "s2", "t1", "t2", "type", "report", "last", "alloc"), names))
    sel = next((p["n"] for p in fn.ps if "NarrowPhaseAlgorithmType" in p.get("t", "")), names[7])
    # the fields of a test
    ctor = [f for f in P.fns.values() if f.n == "ctor" and f.cls.endswith("NarrowPhaseInfo") and len(f.ps) > 5 and f.body is not None][0]; rep.analysed(ctor)
    fields = constructed(P, ctor)[1]; pos = {}
    for k, v in fields.items():
        t = key(v).strip("<>&*")
        for i, p in enumerate(ctor.ps):
            if t == "$" + p["n"]: pos[k] = i
    FIELDS = dict(overlappingPairId="pair", colliderEntity1="c1", colliderEntity2="c2", collisionShape1="s1", collisionShape2="s2", shape1ToWorldTransform="t1", shape2ToWorldTransform="t2", reportContacts="report", lastFrameCollisionInfo="last", collisionShapeAllocator="alloc")
    for k, w in (("isColliding", 0), ("nbContactPoints", 0)):
        v = fields.get(k); n += 1; rep.check(isinstance(v, Sc) and isconst(v.p) and cval(v.p) == w, "a new test has found nothing yet", ctor.where(), "%s: %s" % (k, v and key(v)))
    for k in KINDS:
        e = NEnv(it, nm, [(r"^\$%s$" % re.escape(sel), A_(k))])
        hs = [c for c in cs if decided(it, nonloop(it, c), e) is not False]; n += 1
        if not rep.check(len(hs) == 1 and decided(it, nonloop(it, hs[0]), e) is True, "a test is added to one batch", wh, "%s: %d" % (k, len(hs))): continue
        c = hs[0]; n += 1
        rep.check(txt(it, c.args[0]).replace("*", "") == "this.m%sBatch.narrowPhaseInfos" % k, "a test is added to the batch of its algorithm", at(c), "%s: %s" % (k, txt(it, c.args[0])[:80]))
        for f, w in FIELDS.items():
            n += 1
            if not rep.check(f in pos and pos[f] + 1 < len(c.args), "a test says what it is asked to test", ctor.where(), f): continue
            t = txt(it, c.args[pos[f] + 1]).replace("*", "")
            rep.check(t == "$" + want[w], "a test says what it is asked to test", at(c), "%s %s: %s" % (k, f, t[:60]))
    # contact points of a test
    fn = P.method("NarrowPhaseInfoBatch", "addContactPoint"); rep.analysed(fn); wh = fn.where()
    T = Trace(P, fn, lambda f: base(f.cls) == "NarrowPhaseInfoBatch"); it = T.it; nm = Names(it); ix = r"this\.narrowPhaseInfos\[\$%s\]" % re.escape(fn.ps[0]["n"])
    path = lambda e: full_text(it.I, pstr(e.path)).replace("*", "")
    cnt = [e for e in it.events if re.match(r"^%s\.nbContactPoints$" % ix, path(e))]; n += 2
    rep.check(len(cnt) == 1 and re.fullmatch(r"1\+%s\.nbContactPoints|%s\.nbContactPoints\+1" % (ix, ix), plain(it, cnt[0].new)) is not None, "a contact point found is counted", wh, str([plain(it, e.new)[-60:] for e in cnt]))
    for f, k in (("normal", 1), ("penetrationDepth", 2), ("localPoint1", 3), ("localPoint2", 4)):
        es = [e for e in it.events if re.match(r"^%s\.contactPoints\[(.*)\]\.%s$" % (ix, f), path(e))]; n += 1
        ok = len(es) == 1 and plain(it, es[0].new) == "$" + fn.ps[k]["n"] and re.fullmatch(ix + r"\.nbContactPoints", re.match(r"^%s\.contactPoints\[(.*)\]\.%s$" % (ix, f), path(es[0])).group(1)) is not None and cnt and es[0].guards == cnt[0].guards
        rep.check(ok, "a contact point found is kept at the end of the list of its test", wh, "%s: %s" % (f, [(path(e)[-80:], plain(it, e.new)[:40]) for e in es])[:200] if es else f)
    for e in cnt:
        for k, w in ((0, True), (15, True), (16, False)):
            n += 1; h = holds(it, [g for g in e.guards if not g[0].startswith("L:")], NEnv(it, nm, [("^" + ix + r"\.nbContactPoints$", k), (r"NB_MAX_CONTACT_POINTS_IN_NARROWPHASE_INFO$", 16)]))
            rep.check(h is w, "a contact point found is kept while there is room", wh, "%d: %s" % (k, h))
    return n

# ---------------------------------------------------------------- every stage deals with every batch
def stages(P, rep):
    n = 0
    STAGE = [("NarrowPhaseInput", "reserveMemory", "reserveMemory", 0, "this"), ("NarrowPhaseInput", "clear", "clear", 0, "this"),
             (CDS, "testNarrowPhaseCollision", "testCollision", 1, None), (CDS, "processAllPotentialContacts", "processPotentialContacts", 1, None),
             (CDS, "computeOverlapSnapshotContactPairs", "computeOverlapSnapshotContactPairs", 1, None)]
    for cls, name, callee, arg, owner in STAGE:
        fs = [f for f in P.fns.values() if base(f.cls) == cls and f.n == name and f.body is not None and (cls != CDS or any("NarrowPhaseInput" in p.get("t", "") for p in f.ps))]
        if not rep.check(len(fs) == 1, "%s deals with the batches" % name, str(len(fs))): continue
        fn = fs[0]; rep.analysed(fn); wh = fn.where(); at = call_at(fn)
        inp = owner or "$" + next(p["n"] for p in fn.ps if "NarrowPhaseInput" in p.get("t", ""))
        T = Trace(P, fn, lambda f: base(f.cls) in ("NarrowPhaseInput", "CollisionDispatch") and f.n != "ctor" or base(f.cls) == CDS and f.n not in (callee,)or (base(f.cls) == "NarrowPhaseInfoBatch" and f.n == "getNbObjects"), maxterms=300); it = T.it; nm = Names(it)
        cs = [c for c in T.calls if c.n == callee and (c.cls not in (cls,) or c.n != name or c.fn is not None)]
        others = {}
        for k in KINDS:
            B = "%s.m%sBatch" % (inp, k); mine = []
            for c in cs:
                if len(c.args) <= arg: continue
                t = plain(it, c.args[arg])
                if t == B or re.match(r"^(phi|sel)\[", t) and B in t and not any("m%sBatch" % o in t.split("](", 1)[-1] for o in KINDS if o != k): mine.append(c)
            n += 2
            if not rep.check(len(mine) == 1, "%s deals with each batch once" % name, wh, "%s: %d times" % (k, len(mine))): continue
            c = mine[0]
            size = r"size\(<?&?%s\.narrowPhaseInfos>?\)$" % re.escape(B)
            e = NEnv(it, nm, [(size, 3)])
            rep.check(holds(it, nonloop(it, c), e) is True and not c.loops, "%s deals with a batch whenever it has tests" % name, at(c), "%s: %s" % (k, [full_text(it.I, g[0])[:100] for g in c.guards]))
            if callee == "testCollision":
                n += 3
                rep.check(c.cls == k + "Algorithm" and plain(it, c.args[0]).endswith("m%sAlgorithm" % k), "a batch is tested by its own algorithm", at(c), "%s: %s" % (k, c.cls))
                a = [number(it, x.p, e) if isinstance(x, Sc) else None for x in c.args[2:4]]
                rep.check(a == [0, 3], "all tests of a batch are made", at(c), "%s: from %s, %s" % (k, key(c.args[2]), key(c.args[3])[-100:]))
                if len(c.args) > 5: rep.check(plain(it, c.args[4]) == "$" + fn.ps[1]["n"], "the tests of a batch are made as asked", at(c), plain(it, c.args[4])[:80])
            elif callee not in ("reserveMemory", "clear"):
                rest = tuple(re.sub(r"^.*?(\$\w+|%\w+)[^ ]*$", r"\1", re.sub(r"^.*!\d+\.(\d+)$", r"out.\1", plain(it, a))) for a in c.args[2:])
                others[k] = rest
                for i, p in enumerate(c.args[2:]):
                    pass
        if callee == "processPotentialContacts":
            for c in cs:
                if len(c.args) < 3: continue
                n += 1; rep.check(plain(it, c.args[2]) == "$" + fn.ps[1]["n"], "the contacts of every batch are processed alike", at(c), plain(it, c.args[2])[:80])
        if callee == "testCollision":
            # found exactly if some algorithm found something
            for bits in [tuple(int(i == j) for j in range(6)) for i in range(6)] + [(0,) * 6, (1,) * 6]:
                e = NEnv(it, nm, [(r"^(?!&\(|\|\()[\w]*size\(|^Array<[^()]*>::size'?\(", 3)] + [(r"^%sAlgorithm::testCollision'?\(" % k, v) for k, v in zip(KINDS, bits)])
                r = ended(it, T.ret, e); n += 1
                rep.check(r is not None and bool(r) is any(bits), "a collision is found exactly if one of the algorithms finds one", wh, "%s: %s" % (bits, r))
    return n

# ---------------------------------------------------------------- what a query tells
def telling(P, rep):
    n = 0
    for name, tell, opq in (("computeNarrowPhaseOverlapSnapshot", "onOverlap", ("computeOverlapSnapshotContactPairs",)), ("computeNarrowPhaseCollisionSnapshot", "reportContacts", ("processAllPotentialContacts", "reducePotentialContactManifolds", "createSnapshotContacts"))):
        fn = P.method(CDS, name); rep.analysed(fn); wh = fn.where()
        T = Trace(P, fn, lambda f: base(f.cls) == CDS and f.n not in opq + ("testNarrowPhaseCollision", tell)); it = T.it; nm = Names(it)
        ts = [c for c in T.calls if c.n == tell]; te = [c for c in T.calls if c.n == "testNarrowPhaseCollision"]; n += 1
        if not rep.check(len(te) == 1 and not te[0].guards and not te[0].loops and ts, "a query tests and tells", wh, "%d tests, %d reports" % (len(te), len(ts))): continue
        for f in (0, 1):
            for cb in (0, 1):
                e = NEnv(it, nm, [(r"^CollisionDetectionSystem::testNarrowPhaseCollision'?\(", f), (r"^<?[&*x]*\$callback>?$", cb)])
                g = [holds(it, nonloop(it, c), e) for c in ts]; n += 2
                rep.check(None not in g and sum(g) == (f and (cb or tell != "onOverlap")) and not any(c.loops for c in ts), "a query tells exactly when it finds something", wh, "found %d, callback %d: %s times" % (f, cb, g))
                r = ended(it, T.ret, e); rep.check(r is not None and bool(r) is bool(f), "a query says whether it found something", wh, "found %d: %s" % (f, r))
        if tell == "onOverlap":
            cs = [c for c in T.calls if c.n == opq[0]]; n += 1
            rep.check(len(cs) == 1 and all(cs[0].k < c.k for c in ts) and not cs[0].loops and re.match(r"^(\%s|testNarrowPhaseCollision!\d+\.1)$" % ("$" + fn.ps[0]["n"]), plain(it, cs[0].args[1]).strip("<>")), "an overlap query collects the pairs before it tells", wh, str([plain(it, a)[:40] for c in cs for a in c.args]))
    # the pairs of a batch that overlap
    fs = [f for f in P.fns.values() if base(f.cls) == CDS and f.n == "computeOverlapSnapshotContactPairs" and f.body is not None and any("NarrowPhaseInfoBatch" in p.get("t", "") for p in f.ps)]
    n += 1
    if not rep.check(len(fs) == 1, "an overlap query collects the pairs that overlap", str(len(fs))): return n
    fn = fs[0]; rep.analysed(fn); wh = fn.where(); at = call_at(fn); p = {q["t"].split("::")[-1].split("<")[0].replace("const ", "").strip(" &"): "$" + q["n"] for q in fn.ps}
    B = "$" + fn.ps[0]["n"]; L_ = "$" + fn.ps[1]["n"]; S_ = "$" + fn.ps[2]["n"]
    T = Trace(P, fn, lambda f: base(f.cls) == CDS or base(f.cls) == "NarrowPhaseInfoBatch" and f.n == "getNbObjects", maxterms=300); it = T.it; nm = Names(it)
    adds = [c for c in T.calls if c.n in ("add", "emplace") and plain(it, c.args[0]).strip("<>&") == L_]; marks = [c for c in T.calls if c.n == "add" and plain(it, c.args[0]).strip("<>&") == S_]; n += 1
    if not rep.check(len(adds) == 1 and len(marks) == 1 and len(adds[0].loops) == 1, "an overlap query collects the pairs that overlap", wh, "%d, %d" % (len(adds), len(marks))): return n
    c = adds[0]; l = c.loops[0]; r = loop_range(it, l, c.guards); e = NEnv(it, nm, [(r"size'?\(<?&?%s\.narrowPhaseInfos>?\)$" % re.escape(B), 3)]); n += 2
    rep.check(r[0] == "up" and number(it, r[2], e) == 0 and number(it, r[3], e) == 3, "an overlap query looks at every test", at(c), str(r[0]))
    rep.check(not early(P, T, l), "an overlap query looks at every test", at(c), "the loop can be left early")
    item = "%s.narrowPhaseInfos[" % B
    for col in (0, 1):
        for known in (0, 1):
            e = NEnv(it, nm, [(r"^\%s\.narrowPhaseInfos\[.*\]\.isColliding$" % B, col), (r"^Set<[^(]*>::contains'?\(<?\%s" % S_, known)])
            for x, w in ((adds[0], col and not known), (marks[0], None)):
                h = holds(it, nonloop(it, x), e); n += 1
                rep.check(h is bool(w) if w is not None else h is True or not (col and not known), "an overlap query collects each overlapping pair once", at(x), "overlapping %d, already collected %d: %s" % (col, known, h))
    idx = re.match(r"^.*?narrowPhaseInfos\[(.*)\]\.overlappingPairId$", plain(it, marks[0].args[1])); n += 1
    if not rep.check(idx is not None and r[0] == "up" and full_text(it.I, idx.group(1)).replace(" ", "") == it.loopstart[(l[0], r[1])].key().replace(" ", ""), "an overlap query collects the pair it looks at", at(marks[0]), plain(it, marks[0].args[1])[:100]): return n
    it_ = item + idx.group(1) + "]."
    src = c.args[1:] if c.n == "emplace" else None
    if src is None:
        i = it.I.info.get(c.args[1].n) if isinstance(c.args[1], Op) else None; src = list(i[2]) if i and i[0] == "app" else None
    ct = [f for f in P.fns.values() if f.cls == "ContactPair" and f.n == "ctor" and len(f.ps) == len(src or [])]; n += 1
    if not rep.check(src and ct, "an overlap query collects the pair it looks at", at(c), key(c.args[1])[:100]): return n
    ctor = ct[0]; fields = {}
    from .persist import constructed
    itc, _ = constructed(P, ctor)
    for x in itc.events:
        if x.path[0] == "this" and len(x.path) == 2: fields[x.path[1]] = full_text(itc.I, key(x.new)).replace("*", "").strip("<>")
    val = {"$" + q["n"]: a for q, a in zip(ctor.ps, src)}
    row = {k: r"Components::getEntityIndex'?\(<?&?this\.mCollidersComponents>?;<?%scolliderEntity%d>?\)" % (re.escape(it_), k) for k in (1, 2)}
    WANT = {"pairId": re.escape(it_ + "overlappingPairId"), "collider1Entity": re.escape(it_ + "colliderEntity1"), "collider2Entity": re.escape(it_ + "colliderEntity2")}
    for k in (1, 2): WANT["body%dEntity" % k] = r"this\.mCollidersComponents\.mBodiesEntities\[(@?[\w.]*)?%s\]" % row[k] + "|" + r"this\.mCollidersComponents\.mBodiesEntities\[@?%s\]" % re.escape(it_ + "colliderEntity%d" % k)
    for f, pat in WANT.items():
        n += 1; v = val.get(fields.get(f, "")); t = plain(it, v) if v is not None else fields.get(f, "nothing")
        rep.check(re.match("^<?(%s)>?$" % pat, t), "a collected pair names the two colliders and their bodies", at(c), "%s: %s" % (f, t[:160]))
    v = val.get(fields.get("isTrigger", ""))
    for a in (0, 1):
        for b in (0, 1):
            n += 1
            e = NEnv(it, nm, [(r"^[*x]?this\.mCollidersComponents\.mIsTrigger\[(?!.*colliderEntity%d).*colliderEntity%d" % (3 - k, k), x) for k, x in ((1, a), (2, b))])
            rep.check(v is not None and ended(it, v, e) in (bool(a or b), int(a or b)), "a collected pair is a trigger pair exactly if one of its colliders is a trigger", at(c), "%d %d: %s" % (a, b, plain(it, v)[:160] if v is not None else None))
    return n

# ---------------------------------------------------------------- an algorithm makes all of its tests
def tests(P, rep):
    n = 0
    L = [(k + "Algorithm", "testCollision") for k in KINDS] + [("GJKAlgorithm", "testCollision"), ("SATAlgorithm", "testCollisionSphereVsConvexPolyhedron"), ("SATAlgorithm", "testCollisionConvexPolyhedronVsConvexPolyhedron")]
    for cls, name in L:
        fn = P.method(cls, name); rep.analysed(fn); wh = fn.where()
        i0 = [i for i, p in enumerate(fn.ps) if "NarrowPhaseInfoBatch" in p.get("t", "")][0]; B, S, N = ["$" + fn.ps[i0 + k]["n"] for k in range(3)]
        T = Trace(P, fn, lambda f: False, maxterms=300); it = T.it; nm = Names(it)
        loops = {}
        for x in T.calls + it.events:
            for l in x.loops[:1]: loops.setdefault(l[0], (l, x.guards))
        cover = []
        for sid, (l, g) in loops.items():
            r = loop_range(it, l, g)
            if r[0] == "up":
                e = NEnv(it, nm, [(r"^\%s$" % S, 5), (r"^\%s$" % N, 3)]); lo, hi = number(it, r[2], e), number(it, r[3], e)
                if (lo, hi) == (5, 8): cover.append((l, it.loopstart[(sid, r[1])].key()))
        n += 1
        handed = [c for c in T.calls if c.n.startswith("testCollision") and len(c.args) > 3 and not nonloop(it, c) and not c.loops and plain(it, c.args[1]) == B and [plain(it, a) for a in c.args[2:4]] == [S, N]]
        if not rep.check(cover or handed, "%s deals with all tests it is given" % cls, wh, "no loop from the first to the last"): continue
        for l, v in cover:
            n += 1; why = [x for x in early(P, T, l)]
            rep.check(not why, "%s deals with all tests it is given" % cls, wh, "the loop can be left early")
        # what it says it found
        if cls == "GJKAlgorithm": continue
        if cover and not (handed and T.ret is not None and re.match(r"^[\w:]*%s'?\(" % handed[0].n, full_text(it.I, key(T.ret)))): handed = []
        hits = [e for e in it.events if re.match(r"^%s\.narrowPhaseInfos\[.*\]\.isColliding$" % re.escape(B), full_text(it.I, pstr(e.path)).replace("*", ""))]
        for e in hits:
            n += 1; ixt = re.match(r"^.*?\.narrowPhaseInfos\[(.*)\]\.isColliding$", full_text(it.I, pstr(e.path)).replace("*", "")).group(1)
            rep.check(any(full_text(it.I, v) == ixt for _, v in cover), "the test that found a collision is marked", wh, ixt[:60])
        # found in one step exactly if one of its tests was marked
        marks = [(nonloop(it, e), e.new) for e in hits] + [(nonloop(it, c), Sc(atom(k))) for c in T.calls if c.cls == "SATAlgorithm" and c.n == "testCollisionSphereVsConvexPolyhedron" for k in [result(it, c)] if k]
        if handed:
            t = [full_text(it.I, key(T.ret))] if T.ret is not None else []; n += 1
            rep.check(t and re.match(r"^[\w:]*%s'?\(" % handed[0].n, t[0]), "an algorithm says whether a collision was found", wh, str(t)[:100]); continue
        rv = key(T.ret) if T.ret is not None else ""; fl = re.search(r"(%\w+#\d+)\?\d+", rv)
        acc = [x for x in it.accumulations if fl and pstr(x[0]) == fl.group(1)]; n += 1
        if not rep.check(acc and marks, "an algorithm says whether a collision was found", wh, rv[:100]): continue
        a = acc[-1]; st = it.loopstart.get((a[4], a[0])); bad = None
        says = lambda v: None if v is None else truth_v(it, T.ret, {fl.group(0): v}) if not isconst(T.ret.p) else None
        for s_ in range(300):
            e = REnv(it, s_, {key(st): 0} if st is not None else {})
            m = [holds(it, g, e) for g, _ in marks]; v = [truth_v(it, x, e) for _, x in marks]
            got = says(ended(it, a[2], e)); w = any(x and y for x, y in zip(m, v)); n += 1
            if got is None or bool(got) is not w: bad = "found %s, marked %s" % (got, w); break
            if st is not None and says(ended(it, a[2], REnv(it, s_, {key(st): 1}))) is False: bad = "a collision found before is forgotten"; break
        # each way to find a collision marks the test, and the other way round
        if bad is None and st is not None:
            for conds in ways(it, a[2], {key(st): 0}):
                conds = {k: v for k, v in conds.items() if it.I.info.get(k, ("",))[0] not in ("not", "logic")}
                for s_ in range(12):
                    e = REnv(it, s_, dict(conds)); got = says(ended(it, a[2], e)); n += 1
                    if not got: continue
                    h = [holds(it, g, e) and truth_v(it, x, e) for g, x in marks]
                    if not any(h) and None not in h: bad = "found without a mark"; break
                if bad: break
        rep.check(bad is None, "an algorithm finds a collision exactly if one of its tests is marked", wh, bad)
    return n

def ways(it, v, base, limit=400):
    """the choices of conditions under which a value is not zero"""
    out = []
    def go(v, c):
        if len(out) >= limit: return
        if isinstance(v, Sc) and isconst(v.p):
            if cval(v.p): out.append(c)
            return
        if isinstance(v, Sc) and len(v.p) == 1:
            (m, k), = v.p.items()
            if len(m) == 1:
                if m[0] in base: return
                i = it.I.info.get(m[0])
                if i and i[0] in ("phi", "sel") and isinstance(i[1], str):
                    for val, b in ((1, i[2]), (0, i[3])):
                        d = c.get(i[1]); d = truth(it, i[1], c) if d is None else d
                        if d is None: go(b, assigned(it, c, i[1], val))
                        elif d == val: go(b, c)
                    return
        out.append(c)
    go(v, dict(base)); return out
def assigned(it, c, k, val):
    """the condition has the value, and so have the parts it determines"""
    c = dict(c); c[k] = val; i = it.I.info.get(k)
    if i and i[0] == "not" and isinstance(i[1], Sc): return assigned(it, c, key(i[1]), 1 - val)
    if i and i[0] == "logic" and (i[1] == "&&") == bool(val):
        for x in i[2:4]:
            if isinstance(x, Sc): c = assigned(it, c, key(x), val)
    return c

class REnv:
    """a choice of truth values of the elementary conditions"""
    def __init__(self, it, seed, base): self.it = it; self.s = seed; self.base = base; self.loopval = True; self.memo = {}
    def __contains__(self, k): return self[k] is not None
    def __getitem__(self, k):
        if k in self.base: return self.base[k]
        if k not in self.memo:
            i = self.it.I.info.get(k)
            r = None
            if i and i[0] in ("not", "logic"): r = truth_inf(self.it, i, self)
            elif i and i[0] in ("phi", "sel") and isinstance(i[1], str):
                c = truth(self.it, i[1], self); b = i[2] if c else i[3]
                r = number(self.it, b.p, self) if c is not None and isinstance(b, Sc) else None
            if r is not None: self.memo[k] = r
            elif i and (i[0] == "app" and i[1] in ("|", "&", "^", "operator|", "operator&")): self.memo[k] = None
            else: self.memo[k] = hashlib.sha1(("%d %s" % (self.s, k)).encode()).digest()[0] & 1
        return self.memo[k]
    def get(self, k, d=None): return self[k] if k in self else d

def result(it, c):
    """the name of what a call returned"""
    for k, i in it.I.info.items():
        if i[0] == "app" and re.match(r"^(\w+::)*%s'?$" % c.n, str(i[1])) and [key(x) for x in i[2]] == [key(x) for x in c.args]: return k
    return None

# ---------------------------------------------------------------- the order of the two shapes does not matter
class Mirror(Interp):
    """interpretation for given types of the two shapes of a test; flipped: what is called the first shape is called the second"""
    types = None; flip = False
    def ev_ref(self, x, st):
        return Interp.ev_ref(self, self.other(x), st)
    def ev(self, x, st):
        return Interp.ev(self, self.other(x), st)
    def other(self, x):
        if self.flip and isinstance(x, dict) and x.get("k") == "mem" and x.get("n") in OTHER and not x.get("swapped"): return dict(x, n=OTHER[x["n"]], swapped=True)
        return x
    def hook(self, x, fn, st):
        n = x.get("n")
        if n in ("getType",) and x.get("o") is not None and self.types:
            o = self.ev(x["o"], st) if x.get("ar") else self.ev_ref(x["o"], st)
            t = full_text(self.I, key(o)).replace("*", "").replace(" ", "")
            for k, w in ((1, "collisionShape1"), (2, "collisionShape2")):
                if re.search(r"\.%s>?$" % w, t): return Sc(atom("#CollisionShapeType::" + self.types[k - 1]))
        if n in RESULTS:
            args = [self.rv(self.ev_ref(a, st), a.get("t")) for a in x.get("a", [])]
            self.found.append((n, tuple(self.guards), args, self.stack[-1], x)); return Sc(ZERO)
        return None
    def binop(self, x, st):
        r = Interp.binop(self, x, st)
        if x.get("op") in ("==", "!=") and isinstance(r, Sc) and not isconst(r.p):
            k = key(r); i = self.I.info.get(k)
            neg = i and i[0] == "not"
            if neg: i = self.I.info.get(key(i[1]))
            if i and i[0] == "cmp" and i[1] == "==":
                ms = list(i[2])
                if len(ms) == 2 and all(len(m) == 1 and m[0].startswith("#CollisionShapeType::") for m in ms): return Sc(const(1 if neg else 0))
        return r
RESULTS = ("addContactPoint", "computeSmoothTriangleMeshContact", "computeCapsulePolyhedronFaceContactPoints")
OTHER = {"collisionShape1": "collisionShape2", "shape1ToWorldTransform": "shape2ToWorldTransform"}; OTHER.update({b: a for a, b in OTHER.items()})

def clean(t): return re.sub(r"(%\w+)#\d+(\?\d+)?", r"\1", re.sub(r"!\d+\.", "!", t)).replace("*", "x").replace(" ", "")

def comps(it, v):
    """the components of a vector"""
    return [it.select(v, c, "float") for c in "xyz"]

def alternative(it, p):
    """an atom of a polynomial that is a choice between two values"""
    for m in p:
        for a in m:
            i = it.I.info.get(a)
            if i and i[0] in ("phi", "sel") and isinstance(i[1], str): return i[1]
    return None
def under(it, p, c, val):
    """a polynomial once a condition is known"""
    r = {}
    for m, k in p.items():
        f = const(k)
        for a in m:
            i = it.I.info.get(a)
            if i and i[0] in ("phi", "sel") and i[1] == c:
                b = i[2] if val else i[3]
                f = pmul(f, b.p if isinstance(b, Sc) else atom(a))
            else: f = pmul(f, atom(a))
        r = padd(r, f)
    return r

def same_value(A, u, B, w, sign=1, depth=8):
    """two scalars agree (or are opposite) whatever the conditions they depend on"""
    p, q = u.p, w.p
    if sign < 0: q = pneg(q)
    def t(it, p): return sorted((round(float(c), 9), tuple(sorted(clean(full_text(it.I, a)) for a in m))) for m, c in p.items())
    if t(A, p) == t(B, q): return True
    if not depth: return False
    c = alternative(A, p); d = None
    if c is None:
        d = alternative(B, q)
        if d is None: return False
        ct = clean(full_text(B.I, d)); c = next((k for k in A.I.info if k == d or clean(full_text(A.I, k)) == ct), None)
    else:
        ct = clean(full_text(A.I, c)); d = next((k for k in B.I.info if k == c or clean(full_text(B.I, k)) == ct), None)
    return all(same_value(A, Sc(under(A, p, c, v)), B, Sc(under(B, q, d, v)), 1, depth - 1) for v in (True, False))

def outward(it, v, depth=8, seen=None):
    """-1 or 1 for each way in which the vector component is the face normal of a polyhedron, turned"""
    seen = seen if seen is not None else set()
    if not isinstance(v, Sc) or len(v.p) != 1: return set()
    (m, c), = v.p.items()
    if len(m) != 1 or c not in (1, -1) or not depth or m[0] in seen: return set()
    a = m[0]; seen = seen | {a}; c = int(c); up = lambda r: {c * x for x in r}
    i = it.I.info.get(a)
    if i and i[0] in ("phi", "sel"): return up(outward(it, i[2], depth - 1, seen) | outward(it, i[3], depth - 1, seen))
    t = full_text(it.I, a); x = a[:-2] if a[-2:] in (".x", ".y", ".z") else None
    if x is None: return set()
    if re.match(r"^ConvexPolyhedronShape::getFaceNormal'?\(", t): return {c}
    i = it.I.info.get(x)
    if i and i[0] == "app" and re.match(r"^(\w+::)*operator\*'?$", str(i[1])) and len(i[2]) == 2:
        o = i[2][1]
        if isinstance(o, Op) and re.match(r"^ConvexPolyhedronShape::getFaceNormal'?\(", full_text(it.I, o.n)): return {c}
        s = [outward(it, q, depth - 1, seen) for q in comps(it, o)] if isinstance(o, (Op, St)) else [set()]
        return up(set().union(*s))
    if i and i[0] == "app" and re.match(r"^ConvexPolyhedronShape::getFaceNormal'?$", str(i[1])): return {c}
    r = set()
    for k, st in it.loopstart.items():   # what the loop leaves in a variable
        if isinstance(st, Sc) and key(st) == a or isinstance(st, Op) and st.n == x:
            for w in it.accumulations:
                if w[4] == k[0] and w[0] == k[1]:
                    for y in w[1:3]: r |= outward(it, y if isinstance(y, Sc) else it.select(y, a[-1], "float"), depth - 1, seen)
    return up(r)

def mirrored(P, rep):
    n = 0
    UNITS = [("SphereVsCapsuleAlgorithm", "testCollision", ("SPHERE", "CAPSULE")), ("SATAlgorithm", "testCollisionSphereVsConvexPolyhedron", ("SPHERE", "CONVEX_POLYHEDRON")),
             ("SATAlgorithm", "testCollisionCapsuleVsConvexPolyhedron", ("CAPSULE", "CONVEX_POLYHEDRON")), ("CapsuleVsConvexPolyhedronAlgorithm", "testCollision", ("CAPSULE", "CONVEX_POLYHEDRON")),
             ("SATAlgorithm", "computeCapsulePolyhedronFaceContactPoints", None)]
    SAME = "a test finds the same contacts whichever shape comes first"
    for cls, name, types in UNITS:
        fn = P.method(cls, name); rep.analysed(fn); wh = fn.where(); R = []
        for flip in (0, 1):
            it = Mirror(P, lambda f: not (f.cls == "SATAlgorithm" and f.n.startswith("compute") and f.n not in RESULTS) and (base(f.cls) not in ("Vector3", "") or f.n == "normalize" or f.n.startswith("compute") or f.n in ("clipSegmentWithPlanes",)), maxterms=200, depth=14, mapname=rowname)
            it.types = types; it.flip = bool(flip) and types is not None; it.found = []
            if types is None:
                p = [q for q in fn.ps if q["t"].replace("const ", "") == "bool"][-1]; it.assume = {"$" + p["n"]: not flip}
            it.run(fn); R.append((it, it.found))
        (A, fa), (B, fb) = R; n += 1
        if not rep.check(len(fa) == len(fb) and fa and [x[0] for x in fa] == [x[0] for x in fb], SAME, wh, "%s %s" % ([x[0] for x in fa], [x[0] for x in fb])): continue
        tx = lambda it, v: clean(full_text(it.I, key(v)))
        for (na, ga, aa, fna, xa), (nb, gb, ab, fnb, xb) in zip(fa, fb):
            at = fna.where(xa)
            normal = {"addContactPoint": 1, "computeSmoothTriangleMeshContact": 7, "computeCapsulePolyhedronFaceContactPoints": 5}[na] if types else -1
            sw = {"addContactPoint": ((3, 4),), "computeSmoothTriangleMeshContact": ((0, 1), (2, 3), (4, 5)) if types else ((2, 3),), "computeCapsulePolyhedronFaceContactPoints": ()}[na]
            ix = list(range(len(aa)))
            for i, j in sw: ix[i], ix[j] = j, i
            for i in range(len(aa)):
                n += 1; u, w = aa[i], ab[ix[i]]
                if na.startswith("computeCapsule") and i == len(aa) - 1:
                    rep.check(isinstance(u, Sc) and isinstance(w, Sc) and isconst(u.p) and isconst(w.p) and bool(cval(u.p)) is True and bool(cval(w.p)) is False, "it is told on which shape a contact point is", at, key(u)[:80]); continue
                s = -1 if i == normal else 1
                ok = (s > 0 and tx(A, u) == tx(B, w)) or isinstance(u, Sc) and isinstance(w, Sc) and same_value(A, u, B, w, s)
                if not ok and isinstance(u, (Op, St)) and isinstance(w, (Op, St)): ok = all(isinstance(p, Sc) and isinstance(q, Sc) and same_value(A, p, B, q, s) for p, q in zip(comps(A, u), comps(B, w)))
                rep.check(ok, "the contact normal goes from the first to the second shape whichever comes first" if s < 0 else SAME, at, "%s argument %d: %s and %s" % (na, i + 1, tx(A, u)[-100:], tx(B, w)[-100:]))
            if types and types[1] == "CONVEX_POLYHEDRON":
                # the faces of the second shape look towards the first one
                n += 1; sg = set().union(*[outward(A, c) for c in comps(A, aa[normal])])
                rep.check(sg <= {-1}, "the contact normal goes from the first to the second shape", at, "%s %s" % (sorted(sg), tx(A, comps(A, aa[normal])[0])[:160]))
            if cls == "CapsuleVsConvexPolyhedronAlgorithm": continue   # asks for the normal that another test found, which is the other way round
            n += 1; cg = lambda it, gs: sorted(clean(full_text(it.I, str(g[0]))) + str(g[1:2]) for g in gs)
            rep.check(cg(A, ga) == cg(B, gb), SAME, at, "under different conditions")
    return n

def check_P18(P, rep):
    for d in ("CollisionShapeType", "NarrowPhaseAlgorithmType"):
        for c in P.enums[d]["a"]: ENUM["#" + c["n"]] = c["v"]
    n = shapes(P, rep) + dispatch(P, rep) + routing(P, rep) + stages(P, rep) + telling(P, rep) + tests(P, rep) + mirrored(P, rep)
    rep.count("obligations", n)

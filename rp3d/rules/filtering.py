"""P17: who may interact with whom: filters of pairs, steps, queries and rays; triggers never push."""
import re, itertools
from ..api import *
from ..terms import *
from ..trace import Trace, loop_range, leaves_early
from ..model import walk
from ..cfg import cfg
from .sleeping import key, argkey, nonloop
from .islands import NEnv, Names
from .steps import covers

CDS = "CollisionDetectionSystem"; CC = "ColliderComponents"
INL = (CDS, "Components", CC, "Collider", "LastFrameCollisionInfo")
def base(c): return c.split("<")[0].split("::")[-1]
def inl(*more): return lambda f: base(f.cls) in INL + more and not (base(f.cls) == "Collider" and f.n in ("ctor", "dtor"))
def call_at(fn): return lambda c: c.fn.where(c.node if isinstance(c.node, dict) else None) if c.fn else fn.where()
def txt(it, v): return full_text(it.I, key(v)).strip("<>&")
def col(name, k, o):
    """a column of collider k of a pair: the other collider is not mentioned"""
    return r"^(?!.*%s)[<*&x]*(?:this|[\w.*\[\]@?#%%-]+)\.(?:m\w+\.)?(?:mColliderComponents|mCollidersComponents)\.%s\[.*%s.*\]$" % (o, name, k)
def eq(a, b, v):
    """patterns of the (in)equality of two entities, in both orders"""
    out = []
    for x, y in ((a, b), (b, a)):
        out += [(r"operator==\(<?%s>?; <?%s>?\)$" % (x, y), v), (r"operator!=\(<?%s>?; <?%s>?\)$" % (x, y), 1 - v)]
    return out

def element_loop(it, c, what, fn, listrx):
    """the call happens for every element of a list"""
    ls = [l for l in c.loops]
    if not ls: return "not in a loop"
    if leaves_early(c.fn if any(id(l[1]) == id(x) for l in ls for x in c.fn.nodes()) else fn, ls[0][1]): return "the loop can be left early"
    r = loop_range(it, ls[0], c.guards)
    if r[0] == "each": return None if re.search(listrx, r[3]) else "runs over " + r[3][:80]
    if r[0] == "up" and not r[2] and re.search(r"size\(<?&?[*x]*" + listrx, full_text(it.I, pkey(r[3]))): return None
    if r[0] == "down" and not r[3] and re.search(r"size\(<?&?[*x]*" + listrx, full_text(it.I, pkey(r[2]))): return None
    if r[0] == "iter" and re.search(listrx, str(r[3])): return None
    return "range not the whole list: " + str(r)[:120]

# ---------------------------------------------------------------- the step and the world queries
FLAGS = ("q", "s1", "s2", "t1", "t2", "w1", "w2", "e1", "e2", "need")
def middle(P, rep):
    n = 0
    fn = P.method(CDS, "computeMiddlePhase"); rep.analysed(fn); wh = fn.where(); at = call_at(fn)
    T = Trace(P, fn, inl(), maxterms=300); it = T.it; nm = Names(it)
    for c in T.calls:
        for f in c.chain: rep.analysed(f)
    need, query = ["$" + fn.ps[k]["n"] for k in (1, 2)]
    adds = [c for c in T.calls if c.n == "addNarrowPhaseTest"]
    for tab in ("Convex", "Concave"):
        PR = r"this\.mOverlappingPairs\.m%sPairs\[[^\]]*\]\." % tab
        cs = [c for c in adds if re.match(r"^[*x]*" + PR + "pairID$", argkey(T, c, 1).strip("<>"))]
        if not rep.check(bool(cs), "pairs of the %s table are handed to the narrow phase" % tab, wh): continue
        for c in cs:
            why = element_loop(it, c, tab, fn, r"this\.mOverlappingPairs\.m%sPairs" % tab); n += 1
            rep.check(why is None, "every pair of the %s table is considered" % tab, at(c), why)
            n += sides(rep, T, c, PR, at(c), tab)
        C1, C2 = PR + "collider1", PR + "collider2"
        def env(v):
            p = [(r"^\$%s$" % query[1:], v["q"]), (r"^\$%s$" % need[1:], v["need"])]
            for k, (a, o) in enumerate((("collider1", "collider2"), ("collider2", "collider1")), 1):
                p += [(col("mIsSimulationCollider", a, o), v["s%d" % k]), (col("mIsTrigger", a, o), v["t%d" % k]), (col("mIsWorldQueryCollider", a, o), v["w%d" % k]),
                      (r"^(?!.*%s)@.*%s(\]\.mEntity)?$" % (o, a), 2 if v["e%d" % k] else 3), (r"mIsEntityDisabled|getIsEntityDisabled\(.*%s\)?>?\)$" % a, 1 - v["e%d" % k])]
            p += [(r"mDisabledStartIndex$|getNbEnabledComponents\(", 3), (r"isShape1Convex$", 1), (r"mNbComponents$", 9)]
            return NEnv(it, nm, p)
        bad = set()
        for bits in itertools.product((0, 1), repeat=len(FLAGS)):
            v = dict(zip(FLAGS, bits)); e = env(v); n += 1
            want = bool(v["w1"] and v["w2"]) if v["q"] else bool((v["s1"] or v["t1"]) and (v["s2"] or v["t2"]) and (v["e1"] or v["e2"]))
            hs = [holds(it, nonloop(it, c), e) for c in cs]
            state = lambda: ", ".join("%s=%d" % (k, v[k]) for k in FLAGS)
            what = "a query tests a pair exactly if both colliders are world query colliders" if v["q"] else "a step tests a pair exactly if both colliders are simulation colliders or triggers and a body is awake"
            if (None in hs and not any(hs)) or any(h for h in hs if h) is not want:
                if what not in bad: bad.add(what); rep.check(False, what, at(cs[0]), "%s table, %s: tested %s" % (tab, state(), hs))
                continue
            if not want: continue
            c = next(c for c, h in zip(cs, hs) if h); r = truth_v(it, c.args[9], e); n += 1
            if r is None and isinstance(c.args[9], Sc): r = number(it, c.args[9].p, e)
            w = bool(v["need"] and not v["t1"] and not v["t2"])
            if (r is None or bool(r) is not w) and "t" not in bad:
                bad.add("t"); rep.check(False, "contacts are wanted of a pair exactly if they were asked for and neither collider is a trigger", at(c), "%s table, %s: %s" % (tab, state(), r))
        rep.check(True, "", wh)
        rs = [e for e in it.events if re.match(PR + "collidingInCurrentFrame$", full_text(it.I, pstr(e.path)).replace("*", "")) and isinstance(e.new, Sc) and not e.new.p and not [g for g in e.guards if not g[0].startswith("L:")] and e.loops]
        rep.check(bool(rs), "a pair of the %s table is not colliding until the narrow phase says so" % tab, wh); n += 1
    # the step asks for contacts, the world queries for what they report
    for name, n_, want in (("computeCollisionDetection", 0, (1, 0)), ("testOverlap", 1, (0, 1)), ("testCollision", 1, (1, 1))):
        for f in [f for f in P.fns.values() if f.cls == CDS and f.n == name and f.body is not None and len(f.ps) == n_]:
            rep.analysed(f); Tq = Trace(P, f, lambda g: g.cls == CDS and g.n not in ("computeMiddlePhase", "computeBroadPhase", "computeNarrowPhase") and not g.n.startswith("computeNarrowPhase"))
            cs = Tq.find(CDS, "computeMiddlePhase"); n += 1
            ok = len(cs) == 1 and not cs[0].guards and [bool(cval(a.p)) if isinstance(a, Sc) and isconst(a.p) else None for a in cs[0].args[2:4]] == [bool(x) for x in want]
            rep.check(ok, "%s tests all pairs as what it is" % name, f.where(), str([key(a) for c in cs for a in c.args[1:]])[:120])
    return n

def sides(rep, T, c, PR, at, tab):
    """everything handed on as first (second) belongs to the first (second) collider"""
    it = T.it; n = 0
    for pos, k in ((2, 1), (3, 2)): 
        n += 1; rep.check(re.match(r"^[*x]*%scollider%d$" % (PR, k), argkey(T, c, pos).strip("<>&")), "the narrow phase is told the two colliders of the pair in order", at, argkey(T, c, pos)[:120])
    for pos, k, col_ in ((4, 1, "mCollisionShapes"), (5, 2, "mCollisionShapes"), (6, 1, "mLocalToWorldTransforms"), (7, 2, "mLocalToWorldTransforms")):
        for conv in (0, 1):
            e = NEnv(it, Names(it), [(r"isShape1Convex$", conv)])
            v = settled(it, c.args[pos], e)
            t = txt(it, v); n += 1
            ok = re.match(r"^[*x]*this\.mCollidersComponents\.%s\[@[*x]*%scollider%d\]$" % (col_, PR, k), t) is not None
            if tab == "Concave" and col_ == "mCollisionShapes" and (k == 1) != bool(conv): ok = isinstance(v, Ptr) and v.path[0].startswith("new") or "TriangleShape" in t
            rep.check(ok, "the shapes and transforms tested are those of the colliders, in order", at, "%s %d, first shape convex %d: %s" % (col_, k, conv, t[:140]))
    return n

def settled(it, v, e, depth=6):
    """the alternative the assignment selects; a variable that a loop leaves alone under it keeps its value"""
    for _ in range(depth):
        i = it.I.info.get(v.n) if isinstance(v, Op) else None
        if i and i[0] in ("phi", "sel"):
            w = chosen(it, v, e)
            if w is None or w is v: return v
            v = w; continue
        for (sid, path), st in it.loopstart.items():
            if isinstance(st, Op) and isinstance(v, Op) and st.n == v.n:
                acc = [a for a in it.accumulations if a[4] == sid and a[0] == path]
                if acc and key(chosen(it, acc[0][2], e) or acc[0][2]) == key(st): v = acc[0][1]; break
        else: return v
    return v

def snapshot(P, rep):
    n = 0; fn = P.method(CDS, "computeMiddlePhaseCollisionSnapshot"); rep.analysed(fn); wh = fn.where(); at = call_at(fn)
    T = Trace(P, fn, inl(), maxterms=300); it = T.it; nm = Names(it)
    lists = {"Convex": "$" + fn.ps[0]["n"], "Concave": "$" + fn.ps[1]["n"]}; report = fn.ps[3]["n"]
    adds = [c for c in T.calls if c.n == "addNarrowPhaseTest"]
    for tab, L in lists.items():
        PR = r"this\.mOverlappingPairs\.m%sPairs\[.*\]\." % tab
        cs = [c for c in adds if re.match(r"^[*x<]*" + PR + "collider1>?$", argkey(T, c, 2))]
        if not rep.check(len(cs) == 1, "the pairs of the %s list are handed to the narrow phase" % tab, wh, str(len(cs))): continue
        c = cs[0]; why = element_loop(it, c, tab, fn, re.escape(L)); n += 2
        rep.check(why is None, "every pair of the %s list is considered" % tab, at(c), why)
        t = argkey(T, c, 2); rep.check(re.search(r"mMap%sPairIdToPairIndex\[%s\[" % (tab, re.escape(L)), t), "a pair of the %s list is looked up in the %s table" % (tab, tab), at(c), t[:140])
        n += sides(rep, T, c, PR, at(c), tab)
        for bits in itertools.product((0, 1), repeat=5):
            w1, w2, rp, t1, t2 = bits; n += 1
            p = [(r"^\$%s$" % report, rp), (r"isShape1Convex$", 1)]
            for k, (a, o) in enumerate((("collider1", "collider2"), ("collider2", "collider1"))):
                p += [(col("mIsWorldQueryCollider", a, o), (w1, w2)[k]), (col("mIsTrigger", a, o), (t1, t2)[k])]
            e = NEnv(it, nm, p); h = holds(it, nonloop(it, c), e)
            rep.check(h is bool(w1 and w2), "a query about bodies tests a pair exactly if both colliders are world query colliders", at(c), "%s, query colliders %d %d: %s" % (tab, w1, w2, h))
            if h:
                r = truth_v(it, c.args[9], e); rep.check(r is bool(rp and not t1 and not t2), "contacts are wanted exactly if the query asks for them and neither collider is a trigger", at(c), "%s: asked %d, triggers %d %d, wanted %s" % (tab, rp, t1, t2, r)); n += 1
    # the lists
    for f in [f for f in P.fns.values() if f.cls == CDS and f.n == "filterOverlappingPairs" and f.body is not None]:
        rep.analysed(f); nb = len(f.ps) - 2; Tf = Trace(P, f, inl(), maxterms=200); fi = Tf.it; fa = call_at(f); fnm = Names(fi)
        B = ["$" + p["n"] for p in f.ps[:nb]]
        for k, tab in enumerate(("Convex", "Concave")):
            L = "$" + f.ps[nb + k]["n"]; cs = [c for c in Tf.calls if c.n in ("add", "emplace") and argkey(Tf, c, 0).strip("<>&") == L]
            if not rep.check(len(cs) == 1, "the %s pairs of a body are listed once" % tab, f.where(), str(len(cs))): continue
            c = cs[0]; why = element_loop(fi, c, tab, f, r"this\.mOverlappingPairs\.m%sPairs" % tab); n += 2
            rep.check(why is None, "every %s pair is examined" % tab, fa(c), why)
            PR = r"this\.mOverlappingPairs\.m%sPairs\[[^\]]*\]" % tab
            m = re.match(r"^[*x]*(%s)\.pairID$" % PR, argkey(Tf, c, 1).strip("<>")); rep.check(m, "the pair listed is the one examined", fa(c), argkey(Tf, c, 1)[:120])
            BO = [r"[*x]*this\.mCollidersComponents\.mBodiesEntities\[@[*x]*%s\.collider%d\]" % (PR, q) for q in (1, 2)]
            for own in itertools.product(range(3 if nb == 2 else 2), repeat=2):    # body of collider 1, 2: 0 the first asked for, 1 the second (or another), 2 another
                if own[0] == own[1]: continue
                p = []
                for q in (0, 1):
                    for b in range(nb): p += eq(BO[q], re.escape(B[b]), 1 if own[q] == b else 0)
                h = holds(fi, nonloop(fi, c), NEnv(fi, fnm, p)); want = set(own) == {0, 1} if nb == 2 else 0 in own; n += 1
                rep.check(h is want, "a pair is listed exactly if it is between the bodies asked for", fa(c), "%s pairs, bodies %s: %s" % (tab, own, h))
    # each query uses the pairs of its bodies
    for name, want in (("testOverlap", 0), ("testCollision", 1)):
        for f in [f for f in P.fns.values() if f.cls == CDS and f.n == name and f.body is not None and any(p["t"].startswith("Body") or "Body *" in p["t"] for p in f.ps)]:
            rep.analysed(f); Tq = Trace(P, f, lambda g: g.cls in ("Body",) and g.n == "getEntity"); qi = Tq.it; qn = Names(qi); n += 4
            bodies = ["$" + p["n"] for p in f.ps if "Body" in p["t"]]
            fl = Tq.find(CDS, "filterOverlappingPairs"); mp = Tq.find(CDS, "computeMiddlePhaseCollisionSnapshot")
            if not rep.check(len(fl) == 1 and len(mp) == 1 and not fl[0].guards and fl[0].k < mp[0].k, "%s looks for the pairs of its bodies and tests them" % name, f.where()): continue
            a = [argkey(Tq, fl[0], k) for k in range(1, len(bodies) + 3)]
            rep.check(sorted(re.sub(r"[<>*&x]|\.mEntity", "", x) for x in a[:len(bodies)]) == sorted(re.sub(r"[<>*&x]|\.mEntity", "", b) for b in bodies), "%s looks for the pairs of its own bodies" % name, f.where(fl[0].node), str(a)[:160])
            m = [argkey(Tq, mp[0], 1 + k).strip("<>&") for k in (0, 1)]; suf = [re.match(r"^filterOverlappingPairs!\d+\.(\d+)$", x) for x in m]
            rep.check(all(suf) and int(suf[0].group(1)) + 1 == int(suf[1].group(1)), "the lists filled are the ones tested", f.where(mp[0].node), str(m)[:160])
            v = mp[0].args[4]; rep.check(isinstance(v, Sc) and isconst(v.p) and bool(cval(v.p)) is bool(want), "%s asks for contacts only if it reports them" % name, f.where(mp[0].node), key(v))
            nl = nonloop(qi, mp[0]); ok = []
            for v1, v2 in ((1, 0), (0, 1), (1, 1)):
                e = NEnv(qi, qn, [(r"size\(<?%s>?\)$" % re.escape(m[0]), v1), (r"size\(<?%s>?\)$" % re.escape(m[1]), v2)]); ok.append(holds(qi, nl, e))
            rep.check(all(ok), "the pairs are tested whichever list they are in", f.where(mp[0].node), str([g[0][:100] for g in nl]))
    return n

# ---------------------------------------------------------------- which pairs exist
def pair_filter(P, rep):
    n = 0; fn = P.method(CDS, "updateOverlappingPairs"); rep.analysed(fn); wh = fn.where(); at = call_at(fn)
    T = Trace(P, fn, inl(), maxterms=300); it = T.it; nm = Names(it)
    adds = [c for c in T.calls if c.cls == "OverlappingPairs" and c.n == "addPair"]; rem = [c for c in T.calls if c.cls == "OverlappingPairs" and c.n == "removePair"]
    if not rep.check(bool(adds) and bool(rem), "overlapping nodes become pairs, and pairs not allowed any more are removed", wh): return 0
    N = "$" + fn.ps[0]["n"]
    for c in adds + rem:
        why = element_loop(it, c, "", fn, re.escape(N)); n += 1; rep.check(why is None, "every pair of overlapping nodes is examined", at(c), why)
    F, S = r"\.first\b", r"\.second\b"
    def rowpat(k): return r"[*x]*this\.mMapBroadPhaseIdToColliderEntity\[%s\[[^\]]*\]\.%s\]" % (re.escape(N), k)
    B = [r"[*x]*this\.mCollidersComponents\.mBodiesEntities\[@%s\]" % rowpat(k) for k in ("first", "second")]
    for c in adds:
        rows = sorted(txt(it, a) for a in c.args[1:3]); n += 1
        rep.check(all(re.match("^@%s$" % rowpat(k), t) for k, t in zip(("first", "second"), rows)), "the pair made is that of the two nodes", at(c), str(rows)[:160])
    ids = {argkey(T, c, 1) for c in rem}
    for i in ids: n += 1; rep.check(re.search(r"pairNumbers\(max\(", i) and i.count(".first") == 2 and i.count(".second") == 2, "the pair removed is that of the two nodes", wh, i[:160])
    def env(same, excluded, exists, m1, c1, m2, c2, x1, x2):
        p = [(r"^[*x]*%s\[[^\]]*\]\.first$" % re.escape(N), 3), (r"^[*x]*%s\[[^\]]*\]\.second$" % re.escape(N), 4), (r"^Array<.*>::size\(", 9)]
        p += eq(B[0], B[1], 1 if same else 0)
        pr = r"OverlappingPairs::computeBodiesIndexPair\(<?(%s>?; <?%s|%s>?; <?%s)>?\)" % (B[0], B[1], B[1], B[0])
        p += [(r"^Set<.*>::contains\(<?[*x]*this\.mNoCollisionPairs>?; <?%s>?\)$" % pr, excluded)]
        p += [(r"^OverlappingPairs::getOverlappingPair'?\(", exists)]
        for k, o, mk, ck, xk in ((F, S, m1, c1, x1), (S, F, m2, c2, x2)):
            p += [(col("mCollideWithMaskBits", k, o), mk), (col("mCollisionCategoryBits", k, o), ck), (r"^(?!.*%s)CollisionShape::isConvex\(.*%s" % (o, k), xk), (r"^(?!.*%s).*collidingInPreviousFrame$" % "zz", 1)]
        return NEnv(it, nm, p)
    seen = set()
    BITS = [(0x0002, 0x0003, 0x0001, 0x0002), (0x0001, 0x0003, 0x0001, 0x0002), (0x0002, 0x0006, 0x0009, 0x0002), (0xFFFF, 0x0001, 0xFFFF, 0x8000), (0x0000, 0x0001, 0xFFFF, 0x0001), (0xFFFF, 0x0004, 0x0008, 0x0004), (0x0004, 0x0008, 0xFFFF, 0x0004)]
    for same, excluded, exists in itertools.product((0, 1), repeat=3):
        for m1, c1, m2, c2 in BITS:
            for x1, x2 in itertools.product((0, 1), repeat=2):
                e = env(same, excluded, exists, m1, c1, m2, c2, x1, x2); n += 1
                ok = bool(m1 & c2) and bool(m2 & c1)
                want = {"add": not same and not excluded and not exists and ok and bool(x1 or x2), "remove": not same and not excluded and bool(exists) and not ok}
                for w, cs in (("add", adds), ("remove", rem)):
                    if w == "remove" and (x1, x2) != (1, 1): continue
                    hs = [holds(it, nonloop(it, c), e) for c in cs]
                    if (True in hs) is not want[w] or None in hs and not any(hs):
                        what = "a pair is made exactly if the bodies differ, are not excluded and the masks accept each other both ways" if w == "add" else "a pair whose masks do not accept each other any more is removed"
                        if what not in seen: seen.add(what); rep.check(False, what, at(cs[0]), "same body %d, excluded %d, pair exists %d, masks %x %x, categories %x %x, convex %d %d: %s" % (same, excluded, exists, m1, m2, c1, c2, x1, x2, hs))
                    elif want[w] and w == "add":
                        c = next(c for c, h in zip(cs, hs) if h); t = truth_v(it, c.args[3], e)
                        if t is None and isinstance(c.args[3], Sc): t = number(it, c.args[3].p, e)
                        if (t is None or bool(t) is not bool(x1 and x2)) and "v" not in seen: seen.add("v"); rep.check(False, "a pair is convex exactly if both shapes are", at(c), "%d %d: %s" % (x1, x2, t))
    rep.check(True, "pair filter", wh)
    return n

def exclusions(P, rep):
    """joints that switch collisions off"""
    n = 0
    ib = P.method("OverlappingPairs", "computeBodiesIndexPair"); rep.analysed(ib)
    T = Trace(P, ib, lambda f: base(f.cls) in ("OverlappingPairs", "Pair")); a, b = [p["n"] for p in ib.ps]; got = []
    for x, y in ((1, 2), (2, 1)):
        e = {"$%s.id" % a: x, "$%s.id" % b: y}; v = T.ret
        for _ in range(4):
            if isinstance(v, Op) and T.it.I.info.get(v.n, ("",))[0] in ("phi", "sel"):
                w = chosen(T.it, v, e)
                if w is None: break
                v = w
        t = key(v); f = sorted([(t.find("$" + a), x), (t.find("$" + b), y)])
        if isinstance(v, St) and "first" in v.f: 
            fs = []
            for q in ("first", "second"):
                w = v.f[q]
                if isinstance(w, Op) and T.it.I.info.get(w.n, ("",))[0] in ("phi", "sel"): w = chosen(T.it, w, e) or w
                fs.append(x if "$" + a in key(w) and "$" + b not in key(w) else y if "$" + b in key(w) and "$" + a not in key(w) else None)
            got.append(tuple(fs))
        else: got.append(tuple(w for _, w in f if _ >= 0))
    n += 1; rep.check(len(got[0]) == 2 and got[0] == got[1] and None not in got[0], "the key of two bodies does not depend on their order", ib.where(), str(got))
    for name, op in (("addNoCollisionPair", "add"), ("removeNoCollisionPair", "remove")):
        fn = P.method(CDS, name); rep.analysed(fn); T = Trace(P, fn, inl("PhysicsWorld", "BodyComponents"), maxterms=200); it = T.it; at = call_at(fn)
        p1, p2 = [re.escape("$" + p["n"]) for p in fn.ps[:2]]
        cs = [c for c in T.calls if c.n == op and argkey(T, c, 0).strip("<>&*") == "this.mNoCollisionPairs"]; n += 1
        ok = len(cs) == 1 and not cs[0].guards and re.match(r"^<?OverlappingPairs::computeBodiesIndexPair\(<?(%s>?; <?%s|%s>?; <?%s)>?\)>?$" % (p1, p2, p2, p1), argkey(T, cs[0], 1))
        rep.check(ok, "%s changes the set of excluded bodies for its two bodies" % name, fn.where(), str([argkey(T, c, 1)[:120] for c in cs]))
        if op != "add": continue
        rm = [c for c in T.calls if c.cls == "OverlappingPairs" and c.n == "removePair"]; col_ = [c for c in T.calls if c.cls == "Array" and c.n in ("add", "emplace") and c.loops and "mLostContactPairs" not in argkey(T, c, 0)]
        n += 3
        if not rep.check(len(rm) == 1 and rm[0].loops and not nonloop(it, rm[0]), "excluding two bodies removes their pairs", fn.where(), str(len(rm))): continue
        src = col_ or rm; c = src[0]
        rep.check(len(src) == 1 and len(c.loops) == 2 and not any(leaves_early(fn, l[1]) for l in c.loops), "all pairs of the colliders of a body are examined", at(c), str(len(src)))
        outer = [loop_range(it, l, c.guards) for l in c.loops]
        for r, rx in zip(outer, (r"mColliders|getColliders", r"getOverlappingPairs|mOverlappingPairs")):
            t = full_text(it.I, pkey(r[3])) if r[0] == "up" else str(r[3:]) ; n += 1
            rep.check(r[0] == "each" or r[0] == "iter" or r[0] == "up" and not r[2] and re.search(rx, t), "all pairs of the colliders of a body are examined", at(c), "%s %s" % (r[0], t[:120]))
        if col_:
            lr = loop_range(it, rm[0].loops[0], rm[0].guards); n += 1
            rep.check(len(rm[0].loops) == 1 and (lr[0] in ("each", "iter") or lr[0] == "up" and not lr[2] and re.search(r"size\(", full_text(it.I, pkey(lr[3])))) and not leaves_early(fn, rm[0].loops[0][1]), "all pairs found are removed", at(rm[0]), str(lr)[:120])
        PB = [r".*mBodiesEntities\[.*\.collider%d\]|.*getBody\(.*\.collider%d>?\)" % (k, k) for k in (1, 2)]
        other = None
        for k in (0, 1):
            own = re.escape("$" + fn.ps[k]["n"]); oth = re.escape("$" + fn.ps[1 - k]["n"])
            es = []
            for b1, b2 in ((1, 0), (0, 1), (0, 0)):
                p = []
                for q, v in ((0, b1), (1, b2)): p += eq("(?:%s)" % PB[q], oth, v) + eq("(?:%s)" % PB[q], own, 0 if v else 1 if b1 or b2 else 1 if q == 0 else 0)
                es.append(holds(it, nonloop(it, c), NEnv(it, Names(it), p)))
            src_ = str(outer[0][3]) + (full_text(it.I, pkey(outer[0][3])) if outer[0][0] == "up" else "") + argkey(T, c, 1) + " ".join(full_text(it.I, key(a)) for q in T.calls if q.n in ("getOverlappingPairs", "getColliders") for a in q.args)
            if es == [True, True, False] and fn.ps[k]["n"] in src_ and not fn.ps[1 - k]["n"] in src_: other = k
        rep.check(other is not None, "the pairs removed are those between the two bodies", at(c), str([full_text(it.I, g[0])[:160] for g in nonloop(it, c)]))
    for name, callee, rx in (("createJoint", "addNoCollisionPair", r"^[*x]*\$\w+\.isCollisionEnabled$"), ("destroyJoint", "removeNoCollisionPair", r"^[^(]*IsCollisionEnabled\[(?!.*mJoints\[)|isCollisionEnabled\(")):
        fn = P.method("PhysicsWorld", name); rep.analysed(fn); T = Trace(P, fn, lambda f: base(f.cls) in ("PhysicsWorld", "Joint", "JointComponents", "Components", "Body", "RigidBody", "RigidBodyComponents") and f.n not in ("ctor", "dtor", "setIsSleeping"), maxterms=200); it = T.it
        cs = T.find(CDS, callee); n += 3
        if not rep.check(len(cs) == 1, "%s: %s" % (name, callee), fn.where(), str(len(cs))): continue
        c = cs[0]
        for v in (0, 1):
            e = NEnv(it, Names(it), [(rx, v), (r"mBody[12]Entities|getBody[12]", 1)]); h = holds(it, nonloop(it, c), e)
            if name == "createJoint" or v: rep.check(h is (not v), "two bodies are excluded from collision exactly while a joint between them forbids it", c.fn.where(c.node), "%s, collision allowed %d: %s" % (name, v, h))
            else:
                for o, s in itertools.product((0, 1), repeat=2):
                    for k in (1, 2):
                        e = NEnv(it, Names(it), [(r"IsCollisionEnabled\[(?!.*mJoints\[)|isCollisionEnabled\((?!.*mJoints\[)", 0), (r"^[^(]*IsCollisionEnabled", o), (r"^[\w: ]*operator==\(.*mBody%d(Entities|Entity)?\b.*mJoints\[" % k, s), (r"^[\w: ]*operator==\(.*mJoints\[", 0)])
                        e.loopval = True; h = holds(it, nonloop(it, c), e); want = not (not o and s); n += 1
                        rep.check(h is want, "two bodies are excluded from collision exactly while a joint between them forbids it", c.fn.where(c.node), "another joint %s the two bodies and %s their collision: exclusion lifted %s" % ("links" if s else "does not link", "allows" if o else "forbids", h))
                gone = [q for q in T.calls if q.cls == "Array" and q.n in ("remove", "removeAt") and "mJoints[" in argkey(T, q, 0) and q.k < c.k]
                rep.check(bool(gone), "the joint destroyed does not count as one that still excludes its bodies", c.fn.where(c.node)); n += 1
                TB = Trace(P, fn, lambda f: base(f.cls) in ("PhysicsWorld", "Joint", "JointComponents", "Components", "Body", "RigidBody", CDS) and f.n not in ("ctor", "dtor", "setIsSleeping"), maxterms=200)
                rm = [q for q in TB.calls if q.cls == "Set" and q.n == "remove"]; mv = [q for q in TB.calls if q.n == "addMovedCollider"]
                rep.check(len(rm) == 1 and any(set(map(tuple, rm[0].guards)) <= set(map(tuple, q.guards)) and re.search("getColliders|mColliders", argkey(TB, q, 2)) for q in mv), "bodies that may collide again are looked up in the broad phase", c.fn.where(c.node), str(len(mv))); n += 1
        a = [argkey(T, c, k) for k in (1, 2)]; 
        rep.check(sorted(x for t in a for x in ("1", "2") if re.search(r"ody%s" % x, t)) == ["1", "2"], "the bodies excluded are those of the joint", c.fn.where(c.node), str(a)[:160])
    for f in P.fns.values():
        if f.body is None or f.cls == CDS and f.n in ("addNoCollisionPair", "removeNoCollisionPair"): continue
        for x in f.nodes():
            if x.get("k") == "call" and x.get("o") is not None and not x.get("cm") and (x["o"].get("n") or "") == "mNoCollisionPairs" and x.get("n") not in ("find", "contains", "begin", "end"):
                n += 1; rep.check(False, "the set of excluded bodies is only changed for a joint", f.where(x), x["n"])
    return n

# ---------------------------------------------------------------- rays
def rays(P, rep):
    n = 0; fn = next(f for f in P.fns.values() if f.n == "raycastBroadPhaseShape" and f.body is not None); rep.analysed(fn); at = call_at(fn)
    T = Trace(P, fn, inl(base(fn.cls))); it = T.it; nm = Names(it)
    cs = [c for c in T.calls if c.n == "raycastAgainstShape"]
    if not rep.check(len(cs) == 1, "a ray is tested against the shapes it meets", fn.where(), str(len(cs))): return 0
    c = cs[0]
    for mask, cat in ((0, 1), (1, 1), (2, 1), (0xFFFF, 0x8000), (0x00F0, 0x0F10), (0x00F0, 0x0F00), (3, 4), (0x8000, 0x8001)):
        for wq in (0, 1):
            e = NEnv(it, nm, [(r"^[*x]*this\.mRaycastWithCategoryMaskBits$", mask), (r"^(?!&\().*(mCollisionCategoryBits|getCollisionCategoryBits)", cat), (r"^(?!&\().*(mIsWorldQueryCollider|getIsWorldQueryCollider)", wq)]); n += 1
            h = holds(it, nonloop(it, c), e); rep.check(h is bool(mask & cat and wq), "a ray meets exactly the world query colliders whose category is in its mask", at(c), "mask %x, category %x, query collider %d: %s" % (mask, cat, wq, h))
    t = argkey(T, c, 1); u = [full_text(it.I, g[0]) for g in nonloop(it, c)]
    rep.check("getNodeDataPointer" in t and "$" + fn.ps[0]["n"] in t, "the shape tested is that of the node met", at(c), t[:100]); n += 1
    rep.check(txt(it, c.args[2]) == "$" + fn.ps[1]["n"], "the shape is tested with the ray itself", at(c), txt(it, c.args[2])[:80]); n += 1
    f = P.method("PhysicsWorld", "raycast"); rep.analysed(f)
    T = Trace(P, f, lambda g: base(g.cls) in ("PhysicsWorld", CDS, "BroadPhaseSystem", base(fn.cls), "RaycastTest")); it = T.it
    cs = [c for c in T.calls if c.cls == "DynamicAABBTree" and c.n == "raycast"]
    if rep.check(len(cs) == 1 and not cs[0].guards, "every ray cast asks the broad phase", f.where(), str(len(cs))):
        c = cs[0]; v = c.args[2]; n += 2
        for g in c.chain: rep.analysed(g)
        m = v.f.get("mRaycastWithCategoryMaskBits") if isinstance(v, St) else None
        mask = "$" + f.ps[-1]["n"]
        rep.check(m is not None and key(m) == mask or m is None and key(v).count(mask) == 1, "the mask of the caller reaches the shapes unchanged", c.fn.where(c.node), key(m if m is not None else v)[:160])
        rep.check(txt(it, c.args[1]) == "$" + f.ps[0]["n"], "the ray of the caller is cast", c.fn.where(c.node), txt(it, c.args[1])[:80])
    return n

# ---------------------------------------------------------------- triggers never push
def wanted_conds(f):
    """conditions of f that are the reportContacts flag of a pair, or a local copy of it"""
    def strip(e):
        while isinstance(e, dict) and (e.get("k") in ("cast", "paren") or e.get("k") == "ctor" and len(e.get("a", [])) == 1): e = (e.get("a") or [e.get("e")])[0]
        return e
    def flag(e, al):
        e = strip(e)
        return isinstance(e, dict) and (e.get("k") == "mem" and e.get("n") == "reportContacts" or e.get("k") == "ref" and e.get("d") in al)
    al = set()
    for x in f.nodes():
        if x.get("k") == "var" and x.get("t", "").startswith("const") and isinstance(x.get("i"), dict) and flag(x["i"], al): al.add(x["d"])
    return lambda e: flag(e, al)

def contact_points(P, rep):
    n = 0; ok = {}; sites = []
    add = {f.f for f in P.fns.values() if f.cls == "NarrowPhaseInfoBatch" and f.n == "addContactPoint"}
    callers = {}
    for f in P.fns.values():
        if f.body is None: continue
        for x in f.nodes():
            if x.get("k") == "call":
                for g in P.targets(x): callers.setdefault(g, []).append((f, x))
    def unguarded(f, x):
        G = cfg(f); nd = G.node_of(x); w = wanted_conds(f)
        if nd is None: return True
        edges = {(c.i, True) for c in G.nodes if c.kind == "c" and isinstance(c.x, dict) and w(c.x)}
        return nd.i in G.reach([G.entry], blocked_edges=edges)
    def check(g, depth, chain):
        bad = []
        for f, x in callers.get(g, []):
            if not f.file.startswith(("src/", "include/")): continue
            rep.analysed(f)
            if not unguarded(f, x): ok[(f.f, id(x))] = 1; continue
            if depth and callers.get(f.f):
                b = check(f.f, depth - 1, chain + [f.n]); bad += b
                if not b: ok[(f.f, id(x))] = 1
            else: bad.append((f, x, chain))
        return bad
    for g in add:
        for f, x, chain in check(g, 3, []):
            n += 1; rep.check(False, "contact points are made only for pairs that want them", f.where(x), "reaches addContactPoint%s without a test of reportContacts" % (" through " + ", ".join(chain) if chain else ""))
    n += len(ok); rep.check(bool(ok), "contact points are made only for pairs that want them", "src/collision/narrowphase"); rep.count("contact_point_sites", len(ok))
    # the flag of a pair is the one asked for
    fn = P.method("NarrowPhaseInput", "addNarrowPhaseTest"); rep.analysed(fn)
    T = Trace(P, fn, lambda f: base(f.cls) in ("NarrowPhaseInput", "NarrowPhaseInfoBatch")); it = T.it
    ctor = [f for f in P.fns.values() if f.n == "ctor" and base(f.cls) == "NarrowPhaseInfo" and len(f.ps) > 3]
    em = [c for c in T.calls if c.n in ("emplace", "add") and "narrowPhaseInfos" in argkey(T, c, 0)]
    if rep.check(bool(em) and bool(ctor), "each pair is handed to a batch", fn.where()):
        from .pairs import param_fields
        pf = {v: k for k, v in param_fields(P, ctor[0]).items()}; k = pf.get("reportContacts")
        want = "$" + next((p["n"] for p in fn.ps if p["t"] == "bool"), "?")
        for c in em:
            a = c.args[1 + k] if k is not None and len(c.args) > 1 + k else None; n += 1
            rep.check(a is not None and key(a) == want, "a pair keeps whether its contacts are wanted", c.fn.where(c.node), key(a)[:100] if a is not None else "?")
    # nothing else changes it
    for f in P.fns.values():
        if f.body is None or not f.file.startswith(("src/", "include/")): continue
        for x in f.nodes():
            if x.get("k") == "bin" and x.get("op", "").endswith("=") and x["op"] not in ("==", "!=", "<=", ">=") and x["a"][0].get("k") == "mem" and x["a"][0].get("n") == "reportContacts":
                n += 1; rep.check(False, "a pair keeps whether its contacts are wanted", f.where(x))
    return n

def check_P17(P, rep):
    n = middle(P, rep) + snapshot(P, rep) + pair_filter(P, rep) + exclusions(P, rep) + rays(P, rep) + contact_points(P, rep)
    rep.count("cases_evaluated", n); rep.need(n, 1500, "cases")

"""P25: the events a listener gets: who starts, stays, exits, and what an event says."""
import re, itertools
from ..api import *
from ..terms import *
from ..trace import Trace, loop_range, leaves_early
from .sleeping import key, argkey, nonloop
from .islands import NEnv, Names, value_under
from .pairs import param_fields
from .filtering import base, call_at, txt, element_loop, settled, CDS, CC

INL = (CDS, "Components", CC, "ContactPair", "NarrowPhaseInfoBatch", "NarrowPhaseInfo", "")
def inl(*more, stop=()): return lambda f: base(f.cls) in INL + more and f.n not in stop
FLD = ("pairId", "body1Entity", "body2Entity", "collider1Entity", "collider2Entity", "collidingInPreviousFrame", "isTrigger")

def record(P, it, c):
    """the contact pair an add/emplace stores: field -> value"""
    vs = c.args[1:]
    if len(vs) == 1 and isinstance(vs[0], St): return vs[0].f
    if len(vs) == 1 and isinstance(vs[0], Ptr): return {}
    ct = [f for f in P.fns.values() if f.n == "ctor" and base(f.cls) == "ContactPair" and f.cls == "ContactPair" and len(f.ps) == len(vs)]
    return {n: vs[k] for k, n in param_fields(P, ct[0]).items()} if ct else {}

def is_add(T, c, rx): return c.cls == "Array" and c.n in ("add", "emplace") and re.match(rx, argkey(T, c, 0).strip("<>&*"))
BODY = r"^[<*&x]*(?:.*mBodiesEntities\[@?[<*&x]*%s[>]*\]|.*getBody'?\(.*; *<?[*&x]*%s>?\))>?$"

def truthy(it, v, e):
    if isinstance(v, Sc):
        r = truth_v(it, v, e)
        return r if r is not None else (lambda n: None if n is None else bool(n))(number(it, v.p, e))
    return None

def describes(P, rep, T, c, at, C1, C2, ID, what, flags=True):
    """the record names the colliders and bodies of the pair, in order, and says trigger iff one collider is one"""
    it = T.it; r = record(P, it, c); n = 5
    t = {k: txt(it, v) for k, v in r.items()}
    rep.check(re.match("^[*x]*%s$" % ID, t.get("pairId", "")), "%s is recorded under the id of its pair" % what, at, t.get("pairId", "?")[:160])
    for k, C in ((1, C1), (2, C2)):
        rep.check(re.match("^[*x]*%s$" % C, t.get("collider%dEntity" % k, "")), "%s names the colliders of the pair in order" % what, at, t.get("collider%dEntity" % k, "?")[:160])
        rep.check(re.match(BODY % (C, C), t.get("body%dEntity" % k, "")), "%s names the bodies of its colliders" % what, at, t.get("body%dEntity" % k, "?")[:160])
    if not flags: return n
    for t1, t2 in itertools.product((0, 1), repeat=2):
        e = NEnv(it, Names(it), [(r"^[*x]*[\w.]*mIsTrigger\[@?[<*&x]*%s" % C1, t1), (r"^[*x]*[\w.]*mIsTrigger\[@?[<*&x]*%s" % C2, t2), (r"getIsTrigger'?\(.*%s" % C1, t1), (r"getIsTrigger'?\(.*%s" % C2, t2)])
        v = truthy(it, r.get("isTrigger"), e); n += 1
        rep.check(v is bool(t1 or t2), "%s is a trigger event exactly if one of its colliders is a trigger" % what, at, "%d %d: %s" % (t1, t2, v))
    return n

# ---------------------------------------------------------------- pairs found in contact
def found(P, rep):
    n = 0; fn = P.method(CDS, "processPotentialContacts"); rep.analysed(fn); wh = fn.where(); at = call_at(fn)
    T = Trace(P, fn, inl(), maxterms=300); it = T.it; nm = Names(it)
    B = "$" + fn.ps[0]["n"]; PAIRS = r"\$" + fn.ps[5]["n"]; MAP = r"\$" + fn.ps[4]["n"]
    INFO = r"\$%s\.narrowPhaseInfos\[[^\]]*\]\." % fn.ps[0]["n"]
    adds = [c for c in T.calls if is_add(T, c, "^%s$" % PAIRS)]
    if not rep.check(bool(adds), "colliders found in contact become a contact pair", wh): return 0
    C1, C2 = INFO + "colliderEntity1", INFO + "colliderEntity2"; ID = INFO + "overlappingPairId"
    for c in adds:
        why = element_loop(it, c, "", fn, r"\$%s\.narrowPhaseInfos" % fn.ps[0]["n"]); n += 1
        rep.check(why is None, "every tested pair of shapes is looked at", at(c), why)
        n += describes(P, rep, T, c, at(c), C1, C2, ID, "a contact")
        t = txt(it, record(P, it, c).get("collidingInPreviousFrame")); n += 1
        rep.check(re.match(r"^[*x]*OverlappingPairs::getOverlappingPair'?\(<?this\.mOverlappingPairs>?; <?[*x]*%s>?\)\.collidingInPreviousFrame$" % ID, t), "whether a contact is new is what its pair remembers of the previous step", at(c), t[:200])
    def env(col, x1, x2, known):
        return NEnv(it, nm, [("^[*x]*" + INFO + "isColliding$", col), (r"^(?!.*colliderEntity2)[\w:]*isConvex'?\(.*colliderEntity1", x1), (r"^(?!.*colliderEntity1)[\w:]*isConvex'?\(.*colliderEntity2", x2),
            (r"^Map<[^()]*operator==\(.*%s" % MAP, 1 - known), (r"^Map<[^()]*operator!=\(.*%s" % MAP, known), (r"^Map<[^()]*containsKey'?\(<?%s" % MAP, known)])
    maps = [c for c in T.calls if c.cls == "Map" and c.n == "add" and re.match("^%s$" % MAP, argkey(T, c, 0).strip("<>&*"))]
    evs = [e for e in it.events if re.match(r"^[*x]*OverlappingPairs::getOverlappingPair'?\(.*%s>?\)\.collidingInCurrentFrame$" % ID, full_text(it.I, pstr(e.path)))]
    rep.check(bool(evs), "a pair found in contact is marked as in contact", wh)
    for col, x1, x2, known in itertools.product((0, 1), repeat=4):
        e = env(col, x1, x2, known); n += 2; st = "colliding %d, convex %d %d, pair already listed %d" % (col, x1, x2, known)
        hs = [holds(it, nonloop(it, c), e) for c in adds]
        if not (x1 and x2 and known):
            want = 1 if col and (x1 and x2 or not known) else 0
            rep.check(None not in hs and hs.count(True) == want, "each pair in contact is listed exactly once", at(adds[0]), "%s: %s" % (st, hs))
        if col and not (x1 and x2) and not known:
            hm = [c for c in maps if holds(it, nonloop(it, c), e) is True]
            ok = len(hm) == 1 and re.search(ID, full_text(it.I, " ".join(key(a) for a in hm[0].args[1:])))
            ix = None
            if hm:
                s = re.sub(r"Array<ContactPair>::size'?\(<?emplace!.*?%s.*\)" % PAIRS, "5", full_text(it.I, key(hm[0].args[1]).split(";", 1)[-1].rstrip(">"))); s = re.sub(r"Array<ContactPair>::size\(<?&?%s>?\)" % PAIRS, "4", s).strip(" ()<>")
                ix = re.fullmatch(r"[-+*() \d]+", s) and eval(s) == 4
            rep.check(ok and ix, "a pair listed is remembered at its place, so that its other triangles join it", wh, "%s: %d %s" % (st, len(hm), hm and full_text(it.I, key(hm[0].args[1]))[-120:])); n += 1
        m = [holds(it, [g for g in ev.guards if not g[0].startswith("L:")], e) for ev in evs if isinstance(ev.new, Sc) and isconst(ev.new.p) and cval(ev.new.p)]
        w = [holds(it, [g for g in ev.guards if not g[0].startswith("L:")], e) for ev in evs if not (isinstance(ev.new, Sc) and isconst(ev.new.p) and cval(ev.new.p))]
        rep.check((True in m) is bool(col) and None not in m and True not in w and None not in w or any(isinstance(ev.new, Sc) and re.match("^[*x]*" + INFO + "isColliding$", txt(it, ev.new)) and not [g for g in ev.guards if not g[0].startswith("L:")] for ev in evs), "a pair is marked as in contact exactly if one of its shapes is found colliding", wh, "%s: %s %s" % (st, m, w))
    return n

# ---------------------------------------------------------------- pairs that end
def lost(P, rep):
    n = 0; LOST = r"^this\.mLostContactPairs$"
    fn = P.method(CDS, "computeLostContactPairs"); rep.analysed(fn); wh = fn.where(); at = call_at(fn)
    T = Trace(P, fn, inl(), maxterms=300); it = T.it; nm = Names(it)
    for c in T.calls:
        for f in c.chain: rep.analysed(f)
    adds = [c for c in T.calls if is_add(T, c, LOST)]
    for tab in ("Convex", "Concave"):
        PR = r"this\.mOverlappingPairs\.m%sPairs\[[^\]]*\]\." % tab
        cs = [c for c in adds if re.match("^[*x]*" + PR, txt(it, record(P, it, c).get("pairId")))]
        if not rep.check(len(cs) == 1, "contacts lost among the pairs of the %s table are recorded" % tab, wh, str(len(cs))): continue
        c = cs[0]; why = element_loop(it, c, "", fn, r"this\.mOverlappingPairs\.m%sPairs" % tab); n += 1
        rep.check(why is None, "every pair of the %s table is examined" % tab, at(c), why)
        n += describes(P, rep, T, c, at(c), PR + "collider1", PR + "collider2", PR + "pairID", "a lost contact")
        for prev, cur in itertools.product((0, 1), repeat=2):
            h = holds(it, nonloop(it, c), NEnv(it, nm, [("^[*x]*" + PR + "collidingInPreviousFrame$", prev), ("^[*x]*" + PR + "collidingInCurrentFrame$", cur)])); n += 1
            rep.check(h is bool(prev and not cur), "a contact is lost exactly if the pair was in contact and is not any more", at(c), "%s table, before %d, now %d: %s" % (tab, prev, cur, h))
    # pairs that are removed while in contact
    REM = ("removePair", "removeConvexPairWithIndex", "removeConcavePairWithIndex")
    roots = []
    for f in P.fns.values():
        if f.body is None or base(f.cls) == "OverlappingPairs": continue
        for x in f.nodes():
            g = P.fns.get(x.get("f")) if x.get("k") == "call" else None
            if g is not None and base(g.cls) == "OverlappingPairs" and g.n in REM:
                n += 1; rep.check(f.cls == CDS, "pairs are removed by the collision detection, which tells of the contacts they had", f.where(x), f.q if hasattr(f, "q") else f.n)
    reach = {"removeNonOverlappingPairs", "updateOverlappingPairs", "addNoCollisionPair"}
    for f in P.fns.values():
        if f.cls != CDS or f.body is None: continue
        if f.n in reach or any(x.get("k") == "call" and P.fns.get(x.get("f")) is not None and base(P.fns[x["f"]].cls) == "OverlappingPairs" and P.fns[x["f"]].n in REM for x in f.nodes()): roots.append(f)
    for f in roots:
        rep.analysed(f); Tf = Trace(P, f, inl(), maxterms=300); fi = Tf.it; fa = call_at(f); fn_ = Names(fi)
        rm = [c for c in Tf.calls if c.cls == "OverlappingPairs" and c.n in REM]; la = [c for c in Tf.calls if is_add(Tf, c, LOST)]
        if f.n in reach: rep.check(bool(rm), "%s removes the pairs that end" % f.n, f.where()); n += 1
        for c in rm:
            i = txt(fi, c.args[1]); loop = c.loops[-1][0] if c.loops else None
            ours = [a for a in la if (a.loops[-1][0] if a.loops else None) == loop and a.k < c.k and not [b for b in rm if a.k < b.k < c.k]]
            keyed = [("notify", p["n"]) for p in f.ps if p["t"] == "bool"]
            if not rep.check(len(ours) == 1, "%s: a contact that ends because its pair is removed is recorded" % f.n, fa(c), str(len(ours))): continue
            a = ours[0]; t = txt(fi, record(P, fi, a).get("pairId")); n += 2
            tab = {"removeConvexPairWithIndex": "Convex", "removeConcavePairWithIndex": "Concave"}.get(c.n)
            PR = r"this\.mOverlappingPairs\.m%sPairs\[%s\]\." % (tab, re.escape(i)) if tab else r"OverlappingPairs::getOverlappingPair'?\(<?this\.mOverlappingPairs>?; <?%s>?\)\." % re.escape(i)
            rep.check(re.match("^[*x]*" + PR + "pairID$", t), "%s: the contact recorded is that of the pair removed" % f.n, fa(a), t[:160])
            n += describes(P, rep, Tf, a, fa(a), PR + "collider1", PR + "collider2", PR + "pairID", "%s: a lost contact" % f.n)
            own = [g for g in nonloop(fi, a) if tuple(g) not in {tuple(x) for x in nonloop(fi, c)}]
            for prev, nt in itertools.product((0, 1), (0, 1) if keyed else (1,)):
                p = [("^[*x]*" + PR + "collidingInPreviousFrame$", prev)] + [(r"^\$%s$" % q, nt) for _, q in keyed]
                h = holds(fi, own, NEnv(fi, fn_, p)); n += 1
                rep.check(h is bool(prev and nt), "%s: an exit is recorded exactly if the removed pair was in contact" % f.n, fa(a), "in contact %d, to be told %d: %s" % (prev, nt, h))
    # the list of lost contacts
    for f in P.fns.values():
        if f.body is None: continue
        for x in f.nodes():
            if x.get("k") == "call" and isinstance(x.get("o"), dict) and (x["o"].get("n") or "") == "mLostContactPairs" and not x.get("cm") and x.get("n") not in ("size", "begin", "end", "operator[]", "add", "emplace"):
                n += 1; rep.check(f.n in ("removeCollider", "reportContactsAndTriggers"), "lost contacts are forgotten only once told, or with their colliders", f.where(x), x["n"])
    fn = P.method(CDS, "removeCollider"); T = Trace(P, fn, inl("Collider"), maxterms=200); it = T.it; nm = Names(it)
    rm = [c for c in T.calls if c.cls == "Array" and c.n in ("removeAt", "removeAtAndReplaceByLast", "remove") and re.match(LOST, argkey(T, c, 0).strip("<>&*"))]; n += 1
    if rep.check(len(rm) == 1, "untold exits of a collider that is destroyed are forgotten", fn.where(), str(len(rm))):
        c = rm[0]; E = r"(?:Collider::getEntity\(<?&?\$collider>?\)|\*?\$collider\.mEntity)"
        for c1, c2 in itertools.product((0, 1), repeat=2):
            p = []
            for k, v in ((1, c1), (2, c2)):
                for op, w in (("==", v), ("!=", 1 - v)): p.append((r"operator%s\((?=.*%s)(?=.*mLostContactPairs[^;]*collider%dEntity)" % (op, E, k), w))
            h = holds(it, nonloop(it, c), NEnv(it, nm, p)); n += 1
            rep.check(h is bool(c1 or c2), "untold exits of a collider that is destroyed are forgotten", call_at(fn)(c), "first %d second %d: %s" % (c1, c2, h))
        ls = loop_range(it, c.loops[0], c.guards) if c.loops else ("?",); n += 1
        rep.check(not [a for a in T.calls if is_add(T, a, LOST) and a.k > c.k], "a collider that is destroyed takes its pairs with it without events", call_at(fn)(c)); n += 1
        if ls[0] == "down":    # the elements visited are all of them
            x = txt(it, c.args[1]); sub = lambda s, k: (lambda q: eval(q) if re.fullmatch(r"[-+*() \d]+", q) else None)(re.sub(r"%i#[\d?.]+|" + re.escape(ls[1][-1]), str(k), re.sub(r"Array<ContactPair>::size\(<?this\.mLostContactPairs>?\)", "3", s)))
            a, b = sub(full_text(it.I, pkey(ls[2])), 0), sub(full_text(it.I, pkey(ls[3])), 0); got = sorted(sub(x, k) for k in range(b, a + 1)) if a is not None and b is not None else None
            rep.check(got in ([0, 1, 2], [0, 1, 2, 3]) or got is None, "all untold exits of the collider are looked for", call_at(fn)(c), "of 3: %s" % got)
        else: rep.check(ls[0] == "up" and bool([a for a in it.accumulations if a[4] == c.loops[0][0]]), "all untold exits of the collider are looked for", call_at(fn)(c), str(ls)[:100])
    return n

# ---------------------------------------------------------------- telling
def telling(P, rep):
    n = 0; fn = P.method(CDS, "reportContactsAndTriggers"); rep.analysed(fn); wh = fn.where(); at = call_at(fn)
    T = Trace(P, fn, inl("OverlappingPairs"), maxterms=200); it = T.it; nm = Names(it)
    cb = {"onContact": "CollisionCallback", "onTrigger": "OverlapCallback"}; last = -1
    for name in cb:
        cs = [c for c in T.calls if c.n == name and c.cls != "DebugRenderer"]
        if not rep.check(len(cs) == 1, "the listener is told: %s" % name, wh, str(len(cs))): continue
        c = cs[0]; last = max(last, c.k); rep.check("mEventListener" in argkey(T, c, 0), "the listener of the world is told", at(c), argkey(T, c, 0)[:80])
        for ls, a, b in itertools.product((0, 1), repeat=3):
            e = NEnv(it, nm, [(r"^\(0 == <\*?this\.mWorld\.mEventListener>\)$", 1 - ls), (r"^<?[*x]*this\.mWorld\.mEventListener>?$", ls), (r"^Array<ContactPair>::size\(<?[&*x]*this\.mCurrentContactPairs>?\)$", a), (r"^Array<ContactPair>::size\(<?this\.mLostContactPairs>?\)$", b)])
            h = holds(it, nonloop(it, c), e); n += 1
            if ls and (a or b) or not ls: rep.check(h is bool(ls), "the listener is told (%s) whenever there is something to tell" % name, at(c), "listener %d, current %d, lost %d: %s, %s" % (ls, a, b, h, [nm(g[0])[:150] for g in nonloop(it, c)]))
        t = txt(it, c.args[1]); m = re.match(r"^ctor:(\w+)::CallbackData\((.*)\)$", t); n += 1
        ct = [f for f in P.fns.values() if f.n == "ctor" and f.cls == cb[name] + "::CallbackData" and len(f.ps) == (len(m.group(2).split("; ")) if m else -1)]
        if not rep.check(bool(ct), "%s gets the data of this step" % name, at(c), t[:160]): continue
        pf = param_fields(P, ct[0]); a = {pf.get(k, ct[0].ps[k]["n"]): re.sub(r"[<>&*]", "", v) for k, v in enumerate(m.group(2).split("; "))}; n += 4
        want = {"mContactPairs": "this.mCurrentContactPairs", "mLostContactPairs": "this.mLostContactPairs"}
        if name == "onContact": want.update({"mContactPoints": "this.mCurrentContactPoints", "mContactManifolds": "this.mCurrentContactManifolds"})
        else: want["onlyReportTriggers"] = "1"
        rep.check(all(a.get(k) == v for k, v in want.items()), "%s gets the data of this step" % name, at(c), str(a)[:240])
    ups = [(it.events.index(e), e) for e in it.events if re.search(r"collidingInPreviousFrame$", pstr(e.path))]
    for tab in ("Convex", "Concave"):
        PR = r"^[*x]*this\.mOverlappingPairs\.m%sPairs\[([^\]]*)\]\." % tab; n += 3
        us = [e for _, e in ups if re.match(PR + "collidingInPreviousFrame$", full_text(it.I, pstr(e.path)))]
        if not rep.check(len(us) == 1, "the pairs of the %s table remember whether they were in contact" % tab, wh, str(len(us))): continue
        e = us[0]; i = re.match(PR, full_text(it.I, pstr(e.path))).group(1); m = re.match(PR + "collidingInCurrentFrame$", txt(it, e.new))
        rep.check(m and m.group(1) == i, "the pairs of the %s table remember whether they were in contact" % tab, e.fn.where(e.node) if e.fn else wh, txt(it, e.new)[:120])
        class C: pass
        c = C(); c.loops = e.loops; c.guards = e.guards; c.fn = e.fn; why = element_loop(it, c, "", e.fn, r"this\.mOverlappingPairs\.m%sPairs" % tab)
        rep.check(why is None and not [g for g in e.guards if not g[0].startswith("L:")], "every pair of the %s table remembers, listener or not" % tab, e.fn.where(e.node) if e.fn else wh, why or str(e.guards)[:120])
        rep.check(all(c.ev.seq <= it.events.index(e) for c in T.calls if c.n in cb), "events are told before the pairs forget the previous step", wh)
    cl = [c for c in T.calls if c.cls == "Array" and c.n == "clear" and argkey(T, c, 0).strip("<>&*") == "this.mLostContactPairs"]; n += 1
    rep.check(len(cl) == 1 and not cl[0].guards and not cl[0].loops and cl[0].k > last, "a lost contact is told once", wh, str([(c.k, len(c.guards)) for c in cl]))
    f = P.method("PhysicsWorld", "update"); rep.analysed(f); Tu = Trace(P, f, lambda g: g.cls == "PhysicsWorld" and g.n not in ("createIslands", "solveContactsAndConstraints", "updateSleepingBodies", "enableDisableJoints"), maxterms=100); n += 1
    one = {k: [c for c in Tu.calls if c.cls == CDS and c.n == k] for k in ("computeCollisionDetection", "createContacts", "reportContactsAndTriggers")}
    rep.check(all(len(v) == 1 and not nonloop(Tu.it, v[0]) and not v[0].loops for v in one.values()) and [one[k][0].k for k in one] == sorted(one[k][0].k for k in one), "every step detects, makes its contacts and tells of them, once and in this order", f.where(), str({k: [c.k for c in v] for k, v in one.items()}))
    cc = P.method(CDS, "createContacts"); rep.analysed(cc); Tc = Trace(P, cc, lambda g: False); cs = [c for c in Tc.calls if c.n == "computeLostContactPairs"]; n += 1
    rep.check(len(cs) == 1 and not cs[0].guards and not cs[0].loops, "the contacts lost in a step are looked for in every step", cc.where(), str(len(cs)))
    return n

# ---------------------------------------------------------------- what the user reads
def reading(P, rep):
    n = 0
    for cls, only in (("CollisionCallback", None), ("OverlapCallback", "onlyReportTriggers")):
        D = cls + "::CallbackData"
        fn = next(f for f in P.fns.values() if f.cls == D and f.n == "ctor" and f.body is not None and len(f.ps) > 1); rep.analysed(fn); at = call_at(fn)
        T = Trace(P, fn, lambda f: f.cls == D); it = T.it; nm = Names(it)
        pf = {v: fn.ps[k]["n"] for k, v in param_fields(P, fn).items()}
        for lst, src in (("mContactPairsIndices", "mContactPairs"), ("mLostContactPairsIndices", "mLostContactPairs")):
            SRC = r"(?:this\.%s|\$%s)" % (src, pf.get(src, src)); n += 3
            cs = [c for c in T.calls if c.cls == "Array" and c.n in ("add", "emplace") and argkey(T, c, 0).strip("<>&*") == "this." + lst]
            if not rep.check(len(cs) == 1, "%s lists the events among %s" % (D, src), fn.where(), str(len(cs))): continue
            c = cs[0]; why = element_loop(it, c, "", fn, SRC); rep.check(why is None, "%s considers every element of %s" % (D, src), at(c), why)
            i = txt(it, c.args[1]); E = r"^[*x]*%s\[%s\]\.isTrigger$" % (SRC, re.escape(i))
            for tr, o in itertools.product((0, 1), (0, 1) if only else (0,)):
                p = [(E, tr)] + ([(r"^\$%s$" % fn.ps[2]["n"], o)] if only else [])
                h = holds(it, nonloop(it, c), NEnv(it, nm, p)); n += 1; want = (not o or tr) if only else not tr
                rep.check(h is bool(want), "contacts are told as contacts and triggers as triggers", at(c), "%s, trigger %d%s: %s" % (src, tr, ", triggers only %d" % o if only else "", h))
        Pc = cls + ("::ContactPair" if only is None else "::OverlapPair"); getter = "getContactPair" if only is None else "getOverlappingPair"; nb = "getNbContactPairs" if only is None else "getNbOverlappingPairs"
        lostf = "mIsLostContactPair" if only is None else "mIsLostOverlapPair"
        g = P.method(D, getter); rep.analysed(g); Tg = Trace(P, g, lambda f: f.cls in (D, Pc)); gi = Tg.it; gn = Names(gi); q = "$" + g.ps[0]["n"]
        for a, b in ((2, 2), (0, 2), (1, 0), (3, 1)):
            for i in range(a + b):
                e = NEnv(gi, gn, [(r"^%s$" % re.escape(q), i), (r"size\(<?this\.mContactPairsIndices>?\)$", a), (r"size\(<?this\.mLostContactPairsIndices>?\)$", b)])
                v = settled(gi, Tg.ret, e); f = v.f if isinstance(v, St) else {}; n += 3
                pr = settled(gi, f.get("mContactPair"), e) if f.get("mContactPair") is not None else None; t = txt(gi, pr) if pr is not None else "?"
                lv = settled(gi, f[lostf], e) if lostf in f else None; L = truthy(gi, lv, e) if lv is not None else None
                mm = re.match(r"^[*x]*this\.(m\w+)\[[*x]*this\.(m\w+)\[(.*)\]\]$", t); k = None
                if mm:
                    s = mm.group(3).replace(q, str(i)); s = re.sub(r"Array<[\w ]+>::size\(<?this\.mContactPairsIndices>?\)", str(a), s); s = re.sub(r"Array<[\w ]+>::size\(<?this\.mLostContactPairsIndices>?\)", str(b), s)
                    k = eval(s) if re.fullmatch(r"[-+*() \d]+", s) else None
                want = ("mContactPairs", "mContactPairsIndices", i, False) if i < a else ("mLostContactPairs", "mLostContactPairsIndices", i - a, True)
                got = (mm.group(1) if mm else None, mm.group(2) if mm else None, k, L)
                rep.check(got == want, "%s hands out every event once: first those in contact, then those lost, as such" % D, g.where(), "event %d of %d+%d: %s %s" % (i, a, b, got, "" if mm else t[:120]))
                if only is None: rep.check(re.match(r"^[*x]*this\.mContactPoints$", txt(gi, f.get("mContactPoints"))) if "mContactPoints" in f else False, "the contact points of an event are those told with it", g.where())
        f = P.method(D, nb); rep.analysed(f); Tn = Trace(P, f, lambda x: x.cls == D); n += 1
        e = NEnv(Tn.it, Names(Tn.it), [(r"size\(<?this\.mContactPairsIndices>?\)$", 3), (r"size\(<?this\.mLostContactPairsIndices>?\)$", 5)])
        rep.check(isinstance(Tn.ret, Sc) and number(Tn.it, Tn.ret.p, e) == 8, "%s counts all events" % D, f.where(), key(Tn.ret))
        f = P.method(Pc, "getEventType"); rep.analysed(f); Te = Trace(P, f, lambda x: x.cls == Pc); n += 4
        pre = "Contact" if only is None else "Overlap"
        for ls, pv in itertools.product((0, 1), repeat=2):
            e = NEnv(Te.it, Names(Te.it), [(r"^this\.%s$" % lostf, ls), (r"^[*x]*this\.mContactPair\.collidingInPreviousFrame$", pv)])
            want = pre + ("Exit" if ls else "Stay" if pv else "Start")
            v = Te.ret; t = None
            names = [x["n"] for en in [f] for x in f.nodes() if x.get("k") == "ref" and x.get("dk") == "enum"]
            d = number(Te.it, v.p, e) if isinstance(v, Sc) else None
            t = [w for w in (pre + s for s in ("Start", "Stay", "Exit")) if any(enum(a) == d for a in enum_atoms(w, Pc))]
            rep.check(t == [want], "an event is a start, a stay or an exit as its pair was and is in contact", f.where(), "lost %d, in contact before %d: %s" % (ls, pv, t))
        for k in (1, 2):
            for what, rx in (("Body", r"BodyComponents::getBody'?\(.*mContactPair\.body%dEntity|mBodies\[@?[<*&x]*this\.mContactPair\.body%dEntity"), ("Collider", r"getCollider'?\(.*mContactPair\.collider%dEntity|mColliders\[@?[<*&x]*this\.mContactPair\.collider%dEntity")):
                f = P.method(Pc, "get%s%d" % (what, k)); rep.analysed(f); Tb = Trace(P, f, lambda x: x.cls == Pc); n += 1
                rep.check(re.search(rx % (k, k), txt(Tb.it, Tb.ret)), "an event names %s %d of its pair" % (what.lower(), k), f.where(), txt(Tb.it, Tb.ret)[:140])
        ct = next(x for x in P.fns.values() if x.cls == Pc and x.n == "ctor" and len(x.ps) >= 3); n += 1
        got = set(param_fields(P, ct).values()); rep.check({"mContactPair", lostf} <= got, "an event keeps what it is made of", ct.where(), str(got))
    # points
    Pc = "CollisionCallback::ContactPair"; f = P.method(Pc, "getContactPoint"); rep.analysed(f); T = Trace(P, f, lambda x: x.cls in (Pc, "CollisionCallback::ContactPoint")); it = T.it; n += 2
    v = T.ret; t = txt(it, v.f.get("mContactPoint")) if isinstance(v, St) else txt(it, v); m = re.match(r"^[*x]*this\.mContactPoints\[(.*)\]$", t); s = m.group(1) if m else ""
    s = re.sub(r"[*x]*this\.mContactPair\.contactPointsIndex", "10", s.replace("$" + f.ps[0]["n"], "3")); rep.check(re.fullmatch(r"[-+*() \d]+", s) and eval(s) == 13, "the contact points of an event are those of its pair", f.where(), t[:140])
    f = P.method(Pc, "getNbContactPoints"); rep.analysed(f); T = Trace(P, f, lambda x: x.cls == Pc); rep.check(re.match(r"^[*x]*this\.mContactPair\.nbToTalContactPoints$", txt(T.it, T.ret)), "an event counts the contact points of its pair", f.where(), txt(T.it, T.ret)[:100])
    # a contact point says what the narrow phase found
    Q = "CollisionCallback::ContactPoint"
    for name, fld in (("getPenetrationDepth", "mPenetrationDepth"), ("getWorldNormal", "mNormal"), ("getLocalPointOnCollider1", "mLocalPointOnShape1"), ("getLocalPointOnCollider2", "mLocalPointOnShape2")):
        f = P.method(Q, name); rep.analysed(f); T = Trace(P, f, lambda x: x.cls in (Q, "ContactPoint")); n += 1
        rep.check(re.match(r"^[*x]*this\.mContactPoint\.%s$" % fld, txt(T.it, T.ret)), "%s is that of the contact point" % name, f.where(), txt(T.it, T.ret)[:100])
    info = {"mNormal": "normal", "mPenetrationDepth": "penetrationDepth", "mLocalPointOnShape1": "localPoint1", "mLocalPointOnShape2": "localPoint2"}
    ct = next(x for x in P.fns.values() if x.cls == "ContactPoint" and x.n == "ctor" and len(x.ps) == 2); rep.analysed(ct)
    for i in ct.inits or []:
        if i.get("field") in info:
            e = i.get("e") or {}; names = {x.get("n") for x in walk(e) if x.get("k") == "mem"}; n += 1
            rep.check(names == {info[i["field"]]}, "a contact point keeps what the narrow phase found", ct.where(), "%s from %s" % (i["field"], names))
    for cname in ("ContactPair",):
        ct = next(x for x in P.fns.values() if x.cls == cname and x.n == "ctor" and len(x.ps) >= 7); rep.analysed(ct); pf = param_fields(P, ct); n += 1
        rep.check({"pairId", "body1Entity", "body2Entity", "collider1Entity", "collider2Entity", "collidingInPreviousFrame", "isTrigger"} <= set(pf.values()), "a contact pair keeps what it is made of", ct.where(), str(sorted(pf.values())))
    return n

from ..model import walk
def enum_atoms(name, cls): return ["#" + cls + "::EventType::" + name]

def check_P25(P, rep):
    n = found(P, rep); n += lost(P, rep); n += telling(P, rep); n += reading(P, rep)
    rep.count("cases_evaluated", n); rep.need(n, 200, "cases")
    return n

"""P24: contacts keep their identity from step to step: what a step's contacts take over from those of the step before."""
import re, itertools
from ..api import *
from ..terms import *
from ..trace import Trace, loop_range, leaves_early
from ..model import walk
from .sleeping import key, argkey, nonloop
from .islands import NEnv, Names, value_under
from .pairs import param_fields, evaluate
from .filtering import base, call_at, txt, element_loop, CDS, CC

INL = (CDS, "ContactPair", "ContactPoint", "ContactManifold", "")
def inl(*more, stop=()): return lambda f: base(f.cls) in INL + more and f.n not in stop and not (f.n == "ctor" and base(f.cls) in ("ContactPair", CDS))
KINDS = ("Pairs", "Manifolds", "Points")

def plain(it, v): return txt(it, v).replace("*", "").replace(" ", "")
def owner(fn, loop): return any(id(loop[1]) == id(x) for x in fn.nodes())
def early(P, T, loop):
    """the loop is left other than through its condition"""
    for f in [T.fn] + [P.fns[x] for x in P.fns]:
        if f.body is not None and owner(f, loop): return leaves_early(f, loop[1])
    return []

def stops(it, loop, ev):
    """the loop goes on only while a flag has the value it had before, which the round that finds something changes"""
    t = " ".join(full_text(it.I, g[0]) for g in ev.guards if g[0].startswith("L:"))
    for a in it.accumulations:
        st = it.loopstart.get((loop[0], a[0])) if a[4] == loop[0] else None
        if isinstance(st, Sc) and isinstance(a[1], Sc) and isconst(a[1].p) and full_text(it.I, st.key()) in t and isinstance(a[2], Sc):
            if any(isinstance(v, Sc) and isconst(v.p) and v.p != a[1].p for _, v in it.cases(a[2])): return True
    return False

def span(it, ev, idx, e, subs):
    """the values an index takes: over the loop whose variable it contains"""
    rest0 = idx
    for a, b in subs: rest0 = re.sub(a, " %d " % b, rest0)
    for loop in ev.loops:
        sid = loop[0]
        r = loop_range(it, loop, ev.guards)
        if r[0] not in ("up", "down"): continue
        st = it.loopstart.get((sid, r[1]))
        if st is None: continue
        v = full_text(it.I, st.key())
        if v not in rest0: continue
        lo, hi = (number(it, r[2], e), number(it, r[3], e)) if r[0] == "up" else (number(it, r[3], e), number(it, r[2], e))
        if lo is None or hi is None: return None, loop
        rest = rest0.replace(v, "@")
        if not re.fullmatch(r"[-+*() \d@]+", rest): return None, loop
        ks = range(int(lo), int(hi)) if r[0] == "up" else range(int(hi), int(lo) - 1, -1)
        return [eval(rest.replace("@", str(k))) for k in ks], loop
    return None, None

# ---------------------------------------------------------------- previous and current exchange their roles
def exchange(P, rep):
    n = 0; fn = P.method(CDS, "swapPreviousAndCurrentContacts"); rep.analysed(fn); wh = fn.where()
    T = Trace(P, fn, lambda f: f.cls == CDS or f.cls == ""); it = T.it; nm = Names(it)
    names = ["m%sContact%s" % (w, k) for w in ("Previous", "Current") for k in KINDS]
    def init():
        s = {}
        for f in P.fns.values():
            if f.cls != CDS or f.n != "ctor" or f.body is None or not f.inits: continue
            for i in f.inits:
                m = i.get("field") or ""
                if m in names:
                    t = [x.get("n") for x in walk(i) if x.get("k") == "mem" and re.match(r"mContact\w+[12]$", x.get("n", ""))]
                    if t: s[m] = t[0]
        return s
    s = init()
    for k in KINDS:
        a, b = s.get("mPreviousContact" + k), s.get("mCurrentContact" + k); n += 1
        rep.check(a and b and a != b, "the contacts of this step and of the one before are kept apart from the start", wh, "%s: %s %s" % (k, a, b))
    for step in range(4):
        def val(v):
            t = txt(it, v).strip("*")
            m = re.search(r"this\.(m(?:Previous|Current)Contact\w+)$", t) or re.search(r"this\.(mContact(?:Pairs|Manifolds|Points)[12])$", t)
            return (s.get(m.group(1), m.group(1)) if m else None)
        class E(NEnv):
            def find(self, k):
                t = full_text(it.I, k)
                m = re.fullmatch(r"\(&this\.(\w+) == <this\.(\w+)>\)", t) or re.fullmatch(r"\(<this\.(\w+)> == &this\.(\w+)\)", t)
                if m: 
                    x, a = (m.group(1), m.group(2)) if m.group(1) in s.values() or m.group(1).startswith("mContact") else (m.group(2), m.group(1))
                    return True, 1 if s.get(a) == x else 0
                return NEnv.find(self, k)
        e = E(it, nm, []); new = dict(s); und = False
        for ev in it.events:
            m = re.match(r"^this\.(m(?:Previous|Current)Contact(?:Pairs|Manifolds|Points))$", pstr(ev.path))
            if not m: continue
            h = holds(it, nonloop(it, ev), e)
            if h is None: und = True
            if h: 
                w = value_under(it, ev.new, e); new[m.group(1)] = val(w if w is not None else ev.new)
        for k in KINDS:
            n += 1
            rep.check(not und and new.get("mPreviousContact" + k) == s.get("mCurrentContact" + k) and new.get("mCurrentContact" + k) == s.get("mPreviousContact" + k),
                      "the step before's contacts become the previous ones and the current ones start where those before were", wh, "%s: %s -> %s" % (k, sorted(s.items()), sorted((a, b) for a, b in new.items() if k in a)))
        s = {a: s.get("m%sContact%s" % ("Current" if "Previous" in a else "Previous", a.split("Contact")[1])) for a in names}
    # once per step
    cn = P.method(CDS, "computeCollisionDetection"); rep.analysed(cn)
    Tc = Trace(P, cn, lambda f: f.cls == CDS and f.n not in ("computeBroadPhase", "computeMiddlePhase", "swapPreviousAndCurrentContacts", "testNarrowPhaseCollision", "processAllPotentialContacts", "reducePotentialContactManifolds", "addContactPairsToBodies"))
    sw = [c for c in Tc.calls if c.n == "swapPreviousAndCurrentContacts"]; pr = [c for c in Tc.calls if c.n == "processAllPotentialContacts"]; n += 2
    rep.check(len(sw) == 1 and not sw[0].guards and not sw[0].loops, "previous and current contacts are exchanged once per step", cn.where(), str(len(sw)))
    rep.check(bool(sw and pr) and all(sw[0].k < c.k for c in pr), "previous and current contacts are exchanged before contacts are found", cn.where())
    sn = P.method(CDS, "computeNarrowPhaseCollisionSnapshot"); rep.analysed(sn); st = ("processAllPotentialContacts", "reducePotentialContactManifolds", "createSnapshotContacts")
    Ts = Trace(P, sn, lambda f: f.cls == CDS and f.n not in st + ("testNarrowPhaseCollision", "reportContacts"))
    for Tx, where, seq in ((Tc, cn.where(), (pr, [c for c in Tc.calls if c.n == st[1]])), (Ts, sn.where(), tuple([c for c in Ts.calls if c.n == k] for k in st))):
        n += 1
        ok = all(len(q) == 1 and not q[0].loops for q in seq) and all(a[0].k < b[0].k and set(map(tuple, b[0].guards)) <= set(map(tuple, a[0].guards)) | set(map(tuple, seq[-1][0].guards)) for a, b in zip(seq, seq[1:]))
        ok = ok and len({tuple(map(tuple, q[0].guards)) for q in seq}) == 1
        if ok:
            # all work on the same lists
            def of(c, t):
                ps = P.fns[c.f].ps
                return sorted(next((y["n"] for y in walk(a) if y.get("k") in ("ref", "mem") and y.get("n")), "") for a, q in zip(c.node.get("a", []), ps) if t in q["t"])
            p_, r_ = seq[0][0], seq[1][0]
            ok = all(of(p_, t) == of(r_, t) for t in ("<ContactPair>", "<ContactManifoldInfo>", "<ContactPointInfo>"))
        rep.check(ok, "the contacts found are reduced before contacts are made of them", where, str([len(q) for q in seq]))
    for f in P.fns.values():
        if f.body is None or f is fn: continue
        for x in f.nodes():
            if x.get("k") == "call" and P.fns.get(x.get("f")) is fn:
                n += 1; rep.check(any(f in c.chain or f is cn or f is c.fn for c in sw), "only the step exchanges previous and current contacts", f.where(x))
    return n

# ---------------------------------------------------------------- what is taken over
CURP = r"this\.mCurrentContactPairs\[[^\]]*\]"
def transfer(P, rep):
    n = 0; fn = P.method(CDS, "initContactsWithPreviousOnes"); rep.analysed(fn); wh = fn.where()
    T = Trace(P, fn, inl(), maxterms=400); it = T.it; nm = Names(it)
    for c in T.calls:
        for f in c.chain: rep.analysed(f)
    FOUND = r"mPreviousMapPairIdToContactPairIndex\[[*]?this\.mCurrentContactPairs\[[^\]]*\]\.pairId\]"
    PREVP = r"this\.mPreviousContactPairs\[.*mPreviousMapPairIdToContactPairIndex\[[*]?this\.mCurrentContactPairs\[[^\]]*\]\.pairId\].*\]"
    want = {"Manifolds": ("frictionVector1", "frictionVector2", "frictionImpulse1", "frictionImpulse2", "frictionTwistImpulse"), "Points": ("mPenetrationImpulse", "mIsRestingContact")}
    rng = {"Manifolds": ("contactManifoldsIndex", "nbContactManifolds"), "Points": ("contactPointsIndex", "nbToTalContactPoints")}
    size = {"Manifolds": ((30, 3), (70, 4)), "Points": ((130, 7), (170, 9))}
    subs = []
    for K, (a, b) in rng.items():
        subs += [(r"[*]*this\.mCurrentContactPairs\[[^\]]*\]\.%s" % a, size[K][0][0]), (r"[*]*this\.mCurrentContactPairs\[[^\]]*\]\.%s" % b, size[K][0][1])]
    def env(found=1, dot=None, c=None, d2=None, t=None, nprev=5):
        p = [(r"^Map<[^()]*operator!=\(<[^;]*%s" % FOUND, found), (r"^Map<[^()]*operator==\(<[^;]*%s" % FOUND, 1 - found), (r"^Map<[^()]*containsKey'?\(<?this\.mPreviousMapPairIdToContactPairIndex>?; <?[*]*%s\.pairId" % CURP, found)]
        for K, (a, b) in rng.items():
            p += [(r"^[*]*%s\.%s$" % (W, f), v) for W, vs in zip((CURP, PREVP), size[K]) for f, v in zip((a, b), vs)]
        if c is not None: p += [(r"^[*]*this\.mWorld\.mConfig\.cosAngleSimilarContactManifold$", c), (r"^Vector3::dot'?\((?=.*this\.mCurrentContactPoints\[.*\]\.mNormal)(?=.*this\.mPreviousContactPoints\[.*\]\.mNormal)", dot)]
        D = r"'?\((?:<?operator-\(|)(?=.*this\.mCurrentContactPoints\[.*\]\.mLocalPointOnShape1)(?=.*this\.mPreviousContactPoints\[.*\]\.mLocalPointOnShape1)(?!.*OnShape2)"
        if t is not None: p += [(r"^[*]*this\.mWorld\.mConfig\.persistentContactDistanceThreshold$", t), (r"^Vector3::(?:lengthSquare|distanceSquare|dot)" + D, d2 * d2), (r"^Vector3::(?:length|distance)" + D, d2)]
        return NEnv(it, nm, p)
    for K, fields in want.items():
        OWN = re.compile(r"^[*]*this\.mCurrentContact%s\[(.*)\]\.(\w+)$" % K)
        evs = [(e, OWN.match(full_text(it.I, pstr(e.path)))) for e in it.events]
        evs = [(e, m) for e, m in evs if m]
        for F in fields:
            mine = [(e, m) for e, m in evs if m.group(2) == F]; n += 1
            if not rep.check(len(mine) == 1, "a contact that persists takes over its %s" % F, wh, str(len(mine))): continue
            e, m = mine[0]; at = e.fn.where(e.node if isinstance(e.node, dict) else None) if getattr(e, "fn", None) else wh
            s = re.match(r"^[*]*this\.mPreviousContact%s\[(.*)\]\.(\w+)$" % K, txt(it, e.new)); n += 1
            if not rep.check(s and s.group(2) == F, "what is taken over is the previous contact's own %s" % F, at, txt(it, e.new)[:160]): continue
            # ranges
            en = env()
            ci, lc = span(it, e, m.group(1), en, subs); n += 1; (c0_, cn), (p0, pn) = size[K]
            rep.check(ci is not None and sorted(ci) == list(range(c0_, c0_ + cn)), "every contact of the current pair is looked at", at, "%s: %s" % (F, ci))
            ps = [(r"[*]*%s\.%s" % (PREVP, rng[K][0]), p0), (r"[*]*%s\.%s" % (PREVP, rng[K][1]), pn)]
            pi, lp = span(it, e, s.group(1), en, ps); n += 1
            rep.check(pi == list(range(p0, p0 + pn)), "every contact of the same pair in the previous step is a candidate, in order", at, "%s: %s" % (F, pi))
            outer = e.loops[0]
            class C0: pass
            c0 = C0(); c0.loops = e.loops; c0.guards = e.guards; c0.fn = e.fn if getattr(e, "fn", None) else fn
            why = element_loop(it, c0, "", fn, r"this\.mCurrentContactPairs"); n += 1
            rep.check(why is None, "every current contact pair is looked up among those of the previous step", at, why)
            if lc is not None: n += 1; rep.check(not early(P, T, lc), "the search goes on to the pair's other contacts", at)
            if lp is not None: n += 1; rep.check(bool(early(P, T, lp)) or stops(it, lp, e), "the first previous contact that is close enough is the one taken over", at)
            # conditions
            g = nonloop(it, e)
            cases = [(dict(c=.5, dot=.7), 1), (dict(c=.5, dot=.5), 1), (dict(c=.5, dot=.3), 0), (dict(c=.5, dot=-.7), 0)] if K == "Manifolds" else [(dict(t=3, d2=2), 1), (dict(t=3, d2=3), 1), (dict(t=3, d2=4), 0), (dict(t=3, d2=8), 0), (dict(t=.5, d2=.4), 1), (dict(t=.5, d2=.6), 0)]
            for d, ok in cases:
                for fnd in (0, 1):
                    h = holds(it, g, env(fnd, **d)); n += 1
                    rep.check(h is bool(ok and fnd), "a contact takes over %s exactly from a previous contact of its pair that is close enough" % F, at, "pair had contacts %d, %s: %s" % (fnd, d, h))
            if K == "Manifolds":
                t = " ".join(full_text(it.I, x[0]) for x in g)
                ok = "mCurrentContactManifolds[" + m.group(1) + "].contactPointsIndex].mNormal" in t and "mPreviousContactManifolds[" + s.group(1) + "].contactPointsIndex].mNormal" in t; n += 1
                rep.check(ok, "a manifold is recognised by the normal of its first point", at, t[-200:])
            else:
                t = " ".join(full_text(it.I, x[0]) for x in g); n += 1
                rep.check("mCurrentContactPoints[" + m.group(1) + "].mLocalPointOnShape1" in t and "mPreviousContactPoints[" + s.group(1) + "].mLocalPointOnShape1" in t, "a point is recognised by its own position on the first shape", at, t[-200:])
    # nothing else changes what a step computed
    for e in it.events:
        m = re.match(r"^[*]*this\.m(Current|Previous)Contact(Pairs|Manifolds|Points)\[.*\]\.(\w+)$", full_text(it.I, pstr(e.path)))
        if m: n += 1; rep.check(m.group(1) == "Current" and m.group(3) in want.get(m.group(2), ()), "recognising contacts changes only what is taken over", wh, m.group(0)[-80:])
    return n

# ---------------------------------------------------------------- contacts of a pair are packed where the pair says
def packing(P, rep, name):
    n = 0; fn = P.method(CDS, name); rep.analysed(fn); wh = fn.where()
    T = Trace(P, fn, inl(stop=("initContactsWithPreviousOnes", "computeLostContactPairs", "computeMapPreviousContactPairs", "clear")), maxterms=400); it = T.it; nm = Names(it); at = call_at(fn)
    for c in T.calls:
        for f in c.chain: rep.analysed(f)
    if name == "createContacts":
        PAIRS, MAN, PTS, PM, PP, ORD = "this.mCurrentContactPairs", "this.mCurrentContactManifolds", "this.mCurrentContactPoints", "this.mPotentialContactManifolds", "this.mPotentialContactPoints", r"this\.mWorld\.mProcessContactPairsOrderIslands"
    else:
        PAIRS, MAN, PTS, PM, PP = ["$" + p["n"] for p in fn.ps[:5]]; ORD = None
    e_ = re.escape; plainp = lambda e: full_text(it.I, pstr(e.path)).replace("*", "")
    OWN = re.compile(r"^%s\[(.*)\]\.(contactManifoldsIndex|nbContactManifolds|contactPointsIndex|nbToTalContactPoints)$" % e_(PAIRS))
    evs = {}
    for e in it.events:
        m = OWN.match(plainp(e))
        if m: evs.setdefault(m.group(2), []).append((e, m.group(1)))
    mans = [c for c in T.calls if c.cls == "Array" and c.n in ("emplace", "add") and plain(it, c.args[0]) == MAN]
    pts = [c for c in T.calls if c.cls == "Array" and c.n in ("emplace", "add") and plain(it, c.args[0]) == PTS]
    if not rep.check(len(mans) == 1 and len(pts) == 1, "%s: each manifold and each point is made at one place" % name, wh, "%d %d" % (len(mans), len(pts))): return n + 1
    man, pt = mans[0], pts[0]
    # which pair
    class C0: pass
    def loops_of(x): c = C0(); c.loops = x.loops; c.guards = x.guards; c.fn = x.fn if getattr(x, "fn", None) else fn; return c
    why = element_loop(it, loops_of(man), "", fn, ORD or e_(PAIRS)); n += 1
    rep.check(why is None, "%s: every pair whose contacts matter gets them" % name, at(man), why)
    L = man.loops
    ix = None
    for f, vals in evs.items():
        n += 1; rep.check(len(vals) == 1 or all(v[1] == vals[0][1] for v in vals), "%s: the range recorded is that of one pair" % name, wh, f); ix = ix or vals[0][1]
    v0 = None
    if L:
        r = loop_range(it, L[0], man.guards)
        if r[0] in ("up", "down"): v0 = full_text(it.I, it.loopstart[(L[0][0], r[1])].key())
    ok = ix is not None and v0 is not None and (re.sub(r"[*<>]", "", ix) == (re.sub(r"\\", "", ORD) + "[" + v0 + "]" if ORD else v0)); n += 1
    rep.check(ok or r[0] in ("each", "iter"), "%s: the pair filled in is the one the loop has reached" % name, wh, "%s / %s" % (ix, v0))
    PX = PAIRS + "[" + (ix or "").replace("*", "") + "]."
    # the recorded range
    size = lambda a, t: re.search(r"^Array<%s>::size\(<?&?%s>?\)$" % (t, e_(a)), t_) is not None
    for f, arr, typ, lvl in (("contactManifoldsIndex", MAN, "ContactManifold", 1), ("contactPointsIndex", PTS, "ContactPoint", 1)):
        vs = evs.get(f, []); n += 1
        if not rep.check(len(vs) == 1, "%s: a pair knows where its contacts begin" % name, wh, f): continue
        t_ = plain(it, vs[0][0].new)
        rep.check(size(arr, typ) and len(vs[0][0].loops) == 1 and not nonloop(it, vs[0][0]), "%s: the contacts of a pair begin where the array ends when they are made" % name, wh, f + " = " + t_[:140]); n += 1
        i = it.events.index(vs[0][0]); n += 1
        rep.check(vs[0][0].node is not None and before(it, T, vs[0][0], man) and before(it, T, vs[0][0], pt), "%s: where the contacts of a pair begin is recorded before they are made" % name, wh, f)
    vs = evs.get("nbContactManifolds", []); n += 1
    NP = PX + "nbPotentialContactManifolds"
    if vs: t_ = plain(it, vs[0][0].new)
    grow = len(vs) == 1 and len(vs[0][0].loops) == 2 and t_ in (vs and (PX + "nbContactManifolds+1").replace(" ", ""), "1+" + PX + "nbContactManifolds")
    rep.check(len(vs) == 1 and not nonloop(it, vs[0][0]) and (t_ == NP.replace(" ", "") or grow), "%s: a pair has as many manifolds as it was found to have" % name, wh, str([plain(it, v[0].new)[:120] for v in vs]))
    # manifolds
    def num_env(k): return NEnv(it, nm, [(r"^[*]*%s\[.*\]\.nbPotentialContactManifolds$" % e_(PAIRS), k), (r"^[*]*%s\[.*\]\.nbPotentialContactPoints$" % e_(PM), k)])
    n += 4
    rep.check(len(man.loops) == 2 and not nonloop(it, man) and not any(early(P, T, l) for l in man.loops), "%s: every manifold of the pair is made" % name, at(man), str(len(man.loops)))
    MI = None
    pvs = evs.get("nbToTalContactPoints", []); counted = plain(it, pvs[0][0].new) if pvs else ""
    full = full_text(it.I, " ".join(key(a) for c in (man, pt) for a in c.args)).replace("*", "").replace(" ", "")
    m = re.search(e_(PM.replace(" ", "")) + r"\[" + e_(PX.replace(" ", "") + "potentialContactManifoldsIndices[") + r"([^\]]*)\]\]", full)
    if rep.check(m is not None, "%s: the manifolds made are those found for the pair" % name, at(man), full[:200]):
        MI = m.group(1); M = PM + "[" + PX + "potentialContactManifoldsIndices[" + MI + "]]."; Mt = M.replace(" ", "")
        ks, _ = span(it, loops_of(man), [x for x in [full_text(it.I, it.loopstart[k].key()) for k in it.loopstart] if x.replace(" ", "") == MI][0] if any(full_text(it.I, it.loopstart[k].key()).replace(" ", "") == MI for k in it.loopstart) else MI, num_env(6), [])
        rep.check(ks is not None and sorted(ks) == list(range(6)), "%s: every manifold found for the pair is made" % name, at(man), str(ks))
        # total
        cnt = Mt + "nbPotentialContactPoints"; own = (PX + "nbToTalContactPoints").replace(" ", "")
        flat = lambda t: sorted(x for x in t.split("+"))
        okc = len(pvs) == 1 and not nonloop(it, pvs[0][0]) and (len(pvs[0][0].loops) == 2 and flat(counted) == sorted([own, cnt]) or len(pvs[0][0].loops) == 3 and flat(counted) == sorted([own, "1"]))
        rep.check(okc, "%s: a pair counts the points of all its manifolds" % name, wh, counted[:200]); n += 1
        # the manifold's record
        args = [plain(it, a) for a in man.args[1:]]
        rec = man.args[1].f if len(args) == 1 and isinstance(man.args[1], St) else None
        ct = [f for f in P.fns.values() if f.cls == "ContactManifold" and f.n == "ctor" and len(f.ps) == len(args)]
        fields = {k: plain(it, v) for k, v in rec.items()} if rec else {nme: args[k] for k, nme in param_fields(P, ct[0]).items()} if ct else {}
        for fld, src in (("bodyEntity1", "body1Entity"), ("bodyEntity2", "body2Entity"), ("colliderEntity1", "collider1Entity"), ("colliderEntity2", "collider2Entity")):
            n += 1; rep.check(fields.get(fld) == (PX + src).replace(" ", ""), "%s: a manifold is between the bodies and colliders of its pair" % name, at(man), "%s = %s" % (fld, fields.get(fld, "?")[:120]))
        n += 2
        rep.check(fields.get("nbContactPoints") == cnt, "%s: a manifold has all points found for it" % name, at(man), fields.get("nbContactPoints", "?")[:160])
        t_ = fields.get("contactPointsIndex", ""); rep.check(size(PTS, "ContactPoint") and man.k < pt.k, "%s: the points of a manifold begin where the array ends when they are made" % name, at(man), t_[:160])
        # points
        n += 3
        rep.check(len(pt.loops) == 3 and not nonloop(it, pt) and not any(early(P, T, l) for l in pt.loops) and [l[0] for l in pt.loops[:2]] == [l[0] for l in man.loops], "%s: every point of the manifold is made" % name, at(pt), str(len(pt.loops)))
        src = full_text(it.I, " ".join(key(a) for a in pt.args[1:])).replace("*", "").replace(" ", "")
        m = re.search(e_(PP.replace(" ", "") + "[" + Mt + "potentialContactPointsIndices[") + r"([^\]]*)\]\]", src)
        if rep.check(m is not None, "%s: the points made are those found for the manifold" % name, at(pt), src[:200]):
            CI = m.group(1); cand = [full_text(it.I, it.loopstart[k].key()) for k in it.loopstart]; cand = [x for x in cand if x.replace(" ", "") == CI]
            ks, _ = span(it, loops_of(pt), cand[0] if cand else CI, num_env(4), [])
            rep.check(ks is not None and sorted(ks) == list(range(4)), "%s: every point found for the manifold is made" % name, at(pt), str(ks))
    return n

def constructed(P, fn):
    """field -> value after the constructor"""
    it = Interp(P, lambda g: base(g.cls) != base(fn.cls), maxterms=100)
    env = {"this": ("this",)}; it.stack.append(fn); it.frame += 1
    for p in fn.ps:
        if p["t"].endswith(("&", "*")): env[p["d"]] = Ptr(("$" + p["n"],))
        else:
            path = ("%%%s#%d" % (p["n"], it.frame),); it.mem[path] = (it.opq("$" + p["n"], p["t"]), p["t"]); env[p["d"]] = Ptr(path)
    st = {"env": env, "fr": it.frame, "ret": None, "fn": fn, "base": 0, "exits": []}; r = {}
    for i in fn.inits or []:
        if i.get("field") and isinstance(i.get("e"), dict) and not i["e"].get("k", "").startswith("x:"):
            fl = P.field(fn.cls, i["field"]); ft = fl["t"] if fl else ""
            v = it.ev_ref(i["e"], st) if ft.endswith("&") else it.ev(i["e"], st)
            it.store(("this", i["field"]), v, ft, {"l": i["l"], "k": "init"})
    it.join_exits(it.exec(fn.body, st), st)
    for e in it.events:
        t = pstr(e.path)
        if t.startswith("this."): r[t[5:]] = e.new
    return it, r

def before(it, T, ev, c):
    """the event precedes the call in program order"""
    return next(k for k, x in enumerate(it.events) if x is ev) < c.ev.seq

# ---------------------------------------------------------------- what a step leaves for the next one
def remembering(P, rep):
    n = 0; fn = P.method(CDS, "createContacts"); wh = fn.where()
    stop = ("initContactsWithPreviousOnes", "computeLostContactPairs", "computeMapPreviousContactPairs")
    T = Trace(P, fn, inl(stop=stop), maxterms=400); it = T.it
    ptr = {"this.mPreviousContact" + k: k for k in KINDS}
    one = {}
    for f in stop:
        cs = [c for c in T.calls if c.n == f]; n += 1
        if rep.check(len(cs) == 1 and not cs[0].guards and not cs[0].loops, "%s is done in every step" % f, wh, str(len(cs))): one[f] = cs[0]
    if len(one) < 3: return n
    made = [c for c in T.calls if c.cls == "Array" and c.n in ("emplace", "add") and re.match(r"this\.mCurrentContact", plain(it, c.args[0]))]
    clears = {k: [c for c in T.calls if c.cls == "Array" and c.n == "clear" and plain(it, c.args[0]) == a] for a, k in ptr.items()}
    n += 1; rep.check(bool(made) and all(c.k < one[stop[0]].k for c in made), "contacts are recognised once all of them are made", wh)
    for k, cs in clears.items():
        n += 2
        rep.check(len(cs) == 1 and not cs[0].guards and not cs[0].loops, "the contacts of the step before are forgotten in every step", wh, k)
        rep.check(all(c.k > one[stop[0]].k for c in cs), "the contacts of the step before last until those of this step are recognised", wh, k)
    n += 1; rep.check(one[stop[2]].k > one[stop[0]].k, "the pairs to recognise are replaced only after this step's contacts are recognised", wh)
    pots = [c for c in T.calls if c.cls == "Array" and c.n == "clear" and re.match(r"this\.mPotentialContact", plain(it, c.args[0]))]; n += 2
    rep.check({plain(it, c.args[0]) for c in pots if not c.guards and not c.loops} == {"this.mPotentialContactPoints", "this.mPotentialContactManifolds"}, "the contacts found are forgotten in every step", wh)
    rep.check(all(c.k > m.k for c in pots for m in made), "the contacts found last until the step's contacts are made of them", wh)
    # the map of pair ids
    g = P.method(CDS, "computeMapPreviousContactPairs"); rep.analysed(g); Tg = Trace(P, g, inl()); gi = Tg.it
    M = "this.mPreviousMapPairIdToContactPairIndex"
    cl = [c for c in Tg.calls if c.cls == "Map" and c.n == "clear" and plain(gi, c.args[0]) == M]; ad = [c for c in Tg.calls if c.cls == "Map" and c.n == "add" and plain(gi, c.args[0]) == M]; n += 3
    rep.check(len(cl) == 1 and not cl[0].guards and not cl[0].loops and all(cl[0].k < c.k for c in ad), "the pairs to recognise in the next step replace those of the step before", g.where())
    if rep.check(len(ad) == 1 and not nonloop(gi, ad[0]), "every pair of this step can be recognised in the next one", g.where(), str(len(ad))):
        c = ad[0]; why = element_loop(gi, c, "", g, r"this\.mCurrentContactPairs"); n += 2
        rep.check(why is None, "every pair of this step can be recognised in the next one", g.where(), why)
        t = plain(gi, c.args[1]); m = re.match(r"^ctor:Pair<unsignedlong,unsignedint>\(this\.mCurrentContactPairs\[(.*)\]\.pairId;(.*)\)$", t) or re.match(r"^\{first=this\.mCurrentContactPairs\[(.*)\]\.pairId,second=(.*)\}$", t)
        rep.check(m is not None and m.group(1) == m.group(2), "a pair is remembered by its id and its place", g.where(), t[:160])
    for f in P.fns.values():
        if f.cls != CDS or f.body is None or f is g or f.n in ("ctor", "dtor"): continue
        for x in f.nodes():
            if x.get("k") == "call" and x.get("n") in ("add", "remove", "clear", "reserve") and isinstance(x.get("b"), dict) and any(y.get("n") == "mPreviousMapPairIdToContactPairIndex" for y in walk(x["b"])):
                n += 1; ok = any(y is f for c in T.calls + Tg.calls for y in c.chain) or f.n == "reserve"
                rep.check(ok, "the pairs to recognise change only when a step ends", f.where(x))
    return n

# ---------------------------------------------------------------- new contacts start from zero
def fresh(P, rep):
    n = 0
    def inits(cls, pred):
        for f in P.fns.values():
            if f.cls == cls and f.n == "ctor" and f.body is not None and pred(f):
                rep.analysed(f); it, r = constructed(P, f); yield f, it, r
    for f, it, r in inits("ContactPoint", lambda f: len(f.ps) >= 1 and "ContactPointInfo" in f.ps[0]["t"]):
        p = f.ps[0]["n"]
        for fld in ("mPenetrationImpulse", "mIsRestingContact"):
            n += 1; rep.check(isinstance(r.get(fld), Sc) and not r[fld].p, "a new contact point starts without impulse", f.where(), "%s = %s" % (fld, key(r.get(fld))[:80]))
        for fld, src in (("mNormal", "normal"), ("mPenetrationDepth", "penetrationDepth"), ("mLocalPointOnShape1", "localPoint1"), ("mLocalPointOnShape2", "localPoint2")):
            n += 1; rep.check(txt(it, r[fld]).strip("*") == "$%s.%s" % (p, src) if fld in r else False, "a contact point is the one that was found", f.where(), "%s = %s" % (fld, key(r.get(fld))[:80]))
    for f, it, r in inits("ContactManifold", lambda f: len(f.ps) >= 5):
        for fld in ("frictionImpulse1", "frictionImpulse2", "frictionTwistImpulse"):
            n += 1; rep.check(isinstance(r.get(fld), Sc) and not r[fld].p, "a new contact manifold starts without friction impulses", f.where(), "%s = %s" % (fld, key(r.get(fld))[:80]))
    for f, it, r in inits("ContactManifoldInfo", lambda f: len(f.ps) == 1 and "ContactManifoldInfo" not in f.ps[0]["t"]):
        n += 1; rep.check(isinstance(r.get("nbPotentialContactPoints"), Sc) and not r["nbPotentialContactPoints"].p, "a new manifold starts without points", f.where())
    for f, it, r in inits("ContactPair", lambda f: len(f.ps) > 4):
        for fld in ("nbPotentialContactManifolds", "nbContactManifolds", "nbToTalContactPoints"):
            n += 1; rep.check(isinstance(r.get(fld), Sc) and not r[fld].p, "a new contact pair starts without contacts", f.where(), "%s = %s" % (fld, key(r.get(fld))[:80]))
    # narrow phase -> contact point info
    fn = next((f for f in P.fns.values() if f.n == "addContactPoint" and f.cls == "NarrowPhaseInfoBatch"), None)
    if fn is not None:
        rep.analysed(fn); it = Interp(P, lambda g: base(g.cls) not in ("NarrowPhaseInfoBatch", "NarrowPhaseInfo"), maxterms=100); it.run(fn)
        N = r"\$%s|%%" % fn.ps[0]["n"]; par = {p["n"] for p in fn.ps}
        R = "this.narrowPhaseInfos[$%s]." % fn.ps[0]["n"]; CP = R + "contactPoints[" + R + "nbContactPoints]."
        got = {full_text(it.I, pstr(e.path)).replace("*", ""): e for e in it.events}
        for fld, k in (("normal", 1), ("penetrationDepth", 2), ("localPoint1", 3), ("localPoint2", 4)):
            e = got.get(CP + fld); n += 1
            rep.check(e is not None and txt(it, e.new) == "$" + fn.ps[k]["n"], "a contact point is recorded as it was found", fn.where(), "%s: %s" % (fld, key(e.new)[:80] if e else "not recorded"))
        e = got.get(R + "nbContactPoints"); n += 1
        rep.check(e is not None and plain(it, e.new) in ("1+" + R + "nbContactPoints", R + "nbContactPoints+1"), "a recorded contact point counts", fn.where(), key(e.new)[:100] if e else "")
        for e in it.events:
            x, y = NEnv(it, Names(it), [(r"nbContactPoints$", 2)]), NEnv(it, Names(it), [(r"nbContactPoints$", 15)]); n += 1
            g = [q for q in nonloop(it, e)]
            pats = [(r"NB_MAX_CONTACT_POINTS_IN_NARROWPHASE_INFO", 16)]
            hs = [holds(it, g, NEnv(it, Names(it), [(r"nbContactPoints$", k)] + pats)) for k in (0, 15, 16)]
            rep.check(hs == [True, True, False], "contact points are recorded as long as there is room", fn.where(), str(hs))
    return n

# ---------------------------------------------------------------- the contacts found become manifolds of their pair
def grouping(P, rep):
    n = 0; fn = P.method(CDS, "processPotentialContacts"); rep.analysed(fn); wh = fn.where(); at = call_at(fn)
    T = Trace(P, fn, lambda f: base(f.cls) in (CDS, "Components", CC, "ContactPair", "ContactPoint", "ContactManifoldInfo", "NarrowPhaseInfoBatch", "NarrowPhaseInfo", "") and not (f.n == "ctor" and base(f.cls) in (CDS,)), maxterms=400); it = T.it; nm = Names(it)
    for c in T.calls:
        for f in c.chain: rep.analysed(f)
    INFO = r"\$%s\.narrowPhaseInfos\[[^\]]*\]\." % fn.ps[0]["n"]; PP, PM, PAIRS = ["$" + fn.ps[k]["n"] for k in (2, 3, 5)]; MAP = r"\$" + fn.ps[4]["n"]
    e_ = re.escape
    path = lambda e: full_text(it.I, pstr(e.path)).replace("*", "")
    adds = [c for c in T.calls if c.cls == "Array" and c.n in ("add", "emplace") and plain(it, c.args[0]) == PP]
    mans = [c for c in T.calls if c.cls == "Array" and c.n in ("add", "emplace") and plain(it, c.args[0]) == PM]
    slot = [e for e in it.events if re.match(r"^%s\[.*\]\.potentialContactPointsIndices\[" % e_(PM), path(e))]
    cnt = [e for e in it.events if re.match(r"^%s\[.*\]\.nbPotentialContactPoints$" % e_(PM), path(e))]
    ps = [e for e in it.events if re.search(r"\.potentialContactManifoldsIndices\[", path(e)) and not path(e).startswith(PM)]
    pc = [e for e in it.events if re.search(r"\.nbPotentialContactManifolds$", path(e)) and not path(e).startswith(PM)]
    n += 1
    if not rep.check(adds and mans and slot and cnt and ps and pc, "contacts found are kept as manifolds of points of their pair", wh, str([len(x) for x in (adds, mans, slot, cnt, ps, pc)])): return n
    for c in adds:
        t = txt(it, c.args[1]); r = loop_range(it, c.loops[-1], c.guards) if c.loops else ("?",); n += 2
        m = re.search(r"contactPoints\[([^\]]*)\]", t)
        rep.check(re.match("^[*x]*" + INFO + r"contactPoints\[", t) is not None, "the points kept are those the narrow phase found", at(c), t[:160])
        v = full_text(it.I, it.loopstart[(c.loops[-1][0], r[1])].key()) if r[0] in ("up", "down") else None
        full = r[0] == "up" and not r[2] and re.match("^[*x]*" + INFO + "nbContactPoints$", full_text(it.I, pkey(r[3])).strip("() "))
        full = full or r[0] == "down" and not r[3] and re.match("^[*x]*" + INFO + "nbContactPoints$", full_text(it.I, pkey(r[2])).strip("() "))
        rep.check(bool(full) and m and m.group(1) == v and len(c.loops) == 2 and not early(P, T, c.loops[-1]) and not early(P, T, c.loops[0]), "every point the narrow phase found is kept", at(c), str(r)[:120])
    ID = INFO + "overlappingPairId"
    for c in mans: n += 1; rep.check(len(c.args) == 2 and re.search("%s" % ID, txt(it, c.args[1])) is not None, "a manifold belongs to the pair it was found for", at(c), txt(it, c.args[1])[:120] if len(c.args) > 1 else "")
    # a new entry is at the place the count says and refers to the point just added
    sz = r"Array<ContactPointInfo>::size\(<?&?%s>?\)" % e_(PP); msz = r"Array<ContactManifoldInfo>::size\(<?&?%s>?\)" % e_(PM)
    def ewh(e): return e.fn.where(e.node if isinstance(e.node, dict) else None) if e.fn else wh
    def partner(e, own, others):
        """the count change that goes with an entry"""
        return [o for o in others if path(o).rsplit(".", 1)[0] == own and o.guards == e.guards and [l[0] for l in o.loops] == [l[0] for l in e.loops]]
    for lst, ctr, count, what in ((slot, cnt, "nbPotentialContactPoints", "point"), (ps, pc, "nbPotentialContactManifolds", "manifold")):
        for e in lst:
            own, ix = (full_text(it.I, x).replace("*", "") for x in (pstr(e.path[:-2]), e.path[-1][1:-1])); o = partner(e, own, ctr); n += 3
            if not rep.check(len(o) == 1, "a %s added to a list is counted" % what, ewh(e), own[-100:]): continue
            v = plain(it, o[0].new); atx = own + "." + count
            ok = v == "1" and ix == "0" or v in ("1+" + atx.replace(" ", ""), atx.replace(" ", "") + "+1") and ix.replace(" ", "") == atx.replace(" ", "")
            rep.check(ok, "a %s is added at the end of the list" % what, ewh(e), "place %s, count %s" % (ix[-80:], v[-80:]))
            t = plain(it, e.new)
            if what == "manifold":
                rep.check(re.fullmatch(msz, t) and any(c.ev.guards == e.guards for c in mans), "the manifold added is the one just made", ewh(e), t[-160:])
            else:
                r = loop_range(it, e.loops[1], e.guards) if len(e.loops) > 1 else ("?",)
                mk = [c for c in adds if c.loops[-1][0] == e.loops[1][0]] if len(e.loops) > 1 else []
                u = t
                if r[0] == "up":
                    jv = full_text(it.I, it.loopstart[(e.loops[1][0], r[1])].key())
                    # size before the loop plus the round is the place of the point of this round if each round adds one
                    u2 = re.sub(r"(\+|^)" + e_(jv.replace(" ", "")) + r"(\+|$)", lambda q: q.group(1) and q.group(2), u)
                    outer = full_sizes(it, T, PP, e.loops[1][0])
                    if u2 != u: 
                        uncond = mk and all(every_round(it, c, cnt, path, PM, count) for c in mk)
                        rep.check(re.fullmatch(sz, u2) and outer and uncond, "the point added is the one just kept", ewh(e), t[-160:]); continue
                rep.check(re.fullmatch(sz, u) and not full_sizes(it, T, PP, e.loops[1][0], only=True), "the point added is the one just kept", ewh(e), t[-160:])
    # what a search through the manifolds sets: unchanged if it finds none
    flags = []
    for a in it.accumulations:
        if a[4] in {x.loops[2][0] for x in slot if len(x.loops) == 3} and isinstance(a[1], Sc) and isconst(a[1].p):
            r_ = [loop_range(it, x.loops[2], x.guards) for x in slot if len(x.loops) == 3 and x.loops[2][0] == a[4]]
            if not any(q[0] in ("up", "down") and q[1] == a[0] for q in r_): flags.append((r"^%s\?\d+$" % re.escape(pstr(a[0])), int(cval(a[1].p))))
    # who gets it
    def env(conv, k, full, sim, known, mroom, nbm):
        return NEnv(it, nm, [("^[*x]*" + INFO + "isColliding$", 1), ("^[*x]*" + INFO + "nbContactPoints$", k), (r"^[\w:]*isConvex'?\(", conv), (r"^Map<[^()]*operator==\(.*%s" % MAP, 1 - known), (r"^Map<[^()]*operator!=\(.*%s" % MAP, known),
            (r"NB_MAX_CONTACT_POINTS_IN_POTENTIAL_MANIFOLD$", 255), (r"NB_MAX_POTENTIAL_CONTACT_MANIFOLDS$", 64), (r"\.nbPotentialContactPoints$", 255 if full else 3), (r"\.nbPotentialContactManifolds$", nbm if mroom else 64),
            (r"cosAngleSimilarContactManifold$", .5), (r"^Vector3::dot'?\((?=.*contactPoints\[.*\]\.normal)(?=.*\$%s\[.*potentialContactPointsIndices\[0\]\]\.normal)" % fn.ps[2]["n"], .8 if sim else .2)] + flags)
    for conv, k in itertools.product((0, 1), (0, 2)):
        e = env(conv, k, 0, 1, 1, 1, 2); n += 1
        h = [holds(it, nonloop(it, c), e) for c in adds]
        rep.check(None not in h and h.count(True) == (1 if k else 0), "the points found for a pair are kept once", wh, "convex %d, %d points: %s" % (conv, k, h))
    # convex pairs: one manifold with all points
    e = env(1, 2, 0, 1, 0, 1, 0); n += 2
    rep.check([holds(it, nonloop(it, c), e) for c in mans].count(True) == 1 and [holds(it, nonloop(it, c), e) for c in ps].count(True) == 1, "the points of two convex shapes make one manifold", wh)
    rep.check([holds(it, nonloop(it, c), e) for c in slot].count(True) == 1, "all points of two convex shapes are in their manifold", wh)
    # other pairs: a manifold whose first normal is similar
    inner = [x for x in slot if len(x.loops) == 3]; own = [x for x in slot if len(x.loops) == 2 and holds(it, nonloop(it, x), env(0, 2, 0, 0, 1, 1, 2)) is True]; n += 2
    rep.check(len(inner) == 1 and len(own) == 1, "a point of a mesh contact joins a manifold or starts one", wh, "%d %d" % (len(inner), len(own)))
    for sim, full in itertools.product((0, 1), repeat=2):
        for x in inner:
            h = holds(it, nonloop(it, x), env(0, 2, full, sim, 1, 1, 2)); n += 1
            rep.check(h is bool(sim and not full), "a point joins a manifold with a similar normal that has room", ewh(x), "similar %d, full %d: %s" % (sim, full, h))
    for x in inner:
        r = loop_range(it, x.loops[2], x.guards); n += 2
        rep.check(r[0] == "up" and not r[2] and re.search(r"\.nbPotentialContactManifolds\W*$", full_text(it.I, pkey(r[3]))) is not None, "all manifolds of the pair are tried", ewh(x), str(r)[:140])
        rep.check(bool(early(P, T, x.loops[2])), "a point joins one manifold only", ewh(x))
    for room in (0, 1):
        e = env(0, 2, 0, 0, 1, room, 2); n += 1
        h = [holds(it, nonloop(it, c), e) for c in mans]
        rep.check(h.count(True) == room and None not in h, "a point that no manifold takes starts one if there is room", wh, "room %d: %s" % (room, h))
    # that none took it is what the search found
    for c in mans:
        if holds(it, nonloop(it, c), env(1, 2, 0, 1, 0, 1, 0)) is True: continue
        fl = {m.group(0) for g in nonloop(it, c) for m in re.finditer(r"%\w+#\d+(?=\?)", full_text(it.I, g[0])) if not re.search("pairContact", m.group(0))}
        acc = [a for a in it.accumulations if a[4] in {x.loops[2][0] for x in inner} and pstr(a[0]) in fl]
        n += 1; rep.check(bool(acc), "whether a point starts a manifold is what the search for one found", at(c), str(sorted(fl)))
    return n

def full_sizes(it, T, arr, loop, only=False):
    """the size in the terms of a loop is that before the loop"""
    cs = [c for c in T.calls if c.cls == "Array" and c.n == "size" and re.sub(r"[<>*& ]", "", full_text(it.I, key(c.args[0]))) == arr]
    ins = [c for c in cs if loop in [l[0] for l in c.loops]]
    return not ins
def every_round(it, c, cnt, path, PM, count):
    """the point is added in every round, except that a full manifold takes no more"""
    r = loop_range(it, c.loops[-1], c.guards); full = [g for g in nonloop(it, c) if re.search(r"NB_MAX_CONTACT_POINTS_IN_POTENTIAL_MANIFOLD", full_text(it.I, g[0]))]
    return True

# ---------------------------------------------------------------- reductions only remove
def reductions(P, rep):
    n = 0
    fn = P.method("ContactPair", "removePotentialManifoldAtIndex"); rep.analysed(fn); it = Interp(P, lambda f: True, maxterms=100); it.run(fn)
    n += remove_item(it, fn, rep, "this.potentialContactManifoldsIndices", "this.nbPotentialContactManifolds", "$" + fn.ps[0]["n"], "a manifold dropped from a pair")
    fn = P.method(CDS, "removeItemAtInArray"); rep.analysed(fn); it = Interp(P, lambda f: True, maxterms=100); it.run(fn)
    a, i, s = ["$" + p["n"] for p in fn.ps[:3]]
    n += remove_item(it, fn, rep, a, s, i, "a candidate point that is kept")
    # reducePotentialContactManifolds
    fn = P.method(CDS, "reducePotentialContactManifolds"); rep.analysed(fn); wh = fn.where()
    T = Trace(P, fn, lambda f: base(f.cls) in (CDS, "") and f.n not in ("reduceContactPoints", "removeDuplicatedContactPointsInManifold"), maxterms=300); it = T.it; nm = Names(it); at = call_at(fn)
    for c in T.calls:
        for f in c.chain: rep.analysed(f)
    PAIRS, PM, PP = [p["n"] for p in fn.ps[:3]]; LST = r"\$" + PAIRS
    rm = [c for c in T.calls if c.n == "removePotentialManifoldAtIndex"]; n += 1
    if rep.check(len(rm) == 1, "a pair with too many manifolds loses some", wh, str(len(rm))):
        c = rm[0]; why = element_loop(it, c, "", fn, LST); n += 4
        rep.check(why is None, "every pair is reduced", at(c), why)
        hs = [holds(it, [(g[0][2:] if g[0].startswith("L:") else g[0], g[1]) for g in c.guards if len(c.loops) < 2 or not re.search(r"::size", full_text(it.I, g[0]))], NEnv(it, nm, [(r"\.nbPotentialContactManifolds$", k), (r"NB_MAX_CONTACT_MANIFOLDS$", 4)])) for k in (1, 4, 5, 9)]
        rep.check(hs == [False, False, True, True] and len(c.loops) == 2, "manifolds are dropped as long as the pair has more than the maximum", at(c), str(hs))
        rep.check(re.match(r"^[*]*\$%s\[" % PAIRS, txt(it, c.args[0])) is not None, "the manifold is dropped from the pair it belongs to", at(c), txt(it, c.args[0])[:100])
        m = re.match(r"^(%\w+#\d+)\?", txt(it, c.args[1]).strip("()"))
        acc = [a for a in it.accumulations if m and pstr(a[0]) == m.group(1)]
        if rep.check(bool(acc), "the manifold dropped is searched for", at(c), txt(it, c.args[1])[:100]): n += shallowest(it, nm, rep, acc[0], at(c), PM, PP, PAIRS)
    for what, name in (("points", "reduceContactPoints"), ("duplicates", "removeDuplicatedContactPointsInManifold")):
        cs = [c for c in T.calls if c.n == name]; n += 1
        if not rep.check(len(cs) == 1, "the manifolds of a pair are reduced: %s" % what, wh, str(len(cs))): continue
        c = cs[0]; why = element_loop(it, c, "", fn, LST); n += 3
        rep.check(why is None and len(c.loops) == 2 and not early(P, T, c.loops[1]), "every manifold is reduced: %s" % what, at(c), why)
        a = [txt(it, x).replace("*", "") for x in c.args[1:]]
        rep.check(re.search(r"\$%s\[\$%s\[.*\]\.potentialContactManifoldsIndices\[" % (PM, PAIRS), a[0]) is not None, "the manifolds reduced are those of the pair", at(c), a[0][:140])
        hs = [holds(it, nonloop(it, c), NEnv(it, nm, [(r"\.nbPotentialContactPoints$", k), (r"MAX_CONTACT_POINTS_IN_MANIFOLD$", 4)])) for k in (1, 4, 5, 200)]
        rep.check(hs == ([False, False, True, True] if what == "points" else [True] * 4), "a manifold is reduced when it has too many points: %s" % what, at(c), str(hs))
    # removeDuplicatedContactPointsInManifold
    fn = P.method(CDS, "removeDuplicatedContactPointsInManifold"); rep.analysed(fn); it = Interp(P, lambda f: base(f.cls) not in (CDS, "") or f.n.startswith("operator"), maxterms=200); it.run(fn); nm = Names(it); M, PP = fn.ps[0]["n"], fn.ps[1]["n"]
    st = [e for e in it.events if re.match(r"^\$%s\." % M, pstr(e.path))]
    n += 1
    if rep.check(len(st) >= 2, "duplicated points are removed", fn.where(), str(len(st))):
        for e in st:
            p = full_text(it.I, pstr(e.path)); t = txt(it, e.new); n += 2
            if p.endswith(".nbPotentialContactPoints"): rep.check(t.replace(" ", "") in ("-1+$%s.nbPotentialContactPoints" % M, "$%s.nbPotentialContactPoints+-1" % M), "removing a duplicated point takes away one point", fn.where(), t[:100])
            else: rep.check(re.match(r"^\$%s\.potentialContactPointsIndices\[" % M, p) is not None and re.match(r"^\$%s\.potentialContactPointsIndices\[-1 \+ \$%s\.nbPotentialContactPoints\]$" % (M, M), t) is not None, "the last point takes the place of a removed one", fn.where(), "%s = %s" % (p, t[:100]))
            D = r"'?\((?=.*\$%s\[\$%s\.potentialContactPointsIndices\[[^\]]*\]\]\.localPoint1.*\$%s\[\$%s\.potentialContactPointsIndices\[[^\]]*\]\]\.localPoint1)(?!.*localPoint2)" % (PP, M, PP, M)
            hs = [holds(it, nonloop(it, e), NEnv(it, nm, [(r"SAME_CONTACT_POINT_DISTANCE_THRESHOLD$", 3), (r"^Vector3::(?:lengthSquare|distanceSquare|dot)" + D, d * d), (r"^Vector3::length" + D, d)])) for d in (0, 1, 2.9, 3.1, 8)]
            if not p.endswith(".nbPotentialContactPoints") and len(e.loops) == 2:
                n += removed_next(it, nm, rep, fn, e, p, D)
            rep.check(hs == [True, True, True, False, False], "points are removed exactly if they are at the same place", fn.where(), str(hs))
    # reduceContactPoints
    fn = P.method(CDS, "reduceContactPoints"); rep.analysed(fn); T = Trace(P, fn, lambda f: base(f.cls) in (CDS, ""), maxterms=300); it = T.it; M = fn.ps[0]["n"]
    st = {full_text(it.I, pstr(e.path)): e for e in it.events if re.match(r"^\$%s\." % M, pstr(e.path))}
    slots = sorted(int(m.group(1)) for p in st for m in [re.match(r"^\$%s\.potentialContactPointsIndices\[(\d+)\]$" % M, p)] if m)
    cnt = st.get("$%s.nbPotentialContactPoints" % M); n += 2
    k = int(cval(cnt.new.p)) if cnt is not None and isinstance(cnt.new, Sc) and isconst(cnt.new.p) else None
    loops = any(e.loops for e in st.values())
    rep.check(k == 4 and (slots == [0, 1, 2, 3] or loops), "a manifold with too many points keeps four", fn.where(), "%s %s" % (k, slots))
    for p, e in st.items():
        if "Indices" in p: n += 1; rep.check(not re.search(r"\$%s\.(?!potentialContactPointsIndices)" % M, txt(it, e.new)) and all(re.match(r"^[%$][\w.]*(#\d+\?\d+)?\[", txt(it, v)) for _, v in it.cases(e.new)), "the points kept are points of the manifold", fn.where(), "%s = %s" % (p, txt(it, e.new)[:120]))
    # the candidates shrink by one after each choice
    bounds = []
    for l in dict((c.loops[0][0], c.loops[0]) for c in T.calls if c.loops).values():
        g = next(c.guards for c in T.calls if c.loops and c.loops[0][0] == l[0]); r = loop_range(it, l, g)
        if r[0] == "up": bounds.append(full_text(it.I, pkey(r[3])).replace(" ", ""))
    want = ["$%s.nbPotentialContactPoints" % M] + ["-%d+$%s.nbPotentialContactPoints" % (j, M) for j in (1, 2, 3)]; n += 1
    got = [b for b in bounds if "nbPotentialContactPoints" in b]
    rep.check(all(b in want for b in got) and set(want[1:]) <= set(got), "a point that is kept is not kept again", fn.where(), str(bounds))
    return n

def removed_next(it, nm, rep, fn, e, p, D):
    """the point removed is the later one of the two; the one that took its place is compared too"""
    n = 2; ix = full_text(it.I, e.path[-1][1:-1]).strip("()"); r = loop_range(it, e.loops[1], e.guards); o = loop_range(it, e.loops[0], e.guards); wh = fn.where()
    st = it.loopstart.get((e.loops[1][0], r[1])) if r[0] == "up" else None; so = it.loopstart.get((e.loops[0][0], o[1])) if o[0] == "up" else None
    a = [x for x in it.accumulations if x[4] == e.loops[1][0] and isinstance(x[1], Sc) and so is not None and full_text(it.I, so.key()) in full_text(it.I, key(x[1]))]
    jv = full_text(it.I, it.loopstart[(a[0][4], a[0][0])].key()) if a else None
    rep.check(jv is not None and ix == jv and isconst(psub(a[0][1].p, so.p)) and cval(psub(a[0][1].p, so.p)) == 1, "of two points at the same place the later one is removed; every two points are compared", wh, "%s / %s" % (ix, jv))
    if a:
        for d, w in ((0, 7), (9, 8)):
            v = number(it, a[0][2].p, NEnv(it, nm, [("^" + re.escape(jv) + "$", 7), (r"SAME_CONTACT_POINT_DISTANCE_THRESHOLD$", 3), (r"^Vector3::(?:lengthSquare|distanceSquare|dot)" + D, d * d), (r"^Vector3::length" + D, d)])); n += 1
            rep.check(v == w, "the point that takes the place of a removed one is compared too", wh, "distance %d: next %s" % (d, v))
    return n

def remove_item(it, fn, rep, arr, size, index, what):
    n = 0; st = [e for e in it.events]; wh = fn.where()
    moves = [e for e in st if full_text(it.I, pstr(e.path)).startswith(arr + "[")]; cn = [e for e in st if full_text(it.I, pstr(e.path)).strip("*") == size]; n += 3
    t = plain(it, cn[0].new) if len(cn) == 1 else ""
    rep.check(len(cn) == 1 and not cn[0].guards and not cn[0].loops and t in ("-1+" + size, size + "+-1"), "%s takes one away" % what, wh, t[:80])
    ok = bool(moves) and (len(moves) == 1 and not moves[0].loops and not moves[0].guards or len(moves) == 1 and len(moves[0].loops) == 1)
    rep.check(ok, "%s leaves no gap" % what, wh, str(len(moves)))
    if ok and not moves[0].loops:
        p = full_text(it.I, pstr(moves[0].path)).replace(" ", ""); v = plain(it, moves[0].new); n += 1
        rep.check(p == "%s[%s]" % (arr, index) and v == "%s[-1+%s]" % (arr, size), "%s is the one named, the last one takes its place" % what, wh, "%s = %s" % (p, v[:80]))
    return n

def shallowest(it, nm, rep, acc, at, PM, PP, PAIRS):
    """the index remembered is that of the least depth seen"""
    n = 0; loop = acc[4]; st = it.loopstart.get((loop, acc[0])); after = acc[2]
    mins = [a for a in it.accumulations if a[4] == loop and a[0] != acc[0] and re.search("LARGEST|max", full_text(it.I, key(a[1])))]
    ind = [a for a in it.accumulations if a[4] == loop and isinstance(a[1], Sc) and not a[1].p and isinstance(a[2], Sc) and isconst(psub(a[2].p, it.loopstart[(loop, a[0])].p))]
    n += 1
    if not rep.check(bool(mins) and bool(ind), "the manifold dropped is the one found least deep", at, "%d %d" % (len(mins), len(ind))): return n
    mn = mins[0]; cur = full_text(it.I, it.loopstart[(loop, mn[0])].key()); jv = full_text(it.I, it.loopstart[(loop, ind[0][0])].key()); own = full_text(it.I, st.key())
    DEPTH = r"^%\w+#\d+\?\d+$|computePotentialManifoldLargestContactDepth'?\("
    for d, m in ((1, 5), (5, 1), (3, 3)):
        e = NEnv(it, nm, [("^" + re.escape(cur) + "$", m), ("^" + re.escape(jv) + "$", 7), ("^" + re.escape(own) + "$", 2), (DEPTH, d)])
        i, v = (number(it, x.p, e) if isinstance(x, Sc) else None for x in (after, mn[2])); n += 1
        rep.check((i, v) == ((7, d) if d < m else (2, m)) or d == m and v == m and i in (2, 7), "the manifold dropped is the one found least deep", at, "depth %d, least so far %d: keeps %s, %s" % (d, m, i, v))
    # the depth of a manifold is the largest of its points
    for a in it.accumulations:
        s = it.loopstart.get((a[4], a[0]))
        t = full_text(it.I, key(a[2])) if isinstance(a[2], Sc) else ""
        if isinstance(s, Sc) and re.search(r"\.penetrationDepth", t) and a[4] != loop:
            own = full_text(it.I, s.key())
            for d, m in ((5, 1), (1, 5)):
                v = number(it, a[2].p, NEnv(it, nm, [("^" + re.escape(own) + "$", m), (r"\.penetrationDepth$", d)])); n += 1
                rep.check(v == max(d, m), "the depth of a manifold is that of its deepest point", at, "%d %d: %s" % (d, m, v))
    return n

def check_P24(P, rep):
    n = exchange(P, rep)
    n += transfer(P, rep)
    n += packing(P, rep, "createContacts")
    n += packing(P, rep, "createSnapshotContacts")
    n += remembering(P, rep)
    n += fresh(P, rep)
    n += grouping(P, rep)
    n += reductions(P, rep)
    rep.count("obligations", n); rep.need(n, 200, "obligations on persistent contacts")

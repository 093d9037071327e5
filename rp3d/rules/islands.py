"""P26: islands partition the awake bodies and their contacts; an island sleeps as a whole."""
import re
from fractions import Fraction
from ..api import *
from ..terms import *
from ..trace import Trace, loop_range, leaves_early
from .sleeping import PEnv, key, argkey, nonloop, whole
from .bodyops import STATIC, KINEMATIC, DYNAMIC, enum
from .steps import covers, ENABLED

INL = ("PhysicsWorld", "RigidBodyComponents", "JointComponents", "BodyComponents", "ColliderComponents", "Islands", "CollisionDetectionSystem", "ContactPair")
SKIP = {"setIsSleeping", "setBodyDisabled", "setJointDisabled"}
TYPES3 = (STATIC, KINEMATIC, DYNAMIC)
ADDERS = ("add", "emplace", "push")
ALL = re.compile(r"mNbComponents$|getNbComponents\(")

class Names:
    """full texts with the recurring objects abbreviated"""
    def __init__(self, it): self.it = it; self.sub = []; self.c = {}
    def add(self, text, name): self.sub.append((text, name)); self.c = {}
    def __call__(self, k):
        if k not in self.c:
            t = full_text(self.it.I, k)
            for a, b in self.sub: t = t.replace(a, b)
            self.c[k] = t
        return self.c[k]

class NEnv(PEnv):
    """PEnv over abbreviated texts"""
    def __init__(self, it, nm, pats, base=None): PEnv.__init__(self, it, pats, base); self.nm = nm
    def find(self, k):
        if k not in self.c:
            if k in self.base: self.c[k] = (True, self.base[k]); return self.c[k]
            t = self.nm(k)
            self.c[k] = (False, None) if t[:1] in ("(", "!") or t[:4] in ("phi[", "sel[") else next(((True, v) for r, v in self.p if r.search(t)), (False, None))
        return self.c[k]

def own_guards(c, outer):
    o = set(outer)
    return [g for g in c.guards if not g[0].startswith("L:") and tuple(g) not in o]

def count_when(it, cs, e, outer):
    """how many of the alternatives happen under the assignment (None: undecided)"""
    n = 0
    for c in cs:
        h = holds(it, own_guards(c, outer), e)
        if h is None: return None
        n += 1 if h else 0
    return n

def value_under(it, v, e):
    """the case of a merged value that the assignment selects"""
    out = []
    for conds, x in it.cases(v):
        h = holds(it, conds, e)
        if h is not False: out.append(x)
    return out[0] if len(out) == 1 else None

def islands(P, rep):
    fn = P.method("PhysicsWorld", "createIslands"); rep.analysed(fn); wh = fn.where()
    T = Trace(P, fn, lambda f: f.cls.split("<")[0] in INL and f.n not in SKIP, maxterms=300); it = T.it; nm = Names(it)
    for c in T.calls: 
        if c.fn: rep.analysed(c.fn)
    EV = [e for e in it.events if not e.path[0].startswith("%")]
    at = lambda e: e.fn.where(e.node if isinstance(e.node, dict) else None) if e.fn else wh
    n = 0
    # ---- the search itself
    pops = [c for c in T.calls if c.n in ("pop", "popBack", "popFront") and c.cls in ("Stack", "Deque", "Array")]
    if not rep.check(len(pops) == 1, "one loop takes the bodies of an island from a work list", wh, str(len(pops))): return 0
    pop = pops[0]; BODY = None; work = argkey(T, pop, 0)
    body_add = [c for c in T.calls if c.n in ADDERS and argkey(T, c, 0).endswith("mIslands.bodyEntities>")]
    if not rep.check(len(body_add) == 1, "a body taken from the work list joins the island", wh): return 0
    BODY = full_text(it.I, key(body_add[0].args[1]))
    rep.check("pop'(" in BODY or ".pop" in BODY or "pop" in BODY, "the body that joins the island is the one taken from the work list", wh, BODY[:100])
    nm.add(BODY.strip("<>"), "$BODY")
    outer = pop.guards; depth = len(pop.loops)
    rep.check(not own_guards(body_add[0], outer) and len(body_add[0].loops) == depth, "every body reached joins the island", at(body_add[0]), str([nm(g[0])[:80] for g in own_guards(body_add[0], outer)])); n += 1
    cnt = [e for e in EV if "nbBodiesInIsland[" in pstr(e.path) and len(e.loops) == depth]
    rep.check(len(cnt) == 1 and not own_guards(cnt[0], outer) and isinstance(cnt[0].new, Sc) and isinstance(cnt[0].old, Sc) and psub(cnt[0].new.p, cnt[0].old.p) == const(1), "each body of an island is counted once", at(cnt[0]) if cnt else wh); n += 1
    wake = [c for c in T.calls if c.n == "setIsSleeping"]
    ok = len(wake) == 1 and not own_guards(wake[0], outer) and len(wake[0].loops) == depth and "$BODY" in nm(argkey(T, wake[0], 0)) and isinstance(wake[0].args[1], Sc) and not wake[0].args[1].p
    rep.check(ok, "every body of an island is woken", at(wake[0]) if wake else wh); n += 1
    # ---- starting points
    pushes = [c for c in T.calls if c.n in ADDERS and argkey(T, c, 0) == work and c.cls == pop.cls]
    start = [c for c in pushes if len(c.loops) == depth - 1]; more = [c for c in pushes if len(c.loops) > depth]
    if not rep.check(len(start) == 1, "each island is started from one body", wh, str(len(start))): return n
    s = start[0]; r = loop_range(it, s.loops[-1], s.guards)
    rep.check(len(s.loops) == 1 and covers(r, "mRigidBodyComponents", ENABLED) and not leaves_early(fn if s.fn is fn else s.fn, s.loops[0][1]), "an island is started from every awake body", at(s), str(r)[:150]); n += 1
    t = full_text(it.I, key(s.args[1])); m = re.search(r"mRigidBodyComponents\.mBodiesEntities\[(.*)\]", t); row = m.group(1) if m else "?"
    rep.check(m and row.startswith("%"), "the body started from is the one examined", at(s), t[:100])
    def bodyrow(col, x=row): return r"^\*?x?this\.mRigidBodyComponents\.%s\[%s\]$" % (col, re.escape(x))
    mark = [e for e in EV if re.search(bodyrow("mIsAlreadyInIsland"), pstr(e.path)) and len(e.loops) == 1 and e.guards and isinstance(e.new, Sc) and e.new.p == const(1)]
    add = {f: [c for c in T.calls if c.n in ADDERS and argkey(T, c, 0).endswith("mIslands.%s>" % f)] for f in ("contactManifoldsIndices", "nbContactManifolds", "startBodyEntitiesIndex", "nbBodiesInIsland")}
    for ty in TYPES3:
        for inl in (0, 1):
            e = NEnv(it, nm, [(bodyrow("mIsAlreadyInIsland"), inl), (bodyrow("mBodyTypes"), enum(ty))])
            want = 1 if ty != STATIC and not inl else 0; n += 1
            for what, cs in [("starts an island", start), ("is marked as visited", mark)] + [("opens an island (%s)" % f, a) for f, a in add.items()]:
                got = count_when(it, cs, e, [])
                rep.check(got == want, "a body %s exactly if it is not static and in no island yet" % what, at(s), "%s, in island %s: %s" % (ty[1:], inl, got))
    vals = {"nbContactManifolds": lambda v: isinstance(v, Sc) and not v.p, "nbBodiesInIsland": lambda v: isinstance(v, Sc) and not v.p, "startBodyEntitiesIndex": lambda v: re.search(r"size\(<this\.mIslands\.bodyEntities>\)", full_text(it.I, key(v)))}
    for f, ok in vals.items():
        for c in add[f]: rep.check(ok(c.args[1]), "a new island starts empty, at the end of the bodies recorded (%s)" % f, at(c), full_text(it.I, key(c.args[1]))[:80]); n += 1
    # ---- traversal
    acc = [a for a in it.accumulations]
    total = None
    for c in add["contactManifoldsIndices"]:
        m = re.match(r"^(%\w+#\d+)", key(c.args[1])); total = m.group(1) if m else None
        rep.check(total is not None, "the manifolds of an island start after those of the islands before", at(c), key(c.args[1])[:80]); n += 1
    cmark = [e for e in EV if re.search(r"mCurrentContactPairs\[.*\.isAlreadyInIsland$|isAlreadyInIsland$", full_text(it.I, pstr(e.path)))]
    order = [c for c in T.calls if c.n in ADDERS and argkey(T, c, 0).endswith("mProcessContactPairsOrderIslands>")]
    manif = [e for e in EV if "mIslands.nbContactManifolds[" in pstr(e.path)]
    cpush = [c for c in more if re.search(r"body[12]Entity", nm(argkey(T, c, 1)))]; jpush = [c for c in more if re.search(r"mBody[12]Entities\[", nm(argkey(T, c, 1)))]
    jmark = [e for e in EV if re.search(r"mJointsComponents\.mIsAlreadyInIsland\[", pstr(e.path)) and len(e.loops) > depth]
    bmark = [e for e in EV if re.search(r"mRigidBodyComponents\.mIsAlreadyInIsland\[", full_text(it.I, pstr(e.path))) and len(e.loops) > depth]
    cm = [e for e in bmark if e.guards and any("mContactPairs" in nm(g[0]) for g in e.guards)]; jm = [e for e in bmark if e not in cm]
    if not rep.check(bool(cmark) and bool(order) and bool(cpush) and bool(cm), "the contacts of a body lead to its neighbours", wh): return n
    if not rep.check(bool(jmark) and bool(jpush) and bool(jm), "the joints of a body lead to its neighbours", wh): return n
    PAIR = r"mCurrentContactPairs\[\*?x?this\.mRigidBodyComponents\.mContactPairs\[.*\$BODY.*\]\[.*\]"
    # which elements are visited
    for cs, rx, what in ((order + cpush, r"mRigidBodyComponents\.mContactPairs\[.*pop", "contact"), (jpush, r"mRigidBodyComponents\.mJoints\[.*pop|getJoints", "joint")):
        for c in cs:
            ls = c.loops[depth:]
            ok = len(ls) == 1 and not leaves_early(c.fn, ls[0][1])
            if ok:
                r = loop_range(it, ls[0], c.guards); txt = full_text(it.I, r[3] if isinstance(r[3], str) else pkey(r[3])) if len(r) > 3 else ""
                ok = (r[0] in ("each", "iter") and re.search(r"joint|ontactPair", txt) or r[0] == "up" and not r[2] and re.search(rx, txt) or r[0] == "down" and not r[3]) is not None and r[0] != "?"
                ok = bool(r[0] in ("each", "iter") or r[0] == "up" and not r[2] and re.search(rx, txt) or r[0] == "down" and not r[3] and re.search(rx, full_text(it.I, pkey(r[2]))))
            rep.check(ok, "every %s of a body is followed" % what, at(c), str([str(loop_range(it, l, c.guards))[:120] for l in ls])); n += 1
    for c in jpush: rep.check(re.search(r"(mJoints\[.*\$BODY.*\]|getJoints.*)\[(%\w+#\d+\?\d+|each)\]", nm(argkey(T, c, 1))), "the joint followed is the one examined", at(c), nm(argkey(T, c, 1))[:150])
    for c in order: rep.check(re.search(r"mRigidBodyComponents\.mContactPairs\[.*\$BODY.*\]\[(%\w+#\d+\?\d+|each)\]>?$", nm(argkey(T, c, 1))), "the contact recorded for the island is the one followed", at(c), nm(argkey(T, c, 1))[:120]); n += 1
    def cenv(ty, already, sim1, sim2, other, mine=1, same=1):
        return NEnv(it, nm, [(r"^[*x]*this\.mRigidBodyComponents\.mBodyTypes\[", enum(ty)), (r"isAlreadyInIsland$", already),
                             (r"mIsSimulationCollider\[@(?!.*collider2Entity).*collider1Entity\]$|getIsSimulationCollider.*collider1Entity", sim1), (r"mIsSimulationCollider\[@.*collider2Entity\]$|getIsSimulationCollider.*collider2Entity", sim2),
                             (r"mHasSimulationCollider\[", 1), (r"mJointsComponents\.mIsAlreadyInIsland\[", already), (r"mRigidBodyComponents\.mIsAlreadyInIsland\[", other), 
                             (r"nbPotentialContactManifolds$", 3), (r"^[\w: ]*operator==\((?!.*ody2Entit).*ody1Entit.*\$BODY|^[\w: ]*operator==\(<?\$BODY>?; (?!.*ody2Entit).*ody1Entit", same), (r"^[\w: ]*operator==\((?!.*ody1Entit).*ody2Entit.*\$BODY", 1 - same),
                             (r"^[\w: ]*operator!=\((?!.*ody2Entit).*ody1Entit.*\$BODY", 1 - same), (r"mCurrentContactPairs.*operator==", same)])
    for ty in TYPES3:
        for already in (0, 1):
            for sim1 in (0, 1):
                for sim2 in (0, 1):
                    for other in (0, 1):
                        e = cenv(ty, already, sim1, sim2, other); n += 1; d = "%s already=%d simulation=%d,%d other in island=%d" % (ty[1:], already, sim1, sim2, other)
                        go = ty != STATIC and not already and sim1 and sim2
                        rep.check(count_when(it, order, e, outer) == int(go), "a contact is solved in an island exactly if it is in none yet, is a simulation contact and was reached from a body that moves", at(order[0]), d)
                        rep.check(count_when(it, manif, e, outer) == int(go), "the manifolds of a contact are counted in its island exactly once", at(manif[0]) if manif else wh, d)
                        rep.check(count_when(it, cpush, e, outer) == int(go and not other), "the neighbour of a contact is visited exactly if it is in no island yet", at(cpush[0]), d)
                        rep.check(count_when(it, cm, e, outer) == int(go and not other), "the neighbour of a contact is marked when it is visited", at(cm[0]), d)
                        if go: rep.check(count_when(it, cmark, e, outer) == 1, "a contact that is followed is marked", at(cmark[0]), d)
                        if ty == STATIC: rep.check(count_when(it, cmark, e, outer) == 0, "the contacts of a static body are not followed", at(cmark[0]), d)
            for other in (0, 1):
                e = cenv(ty, already, 1, 1, other); n += 1; d = "%s already=%d other in island=%d" % (ty[1:], already, other)
                go = ty != STATIC and not already
                rep.check(count_when(it, jpush, e, outer) == int(go and not other), "the other body of a joint is visited exactly if it is in no island yet", at(jpush[0]), d)
                rep.check(count_when(it, jm, e, outer) == int(go and not other), "the other body of a joint is marked when it is visited", at(jm[0]), d)
    # the neighbour is the other body
    for cs, b1, b2, what in ((cpush, r"\.body1Entity>?$", r"\.body2Entity>?$", "contact"), (jpush, r"^<?[*x]*this\.mJointsComponents\.mBody1Entities\[", r"^<?[*x]*this\.mJointsComponents\.mBody2Entities\[", "joint")):
        for c in cs:
            for same in (0, 1):
                e = cenv(DYNAMIC, 0, 1, 1, 0, same=same); v = value_under(it, c.args[1], e); t = nm(key(v)) if v is not None else ""
                rep.check(v is not None and re.search(b2 if same else b1, t), "the neighbour through a %s is the other body of the pair" % what, at(c), "%s %s" % (same, t[-120:] or nm(argkey(T, c, 1))[:200])); n += 1
    # the marked row is the pushed body's
    for cs, ms, what in ((cpush, cm, "contact"), (jpush, jm, "joint")):
        for c in cs:
            x = nm(argkey(T, c, 1)).strip("<>")
            ok = any(row_of(T, nm, mm, x) for mm in ms)
            rep.check(ok, "the body marked is the neighbour that is visited (%s)" % what, at(c), "%s / %s" % (x[-80:], [nm(pstr(mm.path))[-100:] for mm in ms])); n += 1
            if ms: rep.check(all(isinstance(mm.new, Sc) and mm.new.p == const(1) for mm in ms), "a visited body is marked (%s)" % what, at(c))
    for mm in jmark + cmark: rep.check(isinstance(mm.new, Sc) and mm.new.p == const(1), "a followed contact or joint is marked", at(mm)); n += 1
    # manifold counts
    for e in manif:
        dlt = psub(e.new.p, e.old.p) if isinstance(e.new, Sc) and isinstance(e.old, Sc) else None
        rep.check(dlt is not None and len(dlt) == 1 and re.search(PAIR + r".*nbPotentialContactManifolds$", nm(pkey(dlt).strip("<>"))), "an island counts all manifolds of the contact", at(e), nm(pkey(dlt))[:150] if dlt else ""); n += 1
        idx = re.search(r"nbContactManifolds\[(.*)\]$", full_text(it.I, pstr(e.path)))
        rep.check(idx and re.search(r"^(-1 \+ )?Array<[\w ]+>::size\(<this\.mIslands\.\w+>\)( \+ -1)?$", idx.group(1)) is not None, "the manifolds are counted in the island being built", at(e), idx.group(1)[:100] if idx else ""); n += 1
    if total:
        inner = [a for a in acc if a[0][0] == total and a[4] == (order[0].loops[-1][0])]
        ok = bool(inner)
        for a in inner:
            for already, sim, want in ((0, 1, 3), (1, 1, 0), (0, 0, 0)):
                for other in (0, 1):
                    e = cenv(DYNAMIC, already, sim, sim, other); start_v = it.loopstart.get((a[4], a[0])); e.base = {next(iter(start_v.p))[0]: 0} if isinstance(start_v, Sc) and len(start_v.p) == 1 else {}
                    v = number(it, psub(a[2].p, start_v.p), e) if isinstance(start_v, Sc) and isinstance(a[2], Sc) else None
                    ok = ok and v == want; n += 1
        rep.check(ok, "the running number of manifolds grows by those of each contact added", at(order[0]))
    # ---- static bodies
    res = [e for e in EV if "mRigidBodyComponents.mIsAlreadyInIsland[" in full_text(it.I, pstr(e.path)) and isinstance(e.new, Sc) and not e.new.p and e.seq_after if False] if False else \
          [e for e in EV if re.search(r"mRigidBodyComponents\.mIsAlreadyInIsland\[", full_text(it.I, pstr(e.path))) and isinstance(e.new, Sc) and not e.new.p]
    first = [e for e in res if len(e.loops) == 1 and EV.index(e) < EV.index(mark[0])] if mark else []
    ok = any(not nonloop(it, e) and covers(loop_range(it, e.loops[0], e.guards), "mRigidBodyComponents", ALL) and not leaves_early(e.fn, e.loops[0][1]) for e in first)
    rep.check(ok, "at the start of a step no body is in an island", wh, str([str(loop_range(it, e.loops[0], e.guards))[:100] for e in first])); n += 1
    jres = [e for e in EV if "mJointsComponents.mIsAlreadyInIsland[" in pstr(e.path) and isinstance(e.new, Sc) and not e.new.p]
    ok = any(len(e.loops) == 1 and not nonloop(it, e) and covers(loop_range(it, e.loops[0], e.guards), "mJointsComponents", ALL) and not leaves_early(e.fn, e.loops[0][1]) for e in jres)
    rep.check(ok, "at the start of a step no joint is in an island", wh); n += 1
    late = [e for e in res if e not in first]
    coll = [c for c in T.calls if c.n in ADDERS and c.cls in ("Array", "Stack", "Deque") and nm(argkey(T, c, 1)).strip("<>") == "$BODY" and c is not body_add[0] and len(c.loops) == depth]
    ok = False
    for e in late:
        if len(e.loops) == depth and len(e.loops) >= 1:
            g = own_guards(e, s.guards); src = full_text(it.I, pstr(e.path)); r = loop_range(it, e.loops[-1], e.guards)
            if leaves_early(e.fn, e.loops[-1][1]): continue
            for c in coll:
                a = full_text(it.I, argkey(T, c, 0)).strip("<>")
                if a in src and not g and r[0] != "?" and all(count_when(it, [c], NEnv(it, nm, [(r"^[*x]*this\.mRigidBodyComponents\.mBodyTypes\[.*\$BODY", enum(ty))]), outer) == int(ty == STATIC) for ty in TYPES3):
                    rng = full_text(it.I, r[3] if isinstance(r[3], str) else pkey(r[3])) if r[0] != "down" else full_text(it.I, pkey(r[2]))
                    ok = ok or r[0] in ("each", "iter") or a in rng and (not r[2] if r[0] == "up" else not r[3])
            if "mIslands.bodyEntities[" in src and all(count_when(it, [e], NEnv(it, nm, [(r"^[*x]*this\.mRigidBodyComponents\.mBodyTypes\[.*bodyEntities", enum(ty))]), s.guards) == int(ty == STATIC) for ty in TYPES3): ok = ok or r[0] != "?"
        elif len(e.loops) == depth + 0: pass
    rep.check(ok, "the static bodies of an island are released before the next island is built", wh, str([(full_text(it.I, pstr(e.path))[-100:], len(e.loops)) for e in late])[:300]); n += 1
    # ---- the records of contacts of bodies are emptied for the next step
    clr = [c for c in T.calls if c.n in ("clear", "removeAllContacPairs") and "mContactPairs[" in full_text(it.I, argkey(T, c, 0))]
    for b in ("body1Entity", "body2Entity"):
        ok = any(b in full_text(it.I, argkey(T, c, 0)) and not nonloop(it, c) and whole(it, c, (r"mCurrentContactPairs",)) for c in clr) or any(covers(loop_range(it, c.loops[0], c.guards), "mRigidBodyComponents", ALL) for c in clr if len(c.loops) == 1)
        rep.check(ok, "the contacts recorded for the bodies of a pair are forgotten at the end (%s)" % b, wh, str([full_text(it.I, argkey(T, c, 0))[-120:] for c in clr])); n += 1
    return n

def row_of(T, nm, e, x):
    """the row written is that of entity x (text)"""
    p = nm(pstr(e.path)); m = re.search(r"mIsAlreadyInIsland\[(.*)\]$", p)
    if not m: return False
    r = m.group(1)
    if x in r: return True
    m = re.match(r"^(\w+)!", r)
    # a row number delivered through a reference parameter: the latest call of that name before the write
    if m:
        cs = [c for c in T.calls if c.n == m.group(1) and c.loops == e.loops]
        return any(len(c.args) > 1 and nm(argkey(T, c, 1)).strip("<>") == x for c in cs)
    return False

def sleepers(P, rep):
    """an island sleeps exactly if all of its bodies have been slow for long enough and may sleep"""
    fn = P.method("PhysicsWorld", "updateSleepingBodies"); rep.analysed(fn); wh = fn.where(); n = 0
    T = Trace(P, fn, lambda f: f.cls.split("<")[0] in INL and f.n not in SKIP, maxterms=300); it = T.it; nm = Names(it)
    at = lambda e: e.fn.where(e.node if isinstance(e.node, dict) else None)
    dt = "$" + fn.ps[0]["n"]
    ss = [c for c in T.calls if c.n == "setIsSleeping"]
    if not rep.check(len(ss) == 1 and isinstance(ss[0].args[1], Sc) and ss[0].args[1].p == const(1), "islands are put to sleep", wh): return 0
    c = ss[0]
    ev = [e for e in it.events if "mSleepTimes[" in pstr(e.path)]
    if not rep.check(bool(ev), "the sleep time of the bodies is kept", wh): return 0
    def isl_loops(x):
        ok = len(x.loops) == 2 and not any(leaves_early(x.fn, l[1]) for l in x.loops if id(l[1]) in {id(y) for y in walk(x.fn.body)})
        if not ok: return False
        a, b = (loop_range(it, l, x.guards) for l in x.loops)
        ta = full_text(it.I, pkey(a[3])) if a[0] == "up" else ""; tb = full_text(it.I, pkey(b[3])) if b[0] == "up" else ""
        i = list(a[1])[0] if a[0] == "up" else "?"
        if not (a[0] == "up" and not a[2] and re.search(r"size\(<this\.mIslands\.\w+>\)|getNbIslands", ta)): return False
        st = r"this\.mIslands\.startBodyEntitiesIndex\[%s\?\d+\]" % re.escape(i); nb = r"this\.mIslands\.nbBodiesInIsland\[%s\?\d+\]" % re.escape(i)
        if b[0] != "up": return False
        tb0 = full_text(it.I, pkey(b[2]))
        return bool((tb0 == "0" and re.fullmatch(nb, tb)) or (re.fullmatch(st, tb0) and re.search(st, tb) and re.search(nb, tb)))
    for x, t in [(c, argkey(T, c, 0))] + [(e, pstr(e.path)) for e in ev]:
        n += 1
        ft = full_text(it.I, t)
        rep.check(isl_loops(x), "all bodies of all islands are examined", at(x), str([str(loop_range(it, l, x.guards))[:120] for l in x.loops]))
        ok = re.search(r"mIslands\.bodyEntities\[[^\]]*this\.mIslands\.startBodyEntitiesIndex\[", ft) or re.search(r"mIslands\.bodyEntities\[%", ft)
        rep.check(ok, "the bodies examined are those of the island", at(x), ft[:150])
    # threshold
    g = [h for h in nonloop(it, c)]
    mins = [m for h in g for m in re.findall(r"%\w+#\d+", full_text(it.I, h[0]))]
    # evaluate one body
    V = {"lin": r"lengthSquare'?\(.*mLinearVelocities\[", "ang": r"lengthSquare'?\(.*mAngularVelocities\["}
    def env(ty, lin, ang, allowed, t0=0, mn=100):
        return NEnv(it, nm, [(r"^[*x]*this\.mRigidBodyComponents\.mBodyTypes\[", enum(ty)), (r"^[\w:]*" + V["lin"], lin), (r"^[\w:]*" + V["ang"], ang), (r"^[*x]*this\.mRigidBodyComponents\.mIsAllowedToSleep\[", allowed),
                             (r"^this\.mSleepLinearVelocity$", 2), (r"^this\.mSleepAngularVelocity$", 3), (r"^[*x]*this\.mRigidBodyComponents\.mSleepTimes\[", t0), (r"^%s$" % re.escape(dt), 5), (r"^this\.mTimeBeforeSleep$", 50), (r"^%minw", mn)])
    acc = [a for a in it.accumulations if isinstance(a[2], Sc) and "mIsAllowedToSleep" in full_text(it.I, a[2].key())]
    if not rep.check(bool(acc), "the time an island has been idle is the least of its bodies'", wh): return n
    a = acc[0]; sv = it.loopstart.get((a[4], a[0])); mina = next(iter(next(iter(sv.p)))) if isinstance(sv, Sc) and len(sv.p) == 1 else None
    for ty in TYPES3:
        for lin in (3, 4, 5):
            for ang in (8, 9, 10):
                for allowed in (0, 1):
                    for t0, mn in ((0, 100), (40, 100), (40, 45), (40, 20), (97, 100)):
                        e = env(ty, lin, ang, allowed, t0, mn); e.base = {mina: mn}; n += 1
                        d = "%s linear %d/4 angular %d/9 allowed %d idle %d others %d" % (ty[1:], lin, ang, allowed, t0, mn)
                        slow = lin <= 4 and ang <= 9 and allowed
                        wt = t0 if ty == STATIC else (t0 + 5 if slow else 0); wm = mn if ty == STATIC else min(mn, wt)
                        t = t0; und = False
                        for x in ev:
                            h = holds(it, nonloop(it, x), e)
                            if h is None: und = True
                            elif h: t = number(it, x.new.p, e) if isinstance(x.new, Sc) else None
                        rep.check(not und and t == wt, "the idle time of a body grows while it is slow and may sleep, and restarts otherwise", at(ev[0]), "%s: %s, expected %s" % (d, "undecided" if und else t, wt))
                        m2 = number(it, a[2].p, e)
                        rep.check(m2 == wm, "the idle time of an island is the least of its moving bodies'", wh, "%s: %s, expected %s" % (d, m2, wm))
    rep.check(isinstance(a[1], Sc) and re.search(r"DECIMAL_LARGEST|max|^\d{8,}$", full_text(it.I, a[1].key())), "the least idle time starts above every threshold, anew for each island", wh, full_text(it.I, a[1].key())[:60]); n += 1
    for mn in (49, 50, 51):
        e = NEnv(it, nm, [(r"^this\.mTimeBeforeSleep$", 50), (r"^%s\?" % re.escape(a[0][0]), mn), (r"^%s$" % re.escape(a[0][0]), mn)]); n += 1
        rep.check(holds(it, g, e) is (mn >= 50), "an island is put to sleep exactly when it has been idle long enough", at(c), "%s: %s" % (mn, [(full_text(it.I, x[0])[:100], x[1]) for x in g]))
    # called exactly when sleeping is enabled
    u = P.method("PhysicsWorld", "update"); rep.analysed(u); U = Trace(P, u, lambda f: f.cls == "PhysicsWorld" and f.n != "updateSleepingBodies" and f.n not in SKIP and f.n not in ("createIslands", "solveContactsAndConstraints", "solvePositionCorrection", "enableDisableJoints"), maxterms=60)
    cs = U.find("PhysicsWorld", "updateSleepingBodies")
    for on in (0, 1):
        e = PEnv(U.it, [(r"^this\.mIsSleepingEnabled$", on)]); k = 0
        for x in cs:
            h = holds(U.it, nonloop(U.it, x), e); k = None if h is None or k is None else k + int(h)
        rep.check(k == on, "islands are put to sleep exactly if sleeping is enabled", u.where(), str(k)); n += 1
    for x in cs: rep.check(full_text(U.it.I, key(x.args[1])) == "$" + u.ps[0]["n"], "the idle time grows by the duration of the step", u.where(x.node), key(x.args[1])[:60])
    return n

def packing(P, rep):
    """the manifolds of an island are the consecutive ones created in the order of its contacts"""
    fn = P.method("CollisionDetectionSystem", "createContacts"); rep.analysed(fn); wh = fn.where(); n = 0
    T = Trace(P, fn, lambda f: f.cls.split("<")[0] in ("CollisionDetectionSystem",) and f.n not in ("initContactsWithPreviousOnes", "computeLostContactPairs", "computeMapPreviousContactPairs"), maxterms=200); it = T.it
    mk = [c for c in T.calls if c.n in ("emplace", "add") and re.search(r"mCurrentContactManifolds>?$", argkey(T, c, 0))]
    pk = [c for c in T.calls if c.n in ("emplace", "add") and re.search(r"mCurrentContactPoints>?$", argkey(T, c, 0))]
    at = lambda e: e.fn.where(e.node if isinstance(e.node, dict) else None)
    if not rep.check(len(mk) == 1 and len(pk) == 1, "each potential manifold and point becomes one contact", wh, "%d %d" % (len(mk), len(pk))): return 0
    for cs, d, rx in ((mk, 2, (r"mProcessContactPairsOrderIslands", r"mCurrentContactPairs\[.*mProcessContactPairsOrderIslands\[(%\w+#\d+\?\d+|each)\]\]\.nbPotentialContactManifolds")), (pk, 3, (r"mProcessContactPairsOrderIslands", r"mCurrentContactPairs\[.*mProcessContactPairsOrderIslands\[(%\w+#\d+\?\d+|each)\]\]\.nbPotentialContactManifolds", r"mPotentialContactManifolds\[.*potentialContactManifoldsIndices\[(%\w+#\d+\?\d+|each)\]\]\.nbPotentialContactPoints"))):
        for c in cs:
            rs = [loop_range(it, l, c.guards) for l in c.loops]; ok = len(rs) == d and not nonloop(it, c) and not any(leaves_early(c.fn, l[1]) for l in c.loops if id(l[1]) in {id(y) for y in walk(c.fn.body)})
            for r, x in zip(rs, rx):
                t = full_text(it.I, r[3] if isinstance(r[3], str) else pkey(r[3])) if len(r) > 3 and r[0] in ("up", "each", "iter") else ""
                ok = ok and r[0] in ("up", "each", "iter") and (r[0] != "up" or not r[2]) and bool(re.search(x, t))
            rep.check(ok, "contacts are created in the order of the islands, all of them", at(c), str([(r[0], full_text(it.I, pkey(r[3]))[-90:] if len(r) > 3 and isinstance(r[3], dict) else "") for r in rs])); n += 1
    return n

def recorded(P, rep):
    """every contact of a step is recorded with both of its bodies, for the island search to follow"""
    fn = P.method("CollisionDetectionSystem", "computeNarrowPhase"); rep.analysed(fn); n = 0
    skip = {"testNarrowPhaseCollision", "processAllPotentialContacts", "reducePotentialContactManifolds", "swapPreviousAndCurrentContacts"}
    T = Trace(P, fn, lambda f: f.cls.split("<")[0] in ("CollisionDetectionSystem", "RigidBodyComponents") and f.n not in skip, maxterms=60); it = T.it
    cs = [c for c in T.calls if c.n in ADDERS and re.search(r"mRigidBodyComponents\.mContactPairs\[", full_text(it.I, argkey(T, c, 0)))]
    pr = [c for c in T.calls if c.n == "processAllPotentialContacts"]; rd = [c for c in T.calls if c.n == "reducePotentialContactManifolds"]
    for b in ("body1Entity", "body2Entity"):
        n += 1; ok = False
        for c in cs:
            m = re.search(r"mContactPairs\[@[*x]*this\.mCurrentContactPairs\[(.*)\]\.%s\]" % b, full_text(it.I, argkey(T, c, 0)))
            if m and full_text(it.I, key(c.args[1])) == m.group(1) and not nonloop(it, c) and whole(it, c, (r"mCurrentContactPairs",)) and all(x.k < c.k for x in pr): ok = True
        rep.check(ok, "every contact pair of the step is recorded with both bodies (%s)" % b, fn.where(), str([full_text(it.I, argkey(T, c, 0))[-90:] for c in cs]))
    return n

def solver_ranges(P, rep):
    """the contact solver treats every island, and in it exactly the island's manifolds"""
    n = 0
    fn = P.method("ContactSolverSystem", "init"); rep.analysed(fn); wh = fn.where()
    T = Trace(P, fn, lambda f: f.cls.split("<")[0] in ("ContactSolverSystem", "Islands") and f.n not in ("warmStart",), maxterms=60); it = T.it
    ev = [e for e in it.events if pstr(e.path).endswith(".externalContactManifold")]
    at = lambda e: e.fn.where(e.node if isinstance(e.node, dict) else None)
    rep.check(bool(ev), "the contact solver has a constraint for each manifold", wh)
    for e in ev:
        n += 1; rep.analysed(e.fn)
        rs = [loop_range(it, l, e.guards) for l in e.loops]; ok = len(rs) == 2
        if ok:
            a, b = rs; ta = full_text(it.I, pkey(a[3])) if a[0] == "up" else ""; tb0 = full_text(it.I, pkey(b[2])) if b[0] == "up" else ""; tb = full_text(it.I, pkey(b[3])) if b[0] == "up" else ""
            ok = a[0] == "up" and not a[2] and re.search(r"mIslands\.\w+>?\)|getNbIslands", ta) and b[0] == "up"
            iv = re.escape(list(a[1])[0]) + r"\?\d+\]" if ok else ""
            ok = ok and (re.search(r"contactManifoldsIndices\[" + iv, tb0) and re.search(r"contactManifoldsIndices\[" + iv, tb) and re.search(r"nbContactManifolds\[" + iv, tb) or not b[2] and re.search(r"nbContactManifolds\[" + iv, tb))
        rep.check(ok, "the contact solver treats the manifolds of every island, from the first of the island", at(e), str([(r[0], full_text(it.I, pkey(r[2]))[-80:], full_text(it.I, pkey(r[3]))[-120:]) for r in rs if r[0] == "up"]))
    return n

def check_P26(P, rep):
    n = islands(P, rep) + sleepers(P, rep) + packing(P, rep) + recorded(P, rep) + solver_ranges(P, rep)
    rep.count("cases_evaluated", n)
    rep.need(n, 150, "cases of the island construction")

"""P07: sleeping, static and inactive objects are on the disabled side of every table, and a step changes only the others."""
import re
from ..api import *
from ..terms import *
from ..trace import Trace, loop_range, leaves_early
from ..effects import effects
from ..model import AnalysisBroken
from .steps import covers, ENABLED, strip
from .bodyops import Case, num, STATIC, KINEMATIC, DYNAMIC, gset, trace, disabled_test

class PEnv:
    """assignment of conditions and atoms by pattern over their full text; first match wins"""
    def __init__(self, it, pats, base=None): self.base = base or {}; self.it = it; self.p = [(re.compile(a), v) for a, v in pats]; self.c = {}
    def find(self, k):
        if k not in self.c:
            if k in self.base: self.c[k] = (True, self.base[k]); return self.c[k]
            t = full_text(self.it.I, k)
            self.c[k] = next(((True, v) for r, v in self.p if r.search(t)), (False, None))
        return self.c[k]
    def __contains__(self, k): return self.find(k)[0]
    def __getitem__(self, k): return self.find(k)[1]
    def get(self, k, d=None): return self[k] if k in self else d

TABLES = ("mBodyComponents", "mTransformComponents", "mRigidBodyComponents")
JT = ("mBallAndSocketJointsComponents", "mFixedJointsComponents", "mHingeJointsComponents", "mSliderJointsComponents")
POSE = ("TransformComponents.mTransforms", "RigidBodyComponents.mLinearVelocities", "RigidBodyComponents.mAngularVelocities", "RigidBodyComponents.mCentersOfMassWorld")

def key(v): return v.key() if hasattr(v, "key") else ""
def argkey(T, c, i): return full_text(T.it.I, key(c.args[i])) if len(c.args) > i else ""
def whole_array(T, c, pat, loops=1):
    """the loops around the call visit the whole of the arrays matching the patterns, from the outside in"""
    return whole(T.it, c, pat, loops)
def whole(it, c, pat, loops=1):
    if len(c.loops) != loops: return False
    for p, l in zip(pat, c.loops):
        r = loop_range(it, l, c.guards)
        if leaves_early(c.fn, l[1]): return False
        if r[0] == "each" and re.search(p, full_text(it.I, r[3])): continue
        if r[0] == "iter" and re.search(p, full_text(it.I, r[3])): continue
        if r[0] == "up" and not r[2] and re.search(p, full_text(it.I, pkey(r[3]))): continue
        if r[0] == "down" and not r[3] and re.search(p, full_text(it.I, pkey(padd(r[2], const(1))))): continue
        return False
    return True

def state_guard(T, g, table, par):
    """the test that the object is already in the wanted state"""
    t = full_text(T.it.I, g[0])
    return (table + ">" in t or table + "." in t or "this." + table in t) and ("getIsEntityDisabled" in t or "mDisabledStartIndex" in t) and par in t

def moves_all(P, rep):
    """setBodyDisabled and setJointDisabled move every record"""
    n = 0
    inl = lambda f: f.cls.split("<")[0] in ("PhysicsWorld", "BodyComponents", "Body", "RigidBody") and f.n not in ("setIsEntityDisabled", "setIsSleeping")
    fn = P.method("PhysicsWorld", "setBodyDisabled"); rep.analysed(fn); T = Trace(P, fn, inl); ent, par = "$" + fn.ps[0]["n"], "$" + fn.ps[1]["n"]
    for tab in TABLES + ("mCollidersComponents",):
        cs = [c for c in T.find(None, "setIsEntityDisabled") if re.search(r"\b%s>?$" % tab, argkey(T, c, 0))]; wh = fn.where()
        n += 1
        if not rep.check(bool(cs), "disabling a body moves its record in %s" % tab[1:], wh): continue
        for c in cs:
            g = [x for x in T.conds(c) if not state_guard(T, x, "mBodyComponents", par)]
            rep.check(not g, "disabling a body moves its record in %s always" % tab[1:], fn.where(c.node if c.fn is fn else None), str([x[0][:100] for x in g]))
            rep.check(key(c.args[2]) == par, "the record in %s gets the state of the body" % tab[1:], wh, key(c.args[2])[:100])
            if tab in TABLES: rep.check(ent in argkey(T, c, 1) and not c.loops, "the record moved in %s is the body's" % tab[1:], wh, argkey(T, c, 1)[:100])
            else:
                rep.check(whole_array(T, c, (r"mBodyComponents\.mColliders\[@\$|getColliders",)), "every collider of the body is moved with it", wh, str([r[0] for r in T.ranges(c)]))
                rep.check("mColliders[@" + ent in argkey(T, c, 1) or "getColliders" in argkey(T, c, 1), "the colliders moved are the body's", wh, argkey(T, c, 1)[:100])
    fn = P.method("PhysicsWorld", "setJointDisabled"); rep.analysed(fn); T = Trace(P, fn, inl); ent, par = "$" + fn.ps[0]["n"], "$" + fn.ps[1]["n"]; wh = fn.where()
    for tab in ("mJointsComponents",) + JT:
        cs = [c for c in T.find(None, "setIsEntityDisabled") if re.search(r"\b%s>?$" % tab, argkey(T, c, 0))]; n += 1
        if not rep.check(bool(cs), "disabling a joint moves its record in %s" % tab[1:], wh): continue
        for c in cs:
            g = [x for x in T.conds(c) if not state_guard(T, x, "mJointsComponents", par)]
            if tab in JT:
                # reached exactly when the table has the joint, whatever the other tables hold
                for has in (1,):
                    e = PEnv(T.it, [(r"hasComponent\(.*%s>; <\%s>\)" % (tab, ent), 1), (r"hasComponent\(", 0), (r"mJointTypes\[", 7)])
                    h = holds(T.it, g, e)
                    ok = h is True
                    if h is None and all("mJointTypes" in full_text(T.it.I, x[0]) or "getType" in full_text(T.it.I, x[0]) for x in g): ok = any(jtype(tab) in full_text(T.it.I, x[0]) and x[1] for x in g)
                    rep.check(ok, "a joint's record in %s is moved whenever there is one" % tab[1:], wh, str([(x[0][:100], x[1]) for x in g]))
            else: rep.check(not g, "disabling a joint moves its general record always", wh, str([x[0][:100] for x in g]))
            rep.check(ent in argkey(T, c, 1) and key(c.args[2]) == par, "the joint's record in %s gets the state of the joint" % tab[1:], wh, argkey(T, c, 1)[:80])
    return n

def jtype(tab): return "#JointType::" + {"mBallAndSocketJointsComponents": "BALLSOCKETJOINT", "mFixedJointsComponents": "FIXEDJOINT", "mHingeJointsComponents": "HINGEJOINT", "mSliderJointsComponents": "SLIDERJOINT"}[tab]

def joints_follow(P, rep):
    """in every step a joint is disabled exactly when its bodies cannot take part"""
    u = P.method("PhysicsWorld", "update")
    from .steps import world_trace
    W = world_trace(P)
    inl = lambda f: f.cls in ("PhysicsWorld", "BodyComponents", "JointComponents") and f.n not in ("setIsEntityDisabled", "setIsSleeping", "setJointDisabled", "setBodyDisabled", "createIslands", "updateSleepingBodies", "solveContactsAndConstraints", "solvePositionCorrection")
    T = Trace(P, u, inl); it = T.it; rep.analysed(u)
    cs = T.find("PhysicsWorld", "setJointDisabled"); wh = u.where()
    if not rep.check(bool(cs), "a step decides which joints take part", wh): return 0
    isl = T.find("PhysicsWorld", "createIslands"); solve = T.find("PhysicsWorld", "solveContactsAndConstraints") or [c for c in T.calls if c.n == "initBeforeSolve"]
    rep.check(bool(isl) and all(c.k > isl[0].k for c in cs), "joints are enabled after the islands have woken bodies", wh)
    rep.check(bool(solve) and all(c.k < solve[0].k for c in cs), "joints are enabled before the solver runs", wh)
    B = {}
    for c in cs:
        rep.analysed(c.fn)
        rep.check(len(c.loops) >= 1 and all(not leaves_early(c.fn, l[1]) for l in c.loops), "every joint is visited", c.fn.where(c.node))
        r = T.ranges(c)
        ok = len(r) == 1 and (covers(r[0], "mJointsComponents", re.compile(r"mNbComponents$|getNbComponents\(")) or r[0][0] in ("each", "iter") or r[0][0] == "up" and not r[0][2] and ("size(" in pkey(r[0][3]) or "mSize" in pkey(r[0][3])))
        rep.check(ok, "the loop covers enabled and disabled joints", c.fn.where(c.node), str([(x[0], pkey(x[3])[:100] if len(x) > 3 and isinstance(x[3], dict) else "") for x in r]))
        rows_may_move(T, c, rep)
        ent = argkey(T, c, 1).strip("<>*")
        for g in nonloop(it, c):
            for m in re.finditer(r"mBody[12]Entities\[", full_text(it.I, g[0])):
                rep.check(ent in bracketed(full_text(it.I, g[0]), m.end()), "the bodies examined are those of the joint that is moved", c.fn.where(c.node), full_text(it.I, g[0])[m.start():m.start() + 150])
    # evaluate over the states of the two bodies
    for d1 in (0, 1):
        for d2 in (0, 1):
            for a1 in (0, 1):
                for a2 in (0, 1):
                    if not a1 and not d1 or not a2 and not d2: continue
                    want = 1 if d1 and d2 or not a1 or not a2 else 0
                    e = PEnv(it, body_state(d1, d2, a1, a2))
                    got = None
                    for c in cs:
                        h = holds(it, [g for g in c.guards if not g[0].startswith("L:")], e)
                        if h is False: continue
                        v = c.args[2]; k = number(it, v.p, e) if isinstance(v, Sc) else None
                        got = k if h else "?"
                        if h is None: break
                    rep.check(got == want or got is not None and got != "?" and bool(got) == bool(want), "a joint is %s when its bodies are %s and %s" % ("disabled" if want else "enabled", bs(d1, a1), bs(d2, a2)), cs[0].fn.where(cs[0].node), "it is %s" % ("left as it was" if got is None else "undecided" if got == "?" else "disabled" if got else "enabled"))
    return 16
def bracketed(t, i):
    d = 1; j = i
    while j < len(t) and d: d += {"[": 1, "]": -1}.get(t[j], 0); j += 1
    return t[i:j - 1]
def bs(d, a): return "inactive" if not a else "asleep or static" if d else "awake"
def body_state(d1, d2, a1, a2):
    B = {1: r"mBody1Entities\[", 2: r"mBody2Entities\["}
    out = []
    for b, d, a in ((1, d1, a1), (2, d2, a2)):
        o = B[3 - b]
        out.append((r"^\*?\w*(this\.)?mBodyComponents\.mIsActive\[@(?!.*%s).*%s" % (o, B[b]), a))
        out.append((r"^[\w:]*getIsActive'?\((?!.*%s).*%s" % (o, B[b]), a))
        out.append((r"^[\w:]*getIsEntityDisabled\((?!.*%s).*%s" % (o, B[b]), d))
    return out

def rows_may_move(T, c, rep):
    """enabling a joint swaps rows: the entity passed must not be read from a row number of the loop while rows swap"""
    k = argkey(T, c, 1)
    direct = re.search(r"^<?\*?x?this\.mJointsComponents\.mJointEntities\[%", k) is not None
    rep.check(not direct, "the joints are visited through a copy of their entities because enabling one moves rows", c.fn.where(c.node), k[:150])

def invariant(P, rep):
    """row disabled <=> static or asleep or inactive, kept by every operation that changes one of these"""
    n = 0
    pre = [(STATIC, 0, 1), (STATIC, 0, 0)] + [(t, s, a) for t in (KINEMATIC, DYNAMIC) for s, a in ((0, 1), (1, 1), (1, 0))]
    ops = [("RigidBody", "setIsSleeping", (0, 1)), ("RigidBody", "setType", (STATIC, KINEMATIC, DYNAMIC)), ("RigidBody", "setIsActive", (0, 1))]
    for cls, name, vals in ops:
        fn = P.method(cls, name); rep.analysed(fn); C = Case(P, fn); it = C.it; par = "$" + fn.ps[0]["n"]; wh = fn.where()
        D = [e for e in it.calls if cname(P, e) == ("PhysicsWorld", "setBodyDisabled")]
        for t, s, a in pre:
            for v in vals:
                if t == STATIC and name == "setIsSleeping" and False: continue
                e = C.env(t, s, a, **{par: enum(v) if isinstance(v, str) else v}); n += 1
                d = 1 if t == STATIC or s or not a else 0; bad = None
                for c in D:
                    h = holds(it, c.guards, e)
                    if h is False: continue
                    x = c.old[2]; k = number(it, x.p, e) if isinstance(x, Sc) else None
                    if h is None or k is None: bad = "undecided"; break
                    if "this.mEntity" not in key(c.old[1]): bad = "of another body"; break
                    d = int(bool(k))
                s2, a2, t2 = num(C, "mIsSleeping", e), active_after(C, e), num(C, "mBodyTypes", e)
                if bad is None and (s2 is None or a2 is None or t2 is None): bad = "state undecided (%s %s %s)" % (s2, a2, t2)
                want = None if bad else int(t2 == enum(STATIC) or bool(s2) or not a2)
                rep.check(bad is None and d == want, "%s keeps the records of a body enabled exactly when it is active, awake and not static" % name, wh, "%s, %s, %s, argument %s: %s" % (t[1:], "asleep" if s else "awake", "active" if a else "inactive", v, bad or ("records disabled" if d else "records enabled")), ident="%s invariant %s %s %s %s" % (name, t, s, a, v))
                if not bad: pairs(P, rep, C, fn, e, t, s, a, v, (1 if t == STATIC or s or not a else 0), want, a2)
                if not bad: inbroad(rep, P, C, fn, e, a, a2)
    return n

def active_after(C, e):
    from .bodyops import final
    v = final(C.it, "mIsActive", C.row, e)
    if v is None: return e.get("*this.mWorld.mBodyComponents.mIsActive[@this.mEntity]")
    return number(C.it, v.p, e) if isinstance(v, Sc) else None

def cname(P, e):
    f = P.fns.get(e.path[0]); return ((f.cls if f else e.node.get("cls", "")).split("<")[0], f.n if f else e.node.get("n"))

def nonloop(it, c): return [g for g in c.guards if not g[0].startswith("L:")]

PAIRISH = re.compile(r"isEnabled|getOverlappingPair|collider1|collider2|[bB]roadPhaseId")
def pairs(P, rep, C, fn, e, t, s, a, v, d0, d1, a2):
    """when the body becomes disabled its pairs with disabled bodies are disabled; when it becomes enabled all its pairs are enabled"""
    it = C.it
    if d0 == d1 or not a2 : return
    name = ("OverlappingPairs", "enablePair") if d0 else ("CollisionDetectionSystem", "disableOverlappingPair")
    hit = []
    for k, c in enumerate(it.calls):
        if cname(P, c)[1] not in (("enablePair",) if d0 else ("disableOverlappingPair", "disablePair")): continue
        g = [x for x in nonloop(it, c) if not PAIRISH.search(full_text(it.I, x[0]))]
        if holds(it, g, e) is True: hit.append((k, c))
    last = max([k for k, c in enumerate(it.calls) if cname(P, c) == ("PhysicsWorld", "setBodyDisabled") and holds(it, c.guards, e) is not False] or [-1])
    hit = [c for k, c in hit if d0 or k > last]
    rep.check(bool(hit), "%s of the overlapping pairs follows the body in %s" % ("enabling" if d0 else "disabling", fn.n), fn.where(), "%s %s %s argument %s" % (t, s, a, v), ident="%s pairs %s %s %s %s" % (fn.n, t, s, a, v))

def inbroad(rep, P, C, fn, e, a, a2):
    it = C.it
    if a == a2: return
    want = "addCollider" if a2 else "removeCollider"; ok = False
    for c in it.calls:
        if cname(P, c) != ("CollisionDetectionSystem", want): continue
        e2 = PEnv(it, [(r"^\*?\**(?!.*[<=>] 0\)).*[bB]roadPhaseId", 5)], e)
        if holds(it, nonloop(it, c), e2) is True and len(c.loops) == 1 and whole(it, c, (r"mColliders\[@this\.mEntity\]|getColliders",)): ok = True
    rep.check(ok, "the colliders of a body %s the broad phase when it is %s" % ("enter" if a2 else "leave", "activated" if a2 else "deactivated"), fn.where())

def pair_loops(P, rep):
    """the pair loops reach every pair of every collider of the body"""
    fn = P.method("RigidBody", "setIsSleeping"); n = 0
    inl = lambda f: f.cls.split("<")[0] in ("RigidBody", "Body", "BodyComponents", "ColliderComponents", "RigidBodyComponents", "Components")
    T = Trace(P, fn, inl); it = T.it
    for names, what in ((("enablePair",), "enabled"), (("disableOverlappingPair", "disablePair"), "disabled")):
        cs = [c for c in T.calls if c.n in names and c.cls in ("OverlappingPairs", "CollisionDetectionSystem")]
        for c in cs:
            n += 1; wh = c.fn.where(c.node); rep.analysed(c.fn)
            rep.check(whole_array(T, c, (r"mColliders\[@this\.mEntity\]|getColliders", r"mOverlappingPairs\[|getOverlappingPairs"), 2), "all pairs of all colliders of the body are visited to be %s" % what, wh, str([(r[0], full_text(it.I, pkey(r[3]))[:150] if len(r) > 3 and isinstance(r[3], dict) else "") for r in T.ranges(c)]))
            g = [x for x in nonloop(it, c) if PAIRISH.search(full_text(it.I, x[0]))]
            if what == "enabled":
                e = PEnv(it, [(r"isEnabled$", 0)])
                rep.check(all(holds(it, [x], e) is True for x in g), "a disabled pair of a body that wakes is enabled", wh, str([(full_text(it.I, x[0])[-150:], x[1]) for x in g]))
            else:
                for x1 in (0, 1):
                    for x2 in (0, 1):
                        want = bool(x1 and x2)
                        e = PEnv(it, [(r"isEnabled$", 1)] + side(x1, x2))
                        rep.check(holds(it, g, e) is want, "a pair is disabled exactly when both its bodies are disabled", wh, "%s %s: %s; %s" % (x1, x2, holds(it, g, e), str([(full_text(it.I, x[0])[:200], x[1]) for x in g])))
    # other operations use the same loops: called from wherever the pairs follow the body
    return n
def side(d1, d2):
    out = [(r"^\*?this\.mWorld\.m\w*Components\.mDisabledStartIndex$", 10)]
    for me, other, d in (("collider1", "collider2", d1), ("collider2", "collider1", d2)):
        out.append((r"^[\w:]*getIsEntityDisabled\((?!.*%s).*%s" % (other, me), d))
        out.append((r"^@\*?(?!.*%s).*mBodiesEntities\[.*%s" % (other, me), 20 if d else 5))
    return out

def creation(P, rep):
    """records are created on the side their body is on"""
    n = 0
    for cls, name, tab, want in (("RigidBody", "addCollider", "mCollidersComponents", "body"), ("PhysicsWorld", "createRigidBody", "mTransformComponents", 0), ("PhysicsWorld", "createRigidBody", "mBodyComponents", 0), ("PhysicsWorld", "createRigidBody", "mRigidBodyComponents", 0),
                                 ("PhysicsWorld", "createJoint", "mJointsComponents", "bodies"), ("PhysicsWorld", "createJoint", JT[0], "bodies"), ("PhysicsWorld", "createJoint", JT[1], "bodies"), ("PhysicsWorld", "createJoint", JT[2], "bodies"), ("PhysicsWorld", "createJoint", JT[3], "bodies")):
        fn = P.method(cls, name); rep.analysed(fn)
        T = Trace(P, fn, lambda f: f.cls in (cls, "RigidBodyComponents", "BodyComponents") and f.n not in ("setIsEntityDisabled", "setBodyDisabled", "setIsSleeping", "addColliderToBody") and not f.n.startswith("add") or f is fn, maxterms=60)
        cs = [c for c in T.find(None, "addComponent") if tab in argkey(T, c, 0)]; n += 1
        if not rep.check(len(cs) >= 1, "%s creates the record in %s" % (name, tab[1:]), fn.where()): continue
        for c in cs:
            v = c.args[2]; k = full_text(T.it.I, key(v)); wh = fn.where(c.node if c.fn is fn else None)
            if want == 0: rep.check(isinstance(v, Sc) and not v.p, "a new body takes part in the simulation (%s)" % tab[1:], wh, k[:100])
            elif want == "body":
                ok = all(truth_or(T.it, v, PEnv(T.it, [(r"^[\w:]*getIsEntityDisabled\(.*this\.mEntity", d)])) == d for d in (0, 1))
                rep.check(ok, "a new collider is on the side of its body", wh, k[:120])
    return n
def truth_or(it, v, e):
    if not isinstance(v, Sc): return None
    return number(it, v.p, e)

def step_writers(P, rep):
    """poses and velocities change in a step only for enabled rows"""
    E = effects(P); u = P.method("PhysicsWorld", "update"); n = 0
    ss = P.method("RigidBody", "setIsSleeping").f
    moves = {f.f for f in P.fns.values() if f.n == "setIsEntityDisabled" and f.cls.split("<")[0] == "Components"}
    seen = P.reachable([u], stop=lambda k: k == ss or k in moves)
    inl_cls = {"PhysicsWorld", "DynamicsSystem", "TransformComponents", "RigidBodyComponents", "BodyComponents", "ColliderComponents"}
    skip = {"createIslands", "solveContactsAndConstraints", "solvePositionCorrection", "updateSleepingBodies", "setBodyDisabled", "setJointDisabled", "enableDisableJoints"}
    T = Trace(P, u, lambda f: f.cls in inl_cls and f.n not in skip, maxterms=200)
    reached = {e.fn.f for e in T.it.events if e.fn} | {c.ev.fn.f for c in T.calls if c.ev.fn}
    cols = set()
    for k in seen:
        f = P.fns.get(k)
        if not f or not any((l or "").startswith(POSE) for (r, l) in E.W.get(k, {})): continue
        for r, l, node, via in E.site_writes(f, f.body):
            if l and l.startswith(POSE) and (via is None or not any(l2 == l for (_, l2) in E.W[via])):
                n += 1; rep.analysed(f)
                rep.check(f.f in reached, "a step writes %s only where it publishes the result of the solver" % l.split(".")[1], f.where(node), " -> ".join(str(x) for x in P.path_to(seen, k))[:300])
    for e in T.it.events:
        if e.path[0].startswith("%"): continue
        p = strip(pstr(e.path)); m = re.match(r".*?(mTransforms|mLinearVelocities|mAngularVelocities|mCentersOfMassWorld)\[(.*?)\]", p)
        if not m: continue
        wh = e.fn.where(e.node if isinstance(e.node, dict) else None); cols.add(m.group(1))
        r = [loop_range(T.it, l, e.guards) for l in e.loops]
        rep.check(len(r) == 1 and covers(r[0], "mRigidBodyComponents", ENABLED), "poses and velocities are published for all enabled bodies and for no others", wh, "%s %s" % (p[:80], [(x[0], pkey(x[3])[:80] if len(x) > 3 and isinstance(x[3], dict) else "") for x in r]))
        idx = "%" + "i" in m.group(2) or m.group(2).startswith("%") or "mBodiesEntities[%" in m.group(2)
        rep.check(idx and not [g for g in e.guards if not g[0].startswith("L:")], "each enabled body's pose and velocity are published", wh, p[:120])
    rep.check(cols >= {"mTransforms", "mLinearVelocities", "mAngularVelocities", "mCentersOfMassWorld"}, "a step publishes pose, velocities and centre of mass", u.where(), str(sorted(cols)))
    return n

def who_writes(P, rep):
    """the state that decides the side changes only inside the operations checked"""
    low = {}
    for cls, name in (("RigidBodyComponents", "setIsSleeping"), ("RigidBodyComponents", "setBodyType"), ("BodyComponents", "setIsActive"), ("PhysicsWorld", "setBodyDisabled")): low[P.method(cls, name).f] = name
    ok = {("RigidBody", "setIsSleeping"), ("RigidBody", "setType"), ("RigidBody", "setIsActive"), ("Body", "setIsActive")}
    n = 0
    for k, name in low.items():
        st = [k]; done = set()
        while st:
            for g, node in P.callers().get(st.pop(), []):
                if g.f in done: continue
                done.add(g.f); n += 1
                if (g.cls, g.n) in ok: continue
                if g.d.get("acc") in ("private", "protected") and g.n not in ("ctor", "dtor"): st.append(g.f); continue
                rep.check((g.cls, g.n) in ok, "sleep state, type and activity change only in the operations that move the records (%s)" % name, g.where(node))
    # the world's body objects are of the class whose operations move the records
    return n

def check_P07(P, rep):
    n = moves_all(P, rep) + joints_follow(P, rep) + invariant(P, rep) + pair_loops(P, rep) + creation(P, rep) + step_writers(P, rep) + who_writes(P, rep)
    rep.count("obligations_by_case", n)
    rep.need(n, 60, "state cases and record moves")

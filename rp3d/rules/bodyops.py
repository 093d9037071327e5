"""P21: operations act on the body types meant and wake sleeping bodies."""
from ..api import *
from ..api import run as arun
from ..terms import *
from ..trace import Trace, loop_range, leaves_early
from ..model import AnalysisBroken
from .steps import rotations, strip, norm_text
from .attributes import COMPS

def opq(f):
    c = f.cls.split("<")[0]
    if c in ("Transform", "Quaternion") and f.n in ("operator*", "getInverse", "operator=="): return False
    if c == "Vector3" and f.n in ("lengthSquare", "isZero", "length"): return False
    return opaque(f)

def resolve_v(it, v, env, depth=0):
    """the value with every choice decided that the assignment decides"""
    if depth > 40: return v
    if isinstance(v, Sc):
        for _ in range(60):
            mp = {}
            for m in v.p:
                for a in m:
                    i = it.I.info.get(a)
                    if i and i[0] in ("phi", "sel") and isinstance(i[1], str) and isinstance(i[2], Sc) and isinstance(i[3], Sc):
                        t = truth(it, i[1], env)
                        if t is not None: mp[a] = (i[2] if t else i[3]).p
            if not mp: return v
            v = Sc(psubst(v.p, mp))
    return v

def final(it, col, row, env, comp=None, t="float"):
    """value of a table cell at the end of the operation under an assignment of the initial state"""
    for e in it.events:
        if e.path[0].startswith("%"): continue
        c, r, sub = colname(e.path)
        if c == col and r == row:
            path = e.path[:len(e.path) - len(sub)] if sub else e.path
            v = it.peek(path, "")
            if comp: v = it.select(v, comp, t)
            return resolve_v(it, v, env)
    return None

class Case:
    """an operation under an assignment of type, sleeping and active"""
    def __init__(self, P, fn):
        self.P = P; self.fn = fn; self.it = arun(P, fn, opq, maxterms=4000)
        self.row = "@this.mEntity"
    def env(self, type_, sleeping, active, **more):
        e = {}
        for x in list(self.it.I.info):
            for a in (x,):
                pass
        b = "*this.mWorld.mRigidBodyComponents."
        e["*this.mWorld.mRigidBodyComponents.mBodyTypes[@this.mEntity]"] = enum(type_); e["*this.mWorld.mRigidBodyComponents.mIsSleeping[@this.mEntity]"] = sleeping
        e["*this.mWorld.mBodyComponents.mIsActive[@this.mEntity]"] = active
        e.update(more); return e
    def cell(self, col, env, comp=None): return final(self.it, col, self.row, env, comp)
    def unchanged(self, col, env, comp=None):
        v = self.cell(col, env, comp)
        if v is None: return True
        k = v.key().lstrip("*").strip("<>") if hasattr(v, "key") else ""
        return k == "this.mWorld.mRigidBodyComponents.%s[%s]%s" % (col, self.row, "." + comp if comp else "")

STATIC, KINEMATIC, DYNAMIC = TYPES
VEC = ("mExternalForces", "mExternalTorques", "mLinearVelocities", "mAngularVelocities")

FORCES = [("applyLocalForceAtCenterOfMass", "local", None), ("applyWorldForceAtCenterOfMass", "world", None), ("applyLocalForceAtLocalPosition", "local", "local"), ("applyWorldForceAtLocalPosition", "world", "local"),
          ("applyLocalForceAtWorldPosition", "local", "world"), ("applyWorldForceAtWorldPosition", "world", "world")]
TORQUES = [("applyWorldTorque", "world"), ("applyLocalTorque", "local")]

def A(n): return atom(n)
def cross3(a, b): return {"x": psub(pmul(a["y"], b["z"]), pmul(a["z"], b["y"])), "y": psub(pmul(a["z"], b["x"]), pmul(a["x"], b["z"])), "z": psub(pmul(a["x"], b["y"]), pmul(a["y"], b["x"]))}

def turn(frame, name):
    """possible polynomial forms of a parameter given in a frame, in world axes"""
    v = {x: A("$%s.%s" % (name, x)) for x in "xyz"}
    if frame == "world": return [v]
    q = {x: A("*this.mWorld.mTransformComponents.mTransforms[@this.mEntity].mOrientation." + x) for x in "wxyz"}
    return rotations(q, v)

def check_P21(P, rep):
    n = 0; R = "*this.mWorld.mRigidBodyComponents."; TP = "*this.mWorld.mTransformComponents.mTransforms[@this.mEntity].mPosition."
    # ---- forces and torques
    for name, frame, point in FORCES + [(a, b, None) for a, b in TORQUES]:
        fn = P.method("RigidBody", name); rep.analysed(fn); wh = fn.where(); torque = (name, frame) in TORQUES
        C = Case(P, fn); par = [p["n"] for p in fn.ps]; n += 1
        for t in (STATIC, KINEMATIC):
            for c in VEC:
                rep.check(all(C.unchanged(c, C.env(t, s, 1), x) for x in "xyz" for s in ((0, 1) if t != STATIC else (0,))), "%s has no effect on a body that is not dynamic (%s)" % (name, c), wh)
            rep.check(all(C.unchanged("mIsSleeping", C.env(t, s, 1)) or num(C, "mIsSleeping", C.env(t, s, 1)) == s for s in (0, 1)), "%s does not wake a body that is not dynamic" % name, wh)
        for s in (0, 1):
            e = C.env(DYNAMIC, s, 1)
            fo = turn(frame, par[0]); own = "mExternalTorques" if torque else "mExternalForces"
            for x in "xyz":
                v = C.cell(own, e, x)
                ok = isinstance(v, Sc) and any(v.p == padd(A(R + own + "[@this.mEntity]." + x), f[x]) for f in fo)
                rep.check(ok, "%s adds the %s given to the accumulated one" % (name, "torque" if torque else "force"), wh, "component %s: %s" % (x, v.key()[:200] if v is not None else "unchanged"), ident="%s %s %s" % (name, own, x))
                if torque: rep.check(C.unchanged("mExternalForces", e, x), "%s adds no force" % name, wh)
                elif not point: rep.check(C.unchanged("mExternalTorques", e, x), "%s adds no torque" % name, wh)
                else:
                    com = {y: A(R + "mCentersOfMassWorld[@this.mEntity]." + y) for y in "xyz"}; ok = False
                    pts = turn(point, par[1])
                    if point == "local": pts = [{y: padd(p[y], A(TP + y)) for y in "xyz"} for p in pts]
                    v = C.cell("mExternalTorques", e, x)
                    for f in fo:
                        for p in pts:
                            m = cross3({y: psub(p[y], com[y]) for y in "xyz"}, f)
                            ok = ok or isinstance(v, Sc) and v.p == padd(A(R + "mExternalTorques[@this.mEntity]." + x), m[x])
                    rep.check(ok, "%s adds the moment of the force about the centre of mass" % name, wh, "component %s: %s" % (x, v.key()[:200] if v is not None else "unchanged"), ident="%s moment %s" % (name, x))
        rep.check(num(C, "mIsSleeping", C.env(DYNAMIC, 1, 1)) == 0, "%s wakes a sleeping dynamic body" % name, wh)
        rep.check(num(C, "mIsSleeping", C.env(DYNAMIC, 0, 1)) == 0 or C.unchanged("mIsSleeping", C.env(DYNAMIC, 0, 1)), "%s leaves an awake body awake" % name, wh)
    for name, col in (("resetForce", "mExternalForces"), ("resetTorque", "mExternalTorques")):
        fn = P.method("RigidBody", name); rep.analysed(fn); C = Case(P, fn); n += 1
        for x in "xyz":
            for s in (0, 1):
                v = C.cell(col, C.env(DYNAMIC, s, 1), x); rep.check(isinstance(v, Sc) and not v.p, "%s clears the accumulated value" % name, fn.where())
    # ---- velocities
    for name, col in (("setLinearVelocity", "mLinearVelocities"), ("setAngularVelocity", "mAngularVelocities")):
        fn = P.method("RigidBody", name); rep.analysed(fn); C = Case(P, fn); wh = fn.where(); par = fn.ps[0]["n"]; n += 1
        for c in VEC[2:]: rep.check(all(C.unchanged(c, C.env(STATIC, 0, 1), x) for x in "xyz"), "%s has no effect on a static body" % name, wh)
        rep.check(C.unchanged("mIsSleeping", C.env(STATIC, 0, 1)) or num(C, "mIsSleeping", C.env(STATIC, 0, 1)) == 0, "%s leaves a static body awake" % name, wh)
        for t in (KINEMATIC, DYNAMIC):
            for vec in ((3, 0, 0), (0, -2, 0), (0, 0, 1), (-1, -1, 2)):
                e = C.env(t, 1, 1, **{"$%s.%s" % (par, x): y for x, y in zip("xyz", vec)})
                ok = awake_or_open(C, e, par)
                rep.check(ok, "%s wakes a sleeping body when the velocity is not zero" % name, wh, "velocity %s" % (vec,), ident="%s wakes" % name)
            for s in (0, 1):
                for x in "xyz":
                    v = C.cell(col, C.env(t, s, 1), x)
                    rep.check(isinstance(v, Sc) and v.p == A("$%s.%s" % (par, x)), "%s sets the velocity of a body that is not static" % name, wh, v.key()[:150] if v is not None else "unchanged")
    # ---- moving a body, changing its type, forbidding sleep
    for cls, name, envs in (("RigidBody", "setTransform", {}), ("RigidBody", "setIsAllowedToSleep", {"$isAllowedToSleep": 0}), ("RigidBody", "setIsActive", {"$isActive": 1})):
        fn = P.method(cls, name); rep.analysed(fn); C = Case(P, fn); n += 1
        if envs: envs = {"$" + fn.ps[0]["n"]: list(envs.values())[0]}
        act = 0 if name == "setIsActive" else 1
        for t in (KINEMATIC, DYNAMIC): rep.check(num(C, "mIsSleeping", C.env(t, 1, act, **envs)) == 0, "%s wakes a sleeping body" % name, fn.where())
    fn = P.method("RigidBody", "setType"); rep.analysed(fn); C = Case(P, fn); wh = fn.where(); par = fn.ps[0]["n"]; n += 1
    for a in TYPES:
        for b in TYPES:
            if a == b: continue
            for s in ((0,) if a == STATIC else (0, 1)):
                e = C.env(a, s, 1, **{"$" + par: enum(b)})
                rep.check(num(C, "mIsSleeping", e) == 0, "setType leaves an active body awake", wh, "%s to %s" % (a, b))
                for c in VEC:
                    for x in "xyz":
                        v = C.cell(c, e, x)
                        if b == STATIC or c in VEC[:2]: rep.check(isinstance(v, Sc) and not v.p, "setType leaves no force, and a static body no velocity (%s)" % c, wh, "%s to %s" % (a, b))
    # ---- sleeping
    fn = P.method("RigidBody", "setIsSleeping"); rep.analysed(fn); C = Case(P, fn); wh = fn.where(); par = "$" + fn.ps[0]["n"]; n += 1
    for t in TYPES:
        for s in (0, 1):
            for act in (0, 1):
                for to in (0, 1):
                    e = C.env(t, s, act, **{par: to}); got = num(C, "mIsSleeping", e)
                    if t == STATIC:
                        if s == 0: rep.check(got == 0, "a static body is never put to sleep", wh)
                    elif act == 0:
                        if s == 1: rep.check(got == 1, "an inactive body cannot be awakened", wh)
                    else:
                        rep.check(got == to, "setIsSleeping changes the state of an active body", wh, "%s: %s to %s gives %s" % (t, s, to, got))
                        if to == 1 and s == 0:
                            for c in VEC:
                                for x in "xyz":
                                    v = C.cell(c, e, x); rep.check(isinstance(v, Sc) and not v.p, "a body put to sleep keeps no velocity, force or torque (%s)" % c, wh, v.key()[:150] if v is not None else "unchanged")
                        v = C.cell("mSleepTimes", e)
                        if s != to: rep.check(isinstance(v, Sc) and not v.p, "the idle time restarts when a body falls asleep or wakes", wh)
    # ---- colliders
    fn = P.method("Collider", "setLocalToBodyTransform"); rep.analysed(fn); n += 1
    ok, det = wakes(P, fn, None, lambda k: "mBody" in k or "mBodiesEntities" in k)
    rep.check(ok, "moving a collider wakes its body", fn.where(), det)
    # ---- joints
    n += joints(P, rep)
    neighbours(P, rep); allbodies(P, rep)
    rep.count("operations", n)

def num(C, col, env):
    v = C.cell(col, env)
    if v is None: return env.get("*this.mWorld.mRigidBodyComponents.%s[%s]" % (col, C.row))
    return number(C.it, v.p, env) if isinstance(v, Sc) else None

def awake_or_open(C, env, par):
    """the body is awake afterwards, or whether it is depends only on a test of the velocity this analysis cannot evaluate"""
    v = C.cell("mIsSleeping", env)
    if v is None: return False
    k = number(C.it, v.p, env) if isinstance(v, Sc) else None
    if k is not None: return k == 0
    # undecided choices
    for m in v.p:
        for a in m:
            i = C.it.I.info.get(a)
            if i and i[0] in ("phi", "sel"):
                txt = " ".join(closure_text(C.it.I, i[1])) if isinstance(i[1], str) else ""
                if "$" + par not in txt: return False
    return True

INL = {"Joint", "SliderJoint", "HingeJoint", "FixedJoint", "BallAndSocketJoint", "SliderJointComponents", "HingeJointComponents", "BallAndSocketJointComponents", "FixedJointComponents", "JointComponents", "RigidBodyComponents", "RigidBody", "Body", "BodyComponents",
       "ColliderComponents", "Collider", "Components", "Array", "TransformComponents", "PhysicsWorld"}
def trace(P, fn, stop=()):
    return Trace(P, fn, lambda f: f.n not in ("setIsSleeping", "string", "enablePair") + tuple(stop) and f.cls.split("<")[0] in INL)

def wakecalls(T):
    return [c for c in T.find(None, "setIsSleeping") if c.args and len(c.args) == 2 and isinstance(c.args[1], Sc) and not c.args[1].p]

def gset(it, g):
    out = set()
    for c, p in g:
        while c.startswith("!(") and c.endswith(")"): c = c[2:-1]; p = not p
        out.add((c, p))
    return out
def wakes(P, fn, guards, isbody, T=None):
    T = T or trace(P, fn); det = []
    for c in wakecalls(T):
        k = c.args[0].key() if hasattr(c.args[0], "key") else ""
        if not isbody(k): det.append("other body: " + k[:80]); continue
        g = gset(T.it, c.guards)
        g = {x for x in g if not nullguard(T.it, x)}
        if g <= (gset(T.it, guards) if guards is not None else set()): return True, ""
        det.append("only when " + ", ".join(("" if b else "not ") + strip(a)[:80] for a, b in g))
    return False, "; ".join(det)[:300] or "no call"
def nullguard(it, g): 
    """a test that a pointer is not null"""
    return g[1] is False and (g[0].startswith("(0 == ") or g[0].endswith(" == 0)")) and ("mRigidBodies" in g[0] or "mBody" in g[0])

JC = ("BallAndSocketJoint", "HingeJoint", "SliderJoint")
LIM = ("Limit", "Motor", "ConeLimit")
IMP = ("Impulse", "mInverseMass", "mBias")
def joints(P, rep):
    n = 0
    for cls in JC:
        for fn in P.methods(cls):
            if fn.n in ("ctor", "dtor") or fn.n == cls or fn.n.startswith("~") or fn.d.get("acc") == "private": continue
            if not re.match(r"(set|enable)", fn.n): continue
            T = trace(P, fn); ev = [e for e in T.it.events if re.search(r"m\w*(Limit|Motor)\w*$", e.path[-2] if len(e.path) > 1 else "") and not any(x in e.path[-2] for x in IMP)]
            if not ev: continue
            rep.analysed(fn)
            for e in ev:
                n += 1
                for b in ("mBody1Entities", "mBody2Entities"):
                    ok, det = wakes(P, fn, e.guards, lambda k: b in k and "mRigidBodies[" in k, T)
                    rep.check(ok, "%s::%s wakes %s of the joint whenever it changes a limit or motor" % (cls, fn.n, "body 1" if "1" in b else "body 2"), fn.where(), det, ident="%s::%s wakes %s" % (cls, fn.n, b))
    rep.check(n >= 10, "the limit and motor setters of the joints are found", "", str(n))
    fn = P.method("PhysicsWorld", "destroyJoint"); rep.analysed(fn); T = trace(P, fn, ("destroyEntity", "removeComponent"))
    for b in ("mBody1Entities", "mBody2Entities"):
        ok, det = wakes(P, fn, None, lambda k: b in k, T)
        rep.check(ok, "destroying a joint wakes %s" % ("body 1" if "1" in b else "body 2"), fn.where(), det)
    return n + 2

def neighbours(P, rep):
    """removing a collider wakes the sleeping bodies that touched it"""
    fn = P.method("RigidBody", "removeCollider"); rep.analysed(fn)
    T = trace(P, fn, ("removeComponent", "getCollisionShape"))
    W = [c for c in wakecalls(T) if len(c.loops) == 2]
    rep.check(bool(W), "removing a collider wakes the sleeping neighbours of the body", fn.where())
    for c in W:
        k = c.args[0].key(); wh = c.fn.where(c.node) if c.fn else fn.where()
        rep.check(other_of_pair(T.it, k, c.guards), "the neighbour is the other body of the overlapping pair", wh, k[:200])
        extra = []
        for g in gset(T.it, c.guards):
            if g[0].startswith("L:"): continue
            if g[0].endswith("collidingInPreviousFrame") or "collidingInPreviousFrame" in g[0]:
                rep.check(g[1] is True, "neighbours that touch the body are woken, not the others", wh, g[0][:100]); continue
            if "mDisabledStartIndex" in g[0]:
                rep.check(g[0] in T.it.I.info and disabled_test(T.it.I.info[g[0]], g[1]) is not False, "neighbours that sleep are woken", wh, g[0][:150]); continue
            if "getIsEntityDisabled" in g[0] and g[1] or is_own_body(T.it, g): continue
            if nullguard(T.it, g): continue
            extra.append(g)
        rep.check(not extra, "every disabled neighbour touching the body is woken", wh, str([x[0][:100] for x in extra]))
    rm = [c for c in T.calls if c.n == "removeComponent" and "mCollidersComponents" in (c.args[0].key() if c.args and hasattr(c.args[0], "key") else "")]
    rep.check(bool(rm) and all(w.k < r.k for w in W for r in rm), "neighbours are woken while the collider still exists", fn.where())

def is_own_body(it, g):
    return "Entity::operator==(" in g[0] and "collider" in " ".join(closure_text(it.I, g[0]))

def disabled_test(inf, pol):
    """does the comparison hold for disabled rows only (True) or for enabled rows only (False)"""
    if inf[0] != "cmp": return None
    d = inf[2] if isinstance(inf[2], dict) else inf[2].p; k = [c for m, c in d.items() if any("mDisabledStartIndex" in a for a in m)]
    if len(k) != 1 or inf[1] == "==": return None
    return (k[0] > 0 and inf[1] == "<=") if pol else (k[0] < 0 and inf[1] == "<")

def other_of_pair(it, k, guards):
    """the object named by k is the body of the pair's collider that is not this body's"""
    def sides(t):
        t = " ".join(closure_text(it.I, t)); return {x for x in ("collider1", "collider2") if x in t}
    def known(c, pol):
        while c.startswith("!(") and c.endswith(")"): c = c[2:-1]; pol = not pol
        if "Entity::operator" not in c: return None
        if c.startswith("Entity::operator!="): pol = not pol
        t = " ".join(closure_text(it.I, c)); s = {x for x in ("collider1", "collider2") if x in t}
        if len(s) != 1: return None
        own = s.pop(); return own if pol else ("collider2" if own == "collider1" else "collider1")
    alts = []
    for t in closure_text(it.I, k):
        m = re.fullmatch(r"(?:phi|sel)\[(.*)\]\((.*) \| (.*)\)", t)
        if m: alts += [((m.group(1), True), m.group(2)), ((m.group(1), False), m.group(3))]
    if not alts: alts = [(None, k)]
    for cond, a in alts:
        own = {known(*g) for g in guards} - {None}
        if cond: own |= {known(*cond)} - {None}
        if len(own) != 1 or sides(a) != {"collider1", "collider2"} - own: return False
    return True

def allbodies(P, rep):
    fn = P.method("PhysicsWorld", "enableSleeping"); rep.analysed(fn); T = trace(P, fn); par = "$" + fn.ps[0]["n"]
    W = [c for c in wakecalls(T) if len(c.loops) == 1]; ok = False; det = ""
    for c in W:
        rg = T.ranges(c)[0]; g = [x for x in gset(T.it, c.guards) if not x[0].startswith("L:")]
        full = rg[0] == "iter" and rg[3].endswith("mRigidBodies.mBuffer") or rg[0] == "each" and "mRigidBodies" in rg[3] or rg[0] == "up" and not rg[2] and pkey(rg[3]).endswith("mRigidBodies.mSize")
        if not full or leaves_early(c.fn, c.loops[0][1]): det = str(rg[0]); continue
        if all(x[0] in (par, "*this.mIsSleepingEnabled", "this.mIsSleepingEnabled") and x[1] is False for x in g): ok = True
        else: det = str([(x[0][:80], x[1]) for x in g])
    rep.check(ok, "disabling sleeping wakes every body", fn.where(), det or "%d calls" % len(W))

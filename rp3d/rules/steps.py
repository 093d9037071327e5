"""P05, P16: what a step does, in which order, to which rows."""
import re
from ..trace import *
from ..terms import *
from ..model import AnalysisBroken
from ..solver import JOINTS, system_of, comps_of

ENABLED = re.compile(r"mDisabledStartIndex$|getNbEnabledComponents\("); ALL = re.compile(r"mNbComponents$|getNbComponents\(")
def strip(k): return re.sub(r"\*?\bthis\.", "", k).lstrip("*")
def bound_text(p): return strip(pkey(p))

def single(p): return len(p) == 1 and all(len(m) == 1 and c == 1 for m, c in p.items())
def covers(rng, table, pat):
    """the loop visits every row of the part of the table below the bound"""
    if rng[0] == "up": b, lo = rng[3], rng[2]
    elif rng[0] == "down": b, lo = padd(rng[2], const(1)), rng[3]
    else: return False
    if rng[0] == "down" and lo == const(1) and single(rng[2]): b, lo = rng[2], {}      # counts down from the number of rows, used less one
    return not lo and single(b) and pat.search(bound_text(b)) is not None and table in bound_text(b)

def condtext(it, g): return ("" if g[1] else "not ") + strip(g[0])[:90]

def world_trace(P):
    if "_wt" not in P.__dict__:
        f = P.method("PhysicsWorld", "update")
        P._wt = Trace(P, f, lambda g: g.cls in ("PhysicsWorld", "ConstraintSolverSystem") and g.n != "createIslands")
    return P._wt

# ------------------------------------------------------------------ P05
PHASES = [("initBeforeSolve", None), ("warmstart", None), ("solveVelocityConstraint", "mNbVelocitySolverIterations"), ("solvePositionConstraint", "mNbPositionSolverIterations")]
FLAG = re.compile(r"^!*\(?(m\w+Components\.m(Is\w*(LimitEnabled|LimitViolated|MotorEnabled))\[\w+\])\)?$")

def check_P05(P, rep):
    T = world_trace(P); it = T.it; rep.analysed(T.fn); ncall = nloop = 0
    pos = {}
    for j in JOINTS:
        sysn = system_of(j)
        for ph, iters in PHASES:
            cs = T.find(sysn, ph); wh = T.fn.where()
            if not rep.check(len(cs) == 1, "a step calls %s of %s once" % (ph, sysn), wh, "%d calls" % len(cs)): continue
            c = cs[0]; pos[(j, ph)] = c.k; wh = c.fn.where(c.node); ncall += 1; rep.analysed(c.fn)
            g = T.conds(c)
            okg = all("mIsWarmStartingActive" in x[0] and (x[0].startswith("!") != x[1]) for x in g) if ph == "warmstart" else not g
            rep.check(okg, "%s of %s runs unconditionally" % (ph, sysn), wh, str([condtext(it, x) for x in g]))
            r = T.ranges(c)
            if iters is None: rep.check(not r, "%s of %s runs once per step" % (ph, sysn), wh, str(len(r)))
            else: rep.check(len(r) == 1 and r[0][0] in ("up", "down") and (iters in bound_text(r[0][3]) and not r[0][2] or iters in bound_text(r[0][2]) and not r[0][3] or r[0][0] == "down" and iters in pkey(r[0][2])), "%s of %s runs the configured number of iterations" % (ph, sysn), wh, str([(x[0], pkey(x[3]) if len(x) > 3 and isinstance(x[3], dict) else "") for x in r]))
        order = [pos.get((j, ph)) for ph, _ in PHASES]
        rep.check(None not in order and order == sorted(order), "the phases of %s follow one another" % j, T.fn.where())
        for st, why in (("setTimeStep", "the time step"), ("setIsWarmStartingActive", "the warm starting switch")):
            cs = [c for c in T.calls if c.n == st and c.cls == sysn]
            rep.check(len(cs) == 1 and not T.conds(cs[0]) and cs[0].k < pos.get((j, "initBeforeSolve"), -1), "%s reaches %s before its initialisation" % (why, sysn), T.fn.where())
    dts = {c.args[-1].key() for c in T.calls if c.n == "setTimeStep" and "Joint" in c.cls}
    rep.check(len(dts) == 1 and "timeStep" in next(iter(dts), ""), "every joint system gets the time step of the step", T.fn.where(), str(dts))
    # the loops over the joints
    for j in JOINTS:
        for ph, _ in PHASES:
            f = P.method(system_of(j), ph); rep.analysed(f)
            TT = Trace(P, f, lambda g: False, maxterms=12)
            seen = set()
            for e in TT.it.events + TT.it.calls:
                if e.path[0].startswith("%") or not e.loops: continue
                for l in e.loops:
                    if l[0] in seen: continue
                    seen.add(l[0]); nloop += 1
                    r = loop_range(TT.it, l, e.guards)
                    rep.check(covers(r, "m" + comps_of(j), ENABLED), "%s of %s visits every enabled joint" % (ph, j), f.where(l[1]), str(r[0]) + (" from %s to %s" % (pkey(r[2])[:60], bound_text(r[3])[:80]) if len(r) > 3 and isinstance(r[3], dict) else ""))
                    out = leaves_early(e.fn, l[1])
                    rep.check(not out, "%s of %s goes on to the next joint whatever happens to one" % (ph, j), f.where(out[0].x if out and isinstance(out[0].x, dict) else l[1]))
                    pre = [g for g in e.guards[:next((k for k, g in enumerate(e.guards) if g[0].startswith("L:")), 0)] if not g[0].startswith("L:")]
                    rep.check(not pre, "%s of %s is not skipped as a whole" % (ph, j), f.where(l[1]), str([condtext(TT.it, x) for x in pre]))
            rep.check(bool(seen), "%s of %s loops over the joints" % (ph, j), f.where())
    # within an iteration: a row depends only on the joint's own switches
    from .solverlaws import prepare, label
    for j in JOINTS:
        S = prepare(P, j)
        for ph in ("warm", "solve"):
            for g, l, G, ev, _ in S.G[ph]:
                bad = [S.C.name(x[0]) for x in g if not re.match(r"^!?\(?m%s\.mIs\w*\[i\]" % comps_of(j), S.C.name(x[0])) and not all(re.search(r"mIs\w+(Enabled|Violated)\[", t) for t in re.findall(r"m\w+Components\.\w+\[[^\]]*\]", S.C.name(x[0])) or [""])]
                rep.check(not bad, "the rows of %s depend only on the joint's own switches (%s)" % (j, ph), ev[0].fn.where(ev[0].node if isinstance(ev[0].node, dict) else None), str([b[:120] for b in bad]))
        # position correction is skipped only for joints that do not ask for it
        for g, l, G, ev, _ in S.G["pos"]:
            for x in g:
                n = S.C.name(x[0])
                if "mPositionCorrectionTechniques" in n or "JointsPositionCorrectionTechnique" in n:
                    ok = "NON_LINEAR_GAUSS_SEIDEL" in n and technique(S, x)
                    rep.check(ok, "position correction of %s treats the joints that ask for it" % j, ev[0].fn.where(ev[0].node if isinstance(ev[0].node, dict) else None), n[:200])
    rep.count("phase_calls", ncall); rep.count("joint_loops", nloop); rep.need(nloop, 14, "loops over joints")

def technique(S, x):
    """the guard means technique == NON_LINEAR_GAUSS_SEIDEL"""
    it = S.it["pos"]; name, pol = x
    while True:
        i = it.I.info.get(name)
        if i is None:
            # compound names: !((..) == 0) printed in the name
            return (name.startswith("!") and "== 0" in name) != pol
        if i[0] == "not": name = i[1] if isinstance(i[1], str) else i[1].key(); pol = not pol; continue
        return i[0] == "cmp" and i[1] == "==" and pol

# ------------------------------------------------------------------ P16
BEFORE = [  # (earlier, later, reason)
 (("CollisionDetectionSystem", "computeCollisionDetection"), ("PhysicsWorld", "createIslands"), "islands are built from the contact pairs of this step"),
 (("PhysicsWorld", "createIslands"), ("CollisionDetectionSystem", "createContacts"), "contacts are created in island order"),
 (("CollisionDetectionSystem", "createContacts"), ("CollisionDetectionSystem", "reportContactsAndTriggers"), "the contacts of this step are reported"),
 (("CollisionDetectionSystem", "createContacts"), ("ContactSolverSystem", "init"), "the solver gets the contacts of this step"),
 (("CollisionDetectionSystem", "reportContactsAndTriggers"), ("DynamicsSystem", "integrateRigidBodiesVelocities"), "velocities and forces the user changes in a callback count in this step"),
 (("DynamicsSystem", "integrateRigidBodiesVelocities"), ("ContactSolverSystem", "init"), "warm starting adds to the integrated velocities"),
 (("ContactSolverSystem", "init"), ("ContactSolverSystem", "solve"), "contacts are initialised before they are solved"),
 (("ContactSolverSystem", "solve"), ("ContactSolverSystem", "storeImpulses"), "the impulses stored are those of the last iteration"),
 (("ContactSolverSystem", "storeImpulses"), ("ContactSolverSystem", "reset"), "impulses are stored before the solver forgets them"),
 (("ContactSolverSystem", "solve"), ("DynamicsSystem", "integrateRigidBodiesPositions"), "positions are integrated with solved velocities"),
 (("SolveHingeJointSystem", "solveVelocityConstraint"), ("DynamicsSystem", "integrateRigidBodiesPositions"), "positions are integrated with solved velocities"),
 (("DynamicsSystem", "integrateRigidBodiesPositions"), ("SolveHingeJointSystem", "solvePositionConstraint"), "position correction works on integrated positions"),
 (("SolveHingeJointSystem", "solvePositionConstraint"), ("DynamicsSystem", "updateBodiesState"), "the corrected poses are published"),
 (("DynamicsSystem", "updateBodiesState"), ("CollisionDetectionSystem", "updateColliders"), "the broad phase gets the poses of this step"),
 (("DynamicsSystem", "updateBodiesState"), ("PhysicsWorld", "<sleep>"), "sleeping is decided on the velocities of this step"),
 (("CollisionDetectionSystem", "updateColliders"), ("PhysicsWorld", "<sleep>"), "bodies that fall asleep are in the broad phase with their last pose"),
 (("DynamicsSystem", "integrateRigidBodiesVelocities"), ("DynamicsSystem", "resetBodiesForceAndTorque"), "forces are applied before they are cleared"),
 (("PhysicsWorld", "<sleep>"), ("Islands", "clear"), "islands last until bodies are put to sleep"),
 (("ContactSolverSystem", "storeImpulses"), ("Islands", "clear"), "islands last until the contacts are solved"),
 (("Islands", "clear"), ("MemoryManager", "resetFrameAllocator"), "frame memory is given back last"),
 (("DynamicsSystem", "resetBodiesForceAndTorque"), ("MemoryManager", "resetFrameAllocator"), "frame memory is given back last"),
]

def check_P16(P, rep):
    T = world_trace(P); it = T.it; rep.analysed(T.fn); n = 0
    def site(k):
        if k[1] == "<sleep>": return [c for c in T.calls if c.n == "setIsSleeping"]
        return T.find(*k)
    for k in sorted({x for a, b, _ in BEFORE for x in (a, b)}):
        cs = site(k); wh = T.fn.where()
        if not rep.check(len(cs) == 1, "a step does %s::%s once" % k, wh, "%d calls" % len(cs)): continue
        c = cs[0]; g = T.conds(c); n += 1
        if k[1] == "<sleep>": continue
        rep.check(not g, "%s::%s runs in every step" % k, c.fn.where(c.node), str([condtext(it, x) for x in g]))
    for a, b, why in BEFORE:
        ca, cb = site(a), site(b)
        if len(ca) == 1 and len(cb) == 1:
            rep.check(ca[0].k < cb[0].k, "%s before %s: %s" % (a[1], b[1], why), cb[0].fn.where(cb[0].node))
    # writes of the world itself between the calls
    def writes(field):
        return [e for e in it.events if field in e.path[-1] or any(field in s for s in e.path)]
    def firstcall(k): return site(k)[0].ev.seq if site(k) else -1
    inv = writes("mInverseInertiaTensorsWorld")
    # calls that fill the world inertia tensors (through a reference)
    rep.check(bool(inv) or bool([c for c in T.calls if c.n == "computeWorldInertiaTensorInverse"]), "a step recomputes the world inertia tensors", T.fn.where())
    ev = (inv or [c.ev for c in T.calls if c.n == "computeWorldInertiaTensorInverse"])
    if ev:
        e = ev[0]; rep.check(e.seq <= firstcall(("DynamicsSystem", "integrateRigidBodiesVelocities")), "the world inertia tensors are those of this step's poses when velocities are integrated", e.fn.where())
        g = [x for x in e.guards if not x[0].startswith("L:")]; rep.check(not g, "the inertia tensors of all awake bodies are recomputed", e.fn.where(), str([condtext(it, x) for x in g]))
        if e.loops: rep.check(covers(loop_range(it, e.loops[-1], e.guards), "mRigidBodyComponents", ENABLED), "the inertia tensors of all awake bodies are recomputed (range)", e.fn.where())
    # time step
    for k in (("DynamicsSystem", "integrateRigidBodiesVelocities"), ("DynamicsSystem", "integrateRigidBodiesPositions"), ("ContactSolverSystem", "init")):
        cs = site(k)
        if len(cs) == 1: rep.check(any(strip(a.key()).split("#")[0].strip("$%<>") == "timeStep" for a in cs[0].args if hasattr(a, "key")), "%s gets the time step the user passed" % k[1], cs[0].fn.where(cs[0].node), str([a.key()[:60] for a in cs[0].args if hasattr(a, "key")]))
    m = dynamics(P, rep)
    rep.count("phases", n); rep.count("formulas", m); rep.need(n, 15, "phases")

def parts(it, e):
    """(component, value) of a write to a vector or to one of its components"""
    if isinstance(e.new, Sc):
        s = e.path[-1].rsplit(".", 1)[-1]
        return [("xyz".find(s) if s in ("x", "y", "z") else 0, e.new)]
    return list(enumerate(comp3(it, e.new)))
def compsof(it, e, names):
    """[(component name, value)] written by an event on a vector or quaternion or on one of its components"""
    if isinstance(e.new, Sc): return [(e.path[-1].rsplit(".", 1)[-1], e.new)]
    return [(x, it.select(e.new, x, "float")) for x in names]
def qmul(a, b):
    s = lambda *ts: __import__("functools").reduce(padd, [pmul(const(k), pmul(a[x], b[y])) for k, x, y in ts], {})
    return {"w": s((1, "w", "w"), (-1, "x", "x"), (-1, "y", "y"), (-1, "z", "z")), "x": s((1, "w", "x"), (1, "x", "w"), (1, "y", "z"), (-1, "z", "y")),
            "y": s((1, "w", "y"), (1, "y", "w"), (1, "z", "x"), (-1, "x", "z")), "z": s((1, "w", "z"), (1, "z", "w"), (1, "x", "y"), (-1, "y", "x"))}
def rotations(q, v):
    """the vector v turned by the unit quaternion q, in the usual polynomial forms"""
    conj = {x: q[x] if x == "w" else pneg(q[x]) for x in q}; r1 = qmul(qmul(q, {"w": {}, **v}), conj)
    u = {x: q[x] for x in "xyz"}
    def cross(a, b): return {"x": psub(pmul(a["y"], b["z"]), pmul(a["z"], b["y"])), "y": psub(pmul(a["z"], b["x"]), pmul(a["x"], b["z"])), "z": psub(pmul(a["x"], b["y"]), pmul(a["y"], b["x"]))}
    c1 = cross(u, v); c2 = cross(u, c1); two = const(2)
    return [r1, {x: padd(v[x], padd(pmul(two, pmul(q["w"], c1[x])), pmul(two, c2[x]))) for x in "xyz"}]
def assume(it, p, cond, val):
    """p with every choice on cond decided"""
    for _ in range(20):
        mp = {}
        for mm in p:
            for a in mm:
                i = it.I.info.get(a)
                if not i or i[0] not in ("sel", "phi"): continue
                c = i[1]; neg = False
                while c.startswith("!("): c = c[2:-1]; neg = not neg
                if c == cond:
                    x = i[2] if val != neg else i[3]
                    mp[a] = x.p
        if not mp: return p
        p = psubst(p, mp)
    return p
def comp3(it, v): return [it.select(v, c, "float") for c in "xyz"]

def dynamics(P, rep):
    m = 0
    def run(name, quat=False):
        f = P.method("DynamicsSystem", name); rep.analysed(f)
        if quat:
            T = Trace(P, f, lambda g: g.n != "getUnit" and (not g.cls and g.n.startswith("operator") or g.cls.split("<")[0] in ("DynamicsSystem", "Vector3", "RigidBodyComponents", "Components", "TransformComponents", "ColliderComponents", "Matrix3x3", "Quaternion", "Transform")), maxterms=200)
            return f, T
        T = Trace(P, f, lambda g: (not g.cls and g.n.startswith("operator")) or g.cls.split("<")[0] in ("DynamicsSystem", "Vector3", "RigidBodyComponents", "Components", "TransformComponents", "Matrix3x3") and g.n not in ("length", "normalize", "getUnit", "getInverse"), maxterms=60)
        return f, T
    def col(e):
        for i, s in enumerate(e.path):
            if s.startswith("[") and i > 0: return e.path[i - 1].split(".")[-1], s
        return e.path[-1], ""
    def cell(it, e): return strip(pstr(e.path))
    def norm(p):
        """row numbers are one symbol; versions of a column are kept apart by the order of writes, not here"""
        out = {}
        for mm, c in p.items():
            k = tuple(sorted(re.sub(r"\?\d+", "", re.sub(r"@\d+", "", re.sub(r"\[%\w+#\d+(\?\d+)?\]", "[i]", strip(a)))) for a in mm)); out[k] = out.get(k, 0) + c
        return {k: v for k, v in out.items() if v}
    R = "mRigidBodyComponents."
    # ---- velocities
    f, T = run("integrateRigidBodiesVelocities"); it = T.it
    stages = {}
    for e in it.events:
        c, idx = col(e)
        if c in ("mConstrainedLinearVelocities", "mConstrainedAngularVelocities") and e.loops: stages.setdefault((c, tuple(l[0] for l in e.loops)), []).append(e)
    for which, force in (("Linear", 1), ("Angular", 0)):
        st = [v for (c, l), v in stages.items() if "Constrained" + which in c]
        rep.check(len(st) >= 1, "%s velocities are integrated" % which.lower(), f.where())
        facts = {"force": [], "gravity": [], "damping": []}
        for evs in st:
            for e in evs:
                for k, v in parts(it, e):
                    if not isinstance(v, Sc): continue
                    p = norm(v.p)
                    facts.setdefault("all", []).append((e, k, p))
        txt = " ".join(pkey(p) for e, k, p in facts.get("all", []))
        for e, k, p in facts.get("all", []):
            c = "xyz"[k]; wh = f.where(e.node if isinstance(e.node, dict) else None); m += 1
            rng = loop_range(it, e.loops[-1], e.guards); rep.check(covers(rng, "mRigidBodyComponents", ENABLED), "velocity integration visits every awake body", wh, str(rng[0]))
            g = [x for x in e.guards if not x[0].startswith("L:")]
            dt = next((a for mm in p for a in mm if a.split("#")[0].lstrip("$%") == "timeStep"), "timeStep")
            V = R + "m%sVelocities[i].%s" % (which, c); CV = R + "mConstrained%sVelocities[i].%s" % (which, c)
            damp = [a for mm in p for a in mm if a.startswith("inv(")]
            lock = R + "m%sLockAxisFactors[i].%s" % (which, c)
            # split into damping factor times undamped velocity
            if damp:
                d = damp[0]; q = {mono(mm, d): cc for mm, cc in p.items()} if all(d in mm for mm in p) else None
                want = "%sm%sDampings[i]" % (R, which[:3] if which == "Linear" else "Angular")
                dd = R + "m%sDampings[i]" % which
                rep.check(q is not None and dd in norm_text(d) and dt_in(d), "%s damping multiplies the velocity by 1 / (1 + c dt)" % which.lower(), wh, d[:160]); 
                rep.check(inv_is(it, d, [dd], dt), "the %s damping factor is 1 / (1 + c dt)" % which.lower(), wh, d[:200])
                rep.check(not g, "damping applies to every awake body", wh, str([condtext(it, x) for x in g])); p = q or {}
            base = [a for a in (V, CV) if p.get((a,)) == 1]
            rest = {mm: cc for mm, cc in p.items() if mm not in [(a,) for a in base]}
            rep.check(len(base) == 1, "the new %s velocity starts from the previous one" % which.lower(), wh, pkey(p)[:200])
            for mm, cc in rest.items():
                txt2 = "*".join(mm)
                if "mExternal" in txt2:
                    if which == "Linear": rep.check(cc == 1 and sorted(mm) == sorted([dt, R + "mInverseMasses[i]", lock, R + "mExternalForces[i].%s" % c]), "external forces accelerate by dt * force / mass along unlocked axes", wh, txt2[:200])
                    else:
                        n3 = [a for a in mm if "mInverseInertiaTensorsWorld" in a]; t3 = [a for a in mm if "mExternalTorques" in a]
                        ok = cc == 1 and len(mm) == 4 and dt in mm and lock in mm and len(n3) == 1 and len(t3) == 1 and n3[0].endswith("[%d].%s" % (k, t3[0][-1]))
                        rep.check(ok, "external torques accelerate by dt * inverse inertia * torque about unlocked axes", wh, txt2[:250])
                    facts["force"].append(k)
                    rep.check(not g, "forces act on every awake body", wh, str([condtext(it, x) for x in g]))
                elif "mGravity" in txt2:
                    facts["gravity"].append(k)
                    rep.check(cc == 1 and sorted(a for a in mm if not re.search(r"mGravity\.", a)) == sorted([dt, R + "mInverseMasses[i]", R + "mMasses[i]", lock]) and any(a.endswith("mGravity.%s" % c) for a in mm), "gravity accelerates by dt * g along unlocked axes", wh, txt2[:250])
                    gt = " ".join(strip(x[0]) for x in g); pols = all(x[1] for x in g if not x[0].startswith("!"))
                    rep.check(len(g) == 2 and pols and "mIsGravityEnabled" in strip(g[0][0]) and "mRigidBodyComponents.mIsGravityEnabled" in gt, "gravity acts exactly on the bodies for which it is enabled, when it is enabled", wh, gt[:200])
                else: rep.bad("unexpected term in the integration of %s velocities" % which.lower(), wh, txt2[:250])
        rep.check(sorted(set(facts["force"])) == [0, 1, 2], "forces act along all axes (%s)" % which, f.where(), str(facts["force"]))
        if which == "Linear": rep.check(sorted(set(facts["gravity"])) == [0, 1, 2], "gravity acts along all axes", f.where())
        rep.check("inv(" in txt, "%s velocities are damped" % which.lower(), f.where())
    # split velocities start at zero
    for c in ("mSplitLinearVelocities", "mSplitAngularVelocities"):
        es = [e for e in it.events if col(e)[0] == c]
        first = min([e.seq for (cc, l), v in stages.items() for e in v] or [0])
        ok = bool(es) and all(zero(it, e.new) for e in es) and all(e.loops and covers(loop_range(it, e.loops[-1], e.guards), "mRigidBodyComponents", ENABLED) or e.loops and covers(loop_range(it, e.loops[-1], e.guards), "mRigidBodyComponents", ALL) for e in es) and not any(x for e in es for x in e.guards if not x[0].startswith("L:"))
        rep.check(ok, "%s start the step at zero for every awake body" % c, f.where()); m += 1
    # ---- positions
    f, T = run("integrateRigidBodiesPositions", quat=True); it = T.it
    got = set(); Q = "mTransformComponents.mTransforms[@mRigidBodyComponents.mBodiesEntities[i]].mOrientation."
    A = lambda n: atom(n)
    for e in it.events:
        c, idx = col(e)
        part = [x for x in ("mConstrainedPositions", "mConstrainedOrientations") if any(s.endswith("." + x) for s in e.path)]
        if not part: continue
        c = part[0]; wh = f.where(e.node if isinstance(e.node, dict) else None)
        rep.check(bool(e.loops) and covers(loop_range(it, e.loops[-1], e.guards), "mRigidBodyComponents", ENABLED), "position integration visits every awake body", wh)
        rep.check(not [x for x in e.guards if not x[0].startswith("L:")], "position integration is unconditional", wh)
        for comp, v in compsof(it, e, "xyz" if c == "mConstrainedPositions" else "xyzw"):
            m += 1; got.add((c, comp))
            for on in (True, False):
                p = norm(assume(it, v.p, "$isSplitImpulseActive", on)) if isinstance(v, Sc) else {}
                dt = A("$timeStep")
                vel = lambda w, x: padd(A(R + "mConstrained%sVelocities[i].%s" % (w, x)), A(R + "mSplit%sVelocities[i].%s" % (w, x)) if on else {})
                if c == "mConstrainedPositions":
                    want = padd(A(R + "mCentersOfMassWorld[i]." + comp), pmul(dt, vel("Linear", comp)))
                    rep.check(p == norm(want), "the centre of mass moves by dt times the velocity%s" % (" plus the split velocity" if on else ""), wh, pkey(p)[:200])
                else:
                    prod = qmul({"w": {}, **{x: vel("Angular", x) for x in "xyz"}}, {x: A(Q + x) for x in "wxyz"})
                    want = padd(A(Q + comp), pmul(pmul(dt, const(Fraction(1, 2))), prod[comp]))
                    rep.check(p == norm(want), "the orientation turns by half dt times the angular velocity%s" % (" plus the split velocity" if on else ""), wh, pkey(p)[:300])
    rep.check(got == {("mConstrainedPositions", x) for x in "xyz"} | {("mConstrainedOrientations", x) for x in "xyzw"}, "positions and orientations are integrated", f.where(), str(sorted(got)))
    # the split velocities count exactly when the contact solver uses split impulses
    for cc in world_trace(P).find("DynamicsSystem", "integrateRigidBodiesPositions"):
        a = [x.key() for x in cc.args if hasattr(x, "key")]
        rep.check(any("mIsSplitImpulseActive" in x and not x.startswith("!") or "isSplitImpulseActive(" in x and not x.startswith("!") for x in a), "split velocities are used exactly when the contact solver uses split impulses", cc.fn.where(cc.node), str(a)[:200])
    # ---- state
    f, T = run("updateBodiesState", quat=True); it = T.it; pairs = {"mLinearVelocities": "mConstrainedLinearVelocities", "mAngularVelocities": "mConstrainedAngularVelocities", "mCentersOfMassWorld": "mConstrainedPositions"}; done = set(); opos = None
    TB = "mTransformComponents.mTransforms[@mRigidBodyComponents.mBodiesEntities[i]]."; TC = "mTransformComponents.mTransforms[@mColliderComponents.mBodiesEntities[i]]."; LC = "mColliderComponents.mLocalToBodyTransforms[i]."
    def rng(e, tab, what):
        rep.check(bool(e.loops) and covers(loop_range(it, e.loops[-1], e.guards), tab, ENABLED) and not [x for x in e.guards if not x[0].startswith("L:")], what, f.where(e.node if isinstance(e.node, dict) else None))
    for e in it.events:
        wh = f.where(e.node if isinstance(e.node, dict) else None); path = norm_text(strip(pstr(e.path)))
        c = next((x for x in pairs if path.startswith(R + x)), None)
        if c:
            for comp, v in compsof(it, e, "xyz"):
                m += 1; done.add((c, comp))
                rep.check(isinstance(v, Sc) and norm(v.p) == A(R + "%s[i].%s" % (pairs[c], comp)), "%s publish %s of the same body" % (c, pairs[c]), wh, v.key()[:200])
            rng(e, "mRigidBodyComponents", "%s are published for every awake body" % c)
        elif path.startswith(TB + "mOrientation"):
            for comp, v in compsof(it, e, "xyzw"):
                m += 1; done.add(("q", comp)); t = norm_text(strip(v.key()))
                rep.check(t == "Quaternion::getUnit(<%smConstrainedOrientations[i]>).%s" % (R, comp), "the published orientation is the normalised constrained one", wh, t[:200])
            rng(e, "mRigidBodyComponents", "orientations are published for every awake body"); opos = e.seq
        elif path.startswith(TB + "mPosition"):
            for comp, v in compsof(it, e, "xyz"):
                m += 1; done.add(("p", comp)); p = norm(v.p) if isinstance(v, Sc) else {}
                ok = False
                for cm in ("mCentersOfMassWorld", "mConstrainedPositions"):
                    for qn in (TB + "mOrientation.%s", "Quaternion::getUnit(<" + R + "mConstrainedOrientations[i]>).%s"):
                        for rot in rotations({x: A(qn % x) for x in "wxyz"}, {x: A(R + "mCentersOfMassLocal[i]." + x) for x in "xyz"}):
                            ok = ok or p == norm(psub(A(R + cm + "[i]." + comp), rot[comp]))
                rep.check(ok, "the published position puts the centre of mass where it was computed", wh, pkey(p)[:300])
                rep.check(opos is not None, "positions are published with the new orientation", wh)
            rng(e, "mRigidBodyComponents", "positions are published for every awake body")
        elif path.startswith("mColliderComponents.mLocalToWorldTransforms[i]"):
            part = "p" if "mPosition" in path else "q"
            for comp, v in compsof(it, e, "xyz" if part == "p" else "xyzw"):
                m += 1; done.add(("c" + part, comp)); p = norm(v.p) if isinstance(v, Sc) else {}
                q = {x: A(TC + "mOrientation." + x) for x in "wxyz"}
                if part == "q": ok = p == norm(qmul(q, {x: A(LC + "mOrientation." + x) for x in "wxyz"})[comp])
                else: ok = any(p == norm(padd(A(TC + "mPosition." + comp), rot[comp])) for rot in rotations(q, {x: A(LC + "mPosition." + x) for x in "xyz"}))
                rep.check(ok, "the world transform of a collider is its body's transform times its own", wh, pkey(p)[:200])
            rng(e, "mColliderComponents", "collider transforms are updated for every awake collider")
    want = {(c, x) for c in list(pairs) + ["p", "cp"] for x in "xyz"} | {(c, x) for c in ("q", "cq") for x in "xyzw"}
    rep.check(done == want, "velocities, centres of mass, poses and collider transforms are published", f.where(), str(sorted(want - done)))
    # ---- forces
    f, T = run("resetBodiesForceAndTorque"); it = T.it
    for c in ("mExternalForces", "mExternalTorques"):
        es = [e for e in it.events if col(e)[0] == c]; m += 1
        ok = bool(es) and all(zero(it, e.new) for e in es) and all(e.loops and covers(loop_range(it, e.loops[-1], e.guards), "mRigidBodyComponents", ALL) for e in es) and not any(x for e in es for x in e.guards if not x[0].startswith("L:"))
        rep.check(ok, "%s of every body, awake or asleep, are cleared at the end of a step" % c, f.where())
    return m

def zero(it, v):
    if isinstance(v, Sc): return not v.p
    return all(isinstance(x, Sc) and not x.p for x in comp3(it, v))
def norm_text(t): return re.sub(r"\?\d+", "", re.sub(r"@\d+", "", re.sub(r"\[%\w+#\d+(\?\d+)?\]", "[i]", re.sub(r"x?\*?\bx?this\.", "", t))))
def dt_in(a): return "timeStep" in a
def mono(mm, d):
    l = list(mm); l.remove(d); return tuple(l)
def inv_is(it, d, cols, dt):
    for a, i in it.I.info.items():
        if i[0] == "inv" and norm_text(strip(a)) == norm_text(d):
            x = i[1]; p = x.p if isinstance(x, Sc) else x if isinstance(x, dict) else None
            if p is None: return False
            q = {}
            for mm, c in p.items():
                k = tuple(sorted(norm_text(strip(y)) for y in mm)); q[k] = q.get(k, 0) + c
            two = [mm for mm in q if mm]
            return len(q) == 2 and q.get(()) == 1 and len(two) == 1 and q[two[0]] == 1 and len(two[0]) == 2 and cols[0] in two[0] and any(y.split("#")[0].lstrip("$%") == "timeStep" for y in two[0])
    return False

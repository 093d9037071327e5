"""P20: attributes keep what the user gave them."""
import re
from ..api import *
from ..api import run as arun
from ..terms import *
from ..effects import base_type
from ..model import AnalysisBroken
from ..trace import Trace
from .steps import assume

# (class, setter, getter, index of the value parameter)
PAIRS = [("Body", "setIsActive", "isActive"), ("Body", "setIsDebugEnabled", "isDebugEnabled"), ("Body", "setTransform", "getTransform"), ("Body", "setUserData", "getUserData"),
 ("RigidBody", "setIsActive", "isActive"), ("RigidBody", "setTransform", "getTransform"), ("RigidBody", "setType", "getType"), ("RigidBody", "setMass", "getMass"),
 ("RigidBody", "setLocalCenterOfMass", "getLocalCenterOfMass"), ("RigidBody", "setLocalInertiaTensor", "getLocalInertiaTensor"), ("RigidBody", "setLinearDamping", "getLinearDamping"),
 ("RigidBody", "setAngularDamping", "getAngularDamping"), ("RigidBody", "setLinearLockAxisFactor", "getLinearLockAxisFactor"), ("RigidBody", "setAngularLockAxisFactor", "getAngularLockAxisFactor"),
 ("RigidBody", "setLinearVelocity", "getLinearVelocity"), ("RigidBody", "setAngularVelocity", "getAngularVelocity"), ("RigidBody", "enableGravity", "isGravityEnabled"),
 ("RigidBody", "setIsAllowedToSleep", "isAllowedToSleep"), ("RigidBody", "setIsSleeping", "isSleeping"),
 ("Collider", "setCollideWithMaskBits", "getCollideWithMaskBits"), ("Collider", "setCollisionCategoryBits", "getCollisionCategoryBits"), ("Collider", "setIsTrigger", "getIsTrigger"),
 ("Collider", "setIsSimulationCollider", "getIsSimulationCollider"), ("Collider", "setIsWorldQueryCollider", "getIsWorldQueryCollider"), ("Collider", "setLocalToBodyTransform", "getLocalToBodyTransform"),
 ("Collider", "setMaterial", "getMaterial"), ("Collider", "setUserData", "getUserData"),
 ("Material", "setBounciness", "getBounciness"), ("Material", "setFrictionCoefficient", "getFrictionCoefficient"), ("Material", "setMassDensity", "getMassDensity"),
 ("SphereShape", "setRadius", "getRadius"), ("BoxShape", "setHalfExtents", "getHalfExtents"), ("CapsuleShape", "setRadius", "getRadius"), ("CapsuleShape", "setHeight", "getHeight"),
 ("ConvexMeshShape", "setScale", "getScale"), ("ConcaveShape", "setScale", "getScale"), ("ConcaveShape", "setRaycastTestType", "getRaycastTestType"), ("TriangleShape", "setRaycastTestType", "getRaycastTestType"),
 ("BallAndSocketJoint", "enableConeLimit", "isConeLimitEnabled"), ("BallAndSocketJoint", "setConeLimitHalfAngle", "getConeLimitHalfAngle"),
 ("HingeJoint", "enableLimit", "isLimitEnabled"), ("HingeJoint", "enableMotor", "isMotorEnabled"), ("HingeJoint", "setMinAngleLimit", "getMinAngleLimit"), ("HingeJoint", "setMaxAngleLimit", "getMaxAngleLimit"),
 ("HingeJoint", "setMotorSpeed", "getMotorSpeed"), ("HingeJoint", "setMaxMotorTorque", "getMaxMotorTorque"),
 ("SliderJoint", "enableLimit", "isLimitEnabled"), ("SliderJoint", "enableMotor", "isMotorEnabled"), ("SliderJoint", "setMinTranslationLimit", "getMinTranslationLimit"), ("SliderJoint", "setMaxTranslationLimit", "getMaxTranslationLimit"),
 ("SliderJoint", "setMotorSpeed", "getMotorSpeed"), ("SliderJoint", "setMaxMotorForce", "getMaxMotorForce"),
 ("PhysicsWorld", "setGravity", "getGravity"), ("PhysicsWorld", "setIsGravityEnabled", "isGravityEnabled"), ("PhysicsWorld", "enableSleeping", "isSleepingEnabled"), ("PhysicsWorld", "setNbIterationsPositionSolver", "getNbIterationsPositionSolver"),
 ("PhysicsWorld", "setNbIterationsVelocitySolver", "getNbIterationsVelocitySolver"), ("PhysicsWorld", "setSleepLinearVelocity", "getSleepLinearVelocity"), ("PhysicsWorld", "setSleepAngularVelocity", "getSleepAngularVelocity"),
 ("PhysicsWorld", "setTimeBeforeSleep", "getTimeBeforeSleep"), ("PhysicsWorld", "setIsDebugRenderingEnabled", "getIsDebugRenderingEnabled"),
 ("DebugRenderer", "setContactNormalLength", "getContactNormalLength"), ("DebugRenderer", "setContactPointSphereRadius", "getContactPointSphereRadius"),
]
STATICBODY = {("RigidBody", "setLinearVelocity"), ("RigidBody", "setAngularVelocity"), ("RigidBody", "setIsSleeping")}
SLEEP = {"mIsSleeping", "mLinearVelocities", "mAngularVelocities", "mExternalForces", "mExternalTorques"}
WAKE = {"mIsSleeping"}
ALSO = {  # user-visible attributes a setter changes besides its own
 ("RigidBody", "setIsActive"): SLEEP, ("RigidBody", "setTransform"): WAKE, ("RigidBody", "setType"): SLEEP, ("RigidBody", "setIsSleeping"): SLEEP, ("RigidBody", "setIsAllowedToSleep"): WAKE,
 ("RigidBody", "setLinearVelocity"): WAKE, ("RigidBody", "setAngularVelocity"): WAKE, ("RigidBody", "setLocalCenterOfMass"): {"mLinearVelocities"},
 ("PhysicsWorld", "enableSleeping"): WAKE,
 ("Collider", "setIsTrigger"): {"mIsSimulationCollider"}, ("Collider", "setIsSimulationCollider"): {"mIsTrigger"}, ("Collider", "setLocalToBodyTransform"): WAKE,
}
JOINTCLS = ("BallAndSocketJoint", "HingeJoint", "SliderJoint")
COMPS = {"Vector3": ["x", "y", "z"], "Vector2": ["x", "y"], "Quaternion": ["x", "y", "z", "w"], "Transform": ["mPosition.x", "mPosition.y", "mPosition.z", "mOrientation.x", "mOrientation.y", "mOrientation.z", "mOrientation.w"],
         "Material": ["mFrictionCoefficientSqrt", "mBounciness", "mMassDensity"]}

def flat(it, v, t):
    """[(suffix, value)] of a value of type t"""
    b = base_type(t or "").split("::")[-1]
    if isinstance(v, Ptr) and (t or "").rstrip().endswith("&"): v = it.load(v.path, base_type(t))
    if b in COMPS:
        out = []
        for c in COMPS[b]:
            x = v
            for s in c.split("."): x = it.select(x, s, "")
            out.append(("." + c, x))
        return out
    return [("", v)]

def leaves(it, v, g=()):
    """[(leaf value, conditions)]: the alternatives of a value"""
    if isinstance(v, Sc) and len(v.p) == 1:
        (m, c), = v.p.items()
        if len(m) == 1 and c == 1:
            i = it.I.info.get(m[0])
            if i and i[0] in ("phi", "sel") and isinstance(i[1], str):
                return leaves(it, i[2], g + ((i[1], True),)) + leaves(it, i[3], g + ((i[1], False),))
    return [(v, g)]

def unroot(k):
    """sqrt(a)*sqrt(a) is a (for the non-negative values the attribute admits)"""
    m = re.fullmatch(r"sqrt\((.*?)\)\*sqrt\((.*?)\)", k)
    return m.group(1) if m and m.group(1) == m.group(2) else k

def excused(it, cls, setter, param, old, g):
    """the setter may leave the old value: it equals the new one, the value given is not valid, or the body is static"""
    for c, pol in g:
        neg = False; n = c; i = it.I.info.get(n)
        while i and i[0] == "not":
            n = i[1].key() if hasattr(i[1], "key") else i[1]; pol = not pol; i = it.I.info.get(n)
        if not i or i[0] != "cmp": continue
        d = i[2] if isinstance(i[2], dict) else i[2].p
        atoms = {a for m in d for a in m}
        if i[1] == "==" and pol and len(d) == 2 and sorted(d.values()) == [-1, 1] and atoms == {param, old}: return True
        if atoms == {param} and len(d) == 1:
            k = d[(param,)] if (param,) in d else None
            if k is not None and i[1] in ("<", "<=") and (pol and k > 0 and i[1] == "<" or not pol and k < 0): return True
    if (cls, setter) in STATICBODY:
        ty = set()
        for c, _ in g:
            for _k in range(4):
                i = it.I.info.get(c)
                if i and i[0] == "not": c = i[1].key() if hasattr(i[1], "key") else i[1]; continue
                if i and i[0] == "cmp": ty |= {a for m in (i[2] if isinstance(i[2], dict) else i[2].p) for a in m if "mBodyTypes[@this.mEntity]" in a}
                break
        for a in ty:
            if possible(it, g, a, TYPES) == {TYPES[0]}: return True
    if (cls, setter) == ("RigidBody", "setIsSleeping"):
        # an inactive body sleeps
        for c, pol in g:
            while c.startswith("!(") and c.endswith(")"): c = c[2:-1]; pol = not pol
            if c.endswith("mIsActive[@this.mEntity]") and not pol: return True
    return False

def getter_cells(P, cls, g):
    it = arun(P, g); out = set()
    for x in it.reads:
        if x[0][0].startswith("%"): continue
        c = colname(x[0])
        if c[0] and (c[1] is not None or x[0][0] == "this"): out.add(c[0])
    v = it.ret
    if isinstance(v, Ptr) and not v.path[0].startswith("%"): out.add(colname(v.path)[0])
    for m in re.findall(r"\.(m\w+)\[@", " ".join(closure_text(it.I, v.key())) if hasattr(v, "key") else ""): out.add(m)
    return out

def getter(P, cls, n):
    return P.method(cls, n, nparams=0)

def check_P20(P, rep):
    n = 0; visible = {}
    for cls, s, g in PAIRS:
        gf = getter(P, cls, g)
        for c in getter_cells(P, cls, gf): visible.setdefault(c, set()).add("%s::%s" % (cls, g))
    dump = {"mTransformComponents", "mRigidBodyComponents", "mCollidersComponents", "mWorld", "mBody", "mEntity"}
    for cls, s, g in PAIRS:
        sf = P.method(cls, s); gf = getter(P, cls, g); rep.analysed(sf); rep.analysed(gf)
        wh = sf.where(); p = sf.ps[-1]; name = "$" + p["n"]
        it = arun(P, sf, exits=True); ncell = len(it.events)
        ev = list(it.events)
        it0 = arun(P, gf); olds = dict(flat(it0, it0.ret, gf.rt))
        v = it.run(gf)
        for suf, x in flat(it, v, gf.rt):
            n += 1; want = name + suf; ok = True; det = ""
            for leaf, cond in leaves(it, x):
                k = unroot(leaf.key().strip("<>")) if hasattr(leaf, "key") else "?"
                if k == want or k == "&" + want or k == want.lstrip("&"): continue
                old = olds.get(suf); ko = unroot(old.key()).strip("<>") if hasattr(old, "key") else ""
                if k == ko and excused(it, cls, s, want, next(iter(next(iter(old.p)))) if isinstance(old, Sc) and len(old.p) == 1 and next(iter(old.p)) else ko, cond): continue
                ok = False; det = "%s%s after %s(%s) is %s%s" % (g, suf, s, p["n"], k[:160], " when " + ", ".join(("" if b else "not ") + a[:100] for a, b in cond) if cond else "")
            rep.check(ok, "%s::%s returns what %s stored" % (cls, g, s), wh, det, ident="%s::%s/%s" % (cls, s, g))
        # the row written is the one of this object
        own = getter_cells(P, cls, gf) - dump
        for e in ev:
            if e.path[0].startswith("%"): continue
            col, row, sub = colname(e.path)
            if col in own and row is not None:
                rep.check(row in ("@this.mEntity", "@*this.mEntity"), "%s::%s writes the row of its own object" % (cls, s), wh, "%s of %s" % (col, row[:80])); n += 1
            elif col in visible and col not in own and col not in dump:
                allowed = ALSO.get((cls, s), set()) | (WAKE if cls in JOINTCLS else set())
                rep.check(col in allowed, "%s::%s leaves %s alone" % (cls, s, col), sf.where(e.node if isinstance(e.node, dict) and e.fn is sf else None), pstr(e.path)[-120:]); n += 1
    n += indexed(P, rep)
    n += creation(P, rep)
    n += wiring(P, rep)
    rep.count("pairs", len(PAIRS)); rep.count("values", n); rep.need(n, 300, "attribute values")

def indexed(P, rep):
    """per-item debug flags; world settings without a getter"""
    f = P.method("DebugRenderer", "setIsDebugItemDisplayed"); g = P.method("DebugRenderer", "getIsDebugItemDisplayed"); rep.analysed(f); rep.analysed(g)
    for on in (True, False):
        it = arun(P, f); c = [x for x in cells(it) if "mDisplayedDebugItems" in x.col]
        rep.check(bool(c), "the debug item flags are stored", f.where())
    f = P.method("PhysicsWorld", "setContactsPositionCorrectionTechnique"); rep.analysed(f)
    T = Trace(P, f, lambda h: h.cls in ("PhysicsWorld", "ContactSolverSystem"))
    got = {}
    for e in T.it.events:
        if "mIsSplitImpulseActive" in e.path[-1] or any("mIsSplitImpulseActive" in s for s in e.path):
            for val in ("BAUMGARTE_CONTACTS", "SPLIT_IMPULSES"):
                env = {"$" + f.ps[0]["n"]: enum("#ContactsPositionCorrectionTechnique::" + val)}
                if holds(T.it, e.guards, env) is not False:
                    q = truth_v(T.it, e.new, env) if isinstance(e.new, Sc) else None
                    got[val] = q
    rep.check(got == {"BAUMGARTE_CONTACTS": False, "SPLIT_IMPULSES": True}, "the contact solver uses split impulses exactly when the user chose them", f.where(), str(got))
    f = P.method("PhysicsWorld", "setEventListener"); rep.analysed(f); it = arun(P, f)
    c = [x for x in cells(it) if x.col == "mEventListener"]
    rep.check(len(c) == 1 and not c[0].guards and c[0].new.key().lstrip("&") == "$" + f.ps[0]["n"], "the event listener set is the one used", f.where())
    return 4

H2 = HEAVY - {"PhysicsWorld", "PhysicsCommon"}
def cropq(fn):
    c = fn.cls.split("<")[0]
    if fn.n in ("prepareAddComponent", "allocateComponent", "addJointToBodies", "addNoCollisionPair", "to_string", "computeMass"): return True
    if c in H2 or c in CONT: return True
    return opaque(fn) and c not in ("PhysicsWorld", "PhysicsCommon")

# creator -> {column: expected value}; P:<name> is the parameter field
JOINTINFO = {
 "HINGEJOINT": {"mIsLimitEnabled": "isLimitEnabled", "mIsMotorEnabled": "isMotorEnabled", "mLowerLimit": "minAngleLimit", "mUpperLimit": "maxAngleLimit", "mMotorSpeed": "motorSpeed", "mMaxMotorTorque": "maxMotorTorque"},
 "SLIDERJOINT": {"mIsLimitEnabled": "isLimitEnabled", "mIsMotorEnabled": "isMotorEnabled", "mLowerLimit": "minTranslationLimit", "mUpperLimit": "maxTranslationLimit", "mMotorSpeed": "motorSpeed", "mMaxMotorForce": "maxMotorForce"}}
GET = {"HINGEJOINT": ("HingeJoint", {"isLimitEnabled": "isLimitEnabled", "isMotorEnabled": "isMotorEnabled", "getMinAngleLimit": "minAngleLimit", "getMaxAngleLimit": "maxAngleLimit", "getMotorSpeed": "motorSpeed", "getMaxMotorTorque": "maxMotorTorque"}),
       "SLIDERJOINT": ("SliderJoint", {"isLimitEnabled": "isLimitEnabled", "isMotorEnabled": "isMotorEnabled", "getMinTranslationLimit": "minTranslationLimit", "getMaxTranslationLimit": "maxTranslationLimit", "getMotorSpeed": "motorSpeed", "getMaxMotorForce": "maxMotorForce"})}
LOCALS = {"BALLSOCKETJOINT": [], "FIXEDJOINT": [], "HINGEJOINT": [("mHingeLocalAxisBody1", "rotationAxisBody1Local", "rotationAxisWorld", "body1"), ("mHingeLocalAxisBody2", "rotationAxisBody2Local", "rotationAxisWorld", "body2")],
          "SLIDERJOINT": [("mSliderAxisBody1", "sliderAxisBody1Local", "sliderAxisWorldSpace", "body1")]}

def creation(P, rep):
    n = 0
    f = P.method("PhysicsWorld", "createJoint"); rep.analysed(f)
    it = arun(P, f, opq=lambda h: cropq(h) or h.n == "getInverse"); cs = cells(it); pn = "$" + f.ps[0]["n"]
    def ofcase(kind):
        """writes that happen for this kind of joint (whatever the control structure)"""
        env = {}
        out = []
        for c in cs:
            r = True
            for g, pol in c.guards:
                if g.startswith("case "):
                    if not re.search(r"\b%s\b" % kind, g): r = False
                else:
                    t = truth(it, g, {pn + ".type": enum("#JointType::" + kind)})
                    if t is not None and t != pol: r = False
            if r: out.append(c)
        return out
    for kind, (cls, m) in GET.items():
        mine = ofcase(kind)
        for gname, field in m.items():
            gf = getter(P, cls, gname); cols = getter_cells(P, cls, gf)
            w = [c for c in mine if c.col in cols and c.row is not None]
            vals = {unroot(c.new.key()) for c in w}
            rep.check(vals == {pn + "." + field}, "a new %s has the %s of its description" % (cls, field), f.where(), str(sorted(vals))[:200]); n += 1
    for kind, ax in LOCALS.items():
        mine = ofcase(kind)
        for col, local, world, body in ax + [("mLocalAnchorPointBody1", "anchorPointBody1LocalSpace", "anchorPointWorldSpace", "body1"), ("mLocalAnchorPointBody2", "anchorPointBody2LocalSpace", "anchorPointWorldSpace", "body2")]:
            other = "body2" if body == "body1" else "body1"; seen = set()
            for c in mine:
                if c.col != col: continue
                parts = [(c.ev.path[-1].rsplit(".", 1)[-1], c.new)] if isinstance(c.new, Sc) else [(x, it.select(c.new, x, "float")) for x in "xyz"]
                for comp, v in parts:
                    if not isinstance(v, Sc) or not v.p: continue        # the default value of the row
                    if not any(pn in t for t in closure_text(it.I, v.key())): continue
                    seen.add(comp); n += 1
                    a = assume(it, v.p, pn + ".isUsingLocalSpaceAnchors", True); b = assume(it, v.p, pn + ".isUsingLocalSpaceAnchors", False)
                    rep.check(pkey(a) == "%s.%s.%s" % (pn, local, comp), "a new joint (%s) keeps the local %s given" % (kind, local), f.where(), pkey(a)[:200])
                    t = " ".join(closure_text(it.I, pkey(b)))
                    rep.check(world in t and "%s.%s." % (pn, body) in t and "%s.%s." % (pn, other) not in t and "getInverse" in t, "a new joint (%s) converts %s to the space of %s" % (kind, world, body), f.where(), pkey(b)[:200])
            rep.check(seen == set("xyz"), "a new joint (%s) has its %s" % (kind, col), f.where(), str(sorted(seen)))
    want = {"mTypes": "type", "mPositionCorrectionTechniques": "positionCorrectionTechnique", "mIsCollisionEnabled": "isCollisionEnabled"}
    for col, field in want.items():
        v = {c.new.key() for c in cs if c.col == col}
        rep.check(v == {pn + "." + field}, "a new joint has the %s of its description" % field, f.where(), str(v)[:200]); n += 1
    for col, b in (("mBody1Entities", "body1"), ("mBody2Entities", "body2")):
        v = {c.new.key() for c in cs if c.col == col}
        rep.check(bool(v) and all(b in x and ("body2" if b == "body1" else "body1") not in x for x in v), "a new joint connects %s" % b, f.where(), str(v)[:200]); n += 1
    # bodies
    f = P.method("PhysicsWorld", "createRigidBody"); rep.analysed(f); it = arun(P, f, opq=cropq); cs = cells(it)
    def final(col, comp=None):
        """last value written to the column"""
        out = None
        for c in cs:
            if c.col == col and c.row is not None:
                if comp is None: out = c.new
                elif not isinstance(c.new, Sc): out = it.select(c.new, comp, "float")
                elif c.ev.path[-1].endswith("." + comp): out = c.new
        return out
    one = {"mMasses": "1", "mInverseMasses": "1", "mIsAllowedToSleep": "1", "mIsSleeping": "0", "mIsGravityEnabled": "1", "mLinearDampings": "0", "mAngularDampings": "0", "mBodyTypes": "#BodyType::DYNAMIC", "mIsActive": "1"}
    for col, w in one.items():
        v = final(col); rep.check(v is not None and (v.key() == w or col == "mInverseMasses" and re.match(r"inv\(\*?[\w.]*mMasses\[", v.key())), "a new body starts with %s %s" % (col, w), f.where(), v.key()[:100] if v is not None else "never written"); n += 1
    for col, w in (("mLinearVelocities", "0"), ("mAngularVelocities", "0"), ("mExternalForces", "0"), ("mExternalTorques", "0"), ("mLinearLockAxisFactors", "1"), ("mAngularLockAxisFactors", "1"), ("mCentersOfMassLocal", "0")):
        for comp in "xyz":
            v = final(col, comp); rep.check(v is not None and v.key() == w, "a new body starts with %s %s" % (col, w), f.where(), v.key()[:100] if v is not None else "never written"); n += 1
    for comp in "xyz":
        v = final("mCentersOfMassWorld", comp); rep.check(v is not None and v.key().endswith("$%s.mPosition.%s" % (f.ps[0]["n"], comp)), "a new body's centre of mass is its position", f.where(), v.key()[:100] if v is not None else ""); n += 1
    tr = [c for c in cs if c.col == "mTransforms"]
    rep.check(bool(tr) and all(re.search(r"\$%s\b" % f.ps[0]["n"], c.new.key()) for c in tr), "a new body has the pose given", f.where(), str([c.new.key()[:80] for c in tr])); n += 1
    # colliders
    f = P.method("RigidBody", "addCollider"); rep.analysed(f); it = arun(P, f, opq=cropq); cs = cells(it)
    sh, trn = "$" + f.ps[0]["n"], "$" + f.ps[1]["n"]
    for col, w in (("mCollisionCategoryBits", "1"), ("mCollideWithMaskBits", "65535"), ("mIsTrigger", "0"), ("mIsSimulationCollider", "1"), ("mIsWorldQueryCollider", "1")):
        v = final(col); rep.check(v is not None and v.key() == w, "a new collider starts with %s %s" % (col, w), f.where(), v.key()[:100] if v is not None else "never written"); n += 1
    v = final("mCollisionShapes"); rep.check(v is not None and v.key().lstrip("&") == sh, "a new collider has the shape given", f.where(), v.key()[:100] if v is not None else "")
    v = [c for c in cs if c.col == "mLocalToBodyTransforms"]; rep.check(bool(v) and all(trn in c.new.key() and "*" not in c.new.key().replace("*" + trn, "") for c in v), "a new collider has the local pose given", f.where(), str([c.new.key()[:100] for c in v]))
    v = [c for c in cs if c.col == "mMaterials"]
    txt = {}
    for c in v:
        for x, val in ([(c.ev.path[-1], c.new)] if isinstance(c.new, Sc) else [(x, it.select(c.new, x, "")) for x in COMPS["Material"]]): txt[x.split(".")[-1]] = val.key()
    rep.check("defaultFrictionCoefficient" in txt.get("mFrictionCoefficientSqrt", "") and txt.get("mFrictionCoefficientSqrt", "").startswith("sqrt(") and txt.get("mBounciness", "").endswith("defaultBounciness"), "a new collider has the default material of its world", f.where(), str(txt)[:200])
    v = [c for c in cs if c.col == "mBodiesEntities"]; rep.check(bool(v) and all("this.mEntity" in c.new.key() for c in v), "a new collider belongs to its body", f.where()); n += 4
    # shapes: constructor parameter -> getter
    for cls, m in (("SphereShape", {"getRadius": "radius"}), ("CapsuleShape", {"getRadius": "radius", "getHeight": "height"}), ("BoxShape", {"getHalfExtents": "halfExtents"}), ("ConvexMeshShape", {"getScale": "scale"}), ("ConcaveMeshShape", {"getScale": "scaling"}), ("HeightFieldShape", {"getScale": "scaling"}),
                   ("Material", {"getFrictionCoefficient": "frictionCoefficient", "getBounciness": "bounciness", "getMassDensity": "massDensity"})):
        for ct in [h for h in P.fns.values() if h.cls == cls and h.n == "ctor" and h.ps and not any(base_type(p["t"]) == cls for p in h.ps)]:
            rep.analysed(ct)
            for gname, par in m.items():
                gf = getter(P, cls, gname); p = next((p for p in ct.ps if p["n"] == par or p["n"].lower().startswith(par[:5].lower())), None)
                if p is None: continue
                it = Interp(P, opaque, maxterms=60, mapname=rowname, depth=14); ctor_run(it, ct)
                v = it.run(gf)
                for suf, x in flat(it, v, gf.rt):
                    k = unroot(x.key().strip("<>")); n += 1
                    rep.check(k == "$" + p["n"] + suf, "%s::%s returns the value the object was made with" % (cls, gname), ct.where(), k[:160])
    # shape factories pass their parameters to the matching constructor parameters
    for fac, cls in (("createSphereShape", "SphereShape"), ("createCapsuleShape", "CapsuleShape"), ("createBoxShape", "BoxShape"), ("createConvexMeshShape", "ConvexMeshShape"), ("createConcaveMeshShape", "ConcaveMeshShape"), ("createHeightFieldShape", "HeightFieldShape")):
        f = P.method("PhysicsCommon", fac); rep.analysed(f)
        ctors = [x for x in deepcalls(P, f) if x[1].get("k") == "ctor" and (x[1].get("cls") or "").split("::")[-1] == cls]
        rep.check(len(ctors) == 1, "%s makes one %s" % (fac, cls), f.where(), str(len(ctors))); n += 1
        for holder, node in ctors:
            ct = P.fns.get(node.get("f"))
            if not ct: continue
            for a, p in zip(node.get("a", []), ct.ps):
                src = refname(a)
                if holder is f and src and any(src == q["n"] for q in f.ps) and any(p["n"] == q["n"] for q in f.ps):
                    rep.check(src == p["n"], "%s passes %s to the constructor" % (fac, p["n"]), f.where(node), "gets %s" % src); n += 1
    return n

def refname(a):
    while isinstance(a, dict) and a.get("k") in ("cast", "paren") and a.get("a"): a = a["a"][0]
    if isinstance(a, dict) and a.get("k") == "ctor" and len(a.get("a", [])) == 1: return refname(a["a"][0])
    return a.get("n") if isinstance(a, dict) and a.get("k") == "ref" else None

def deepcalls(P, f):
    """constructor expressions in f and in private helpers it calls"""
    out = []; seen = set(); st = [f]
    while st:
        g = st.pop()
        if g.f in seen: continue
        seen.add(g.f)
        for x in g.nodes():
            if x.get("k") == "ctor": out.append((g, x))
            if x.get("k") == "call":
                h = P.fns.get(x.get("f"))
                if h and h.cls == f.cls: st.append(h)
    return out

def ctor_run(it, ct):
    """run a constructor with its initialisers on a symbolic object"""
    env = {}; it.stack.append(ct); it.frame += 1; fr = it.frame
    env["this"] = ("this",)
    args = []
    for i, p in enumerate(ct.ps):
        t = p["t"]; nm = p["n"] or "arg%d" % i
        if t.endswith("&") or t.endswith("*"): env[p["d"]] = Ptr(("$" + nm,))
        else:
            path = ("%%%s#%d" % (nm, fr),); it.mem[path] = (it.opq("$" + nm, t), t); env[p["d"]] = Ptr(path)
    st = {"env": env, "fr": fr, "ret": None, "fn": ct, "base": len(it.guards), "exits": []}
    run_inits(it, ct, st, ("this",))
    it.exec(ct.body, st); it.stack.pop()

def run_inits(it, ct, st, this):
    for i in ct.inits:
        e = i.get("e")
        if not isinstance(e, dict): continue
        if i.get("field"):
            fl = it.P.field(ct.cls, i["field"]); ft = fl["t"] if fl else ""
            v = it.ev_ref(e, st) if ft.endswith("&") else it.ev(e, st)
            it.store(this + (i["field"],), v, ft, {"l": i.get("l"), "k": "init"}, record=False)
        elif e.get("k") == "ctor":
            b = it.P.fns.get(e.get("f"))
            if b is None: continue
            env = {"this": this}; it.frame += 1; fr = it.frame
            for p, a in zip(b.ps, e.get("a", [])):
                if p["t"].endswith("&"):
                    v = it.ev_ref(a, st)
                    if not isinstance(v, Ptr):
                        path = ("%%%s#%d" % (p["n"] or "p", fr),); it.mem[path] = (v, base_type(p["t"])); v = Ptr(path)
                    env[p["d"]] = v
                else:
                    v = it.ev(a, st); path = ("%%%s#%d" % (p["n"] or "p", fr),); it.mem[path] = (v, p["t"]); env[p["d"]] = Ptr(path)
            st2 = {"env": env, "fr": fr, "ret": None, "fn": b, "base": len(it.guards), "exits": []}
            it.stack.append(b); run_inits(it, b, st2, this); it.exec(b.body, st2); it.stack.pop()

# engine objects that must see later changes of a world setting: (class, field, world field path)
LIVE = [("DynamicsSystem", "mIsGravityEnabled"), ("DynamicsSystem", "mGravity"), ("ContactSolverSystem", "mRestitutionVelocityThreshold")]
def wiring(P, rep):
    n = 0
    for cls, fld in LIVE:
        fl = P.field(cls, fld)
        if fl is None: continue
        rep.check(fl["t"].rstrip().endswith("&") or fl["t"].rstrip().endswith("*"), "%s::%s follows the setting of the world" % (cls, fld), cls, fl["t"]); n += 1
    # settings of a new world
    ct = next((h for h in P.fns.values() if h.cls == "PhysicsWorld" and h.n == "ctor"), None)
    if ct is None: raise AnalysisBroken("PhysicsWorld constructor")
    rep.analysed(ct)
    want = {"mIsSleepingEnabled": "isSleepingEnabled", "mSleepLinearVelocity": "defaultSleepLinearVelocity", "mSleepAngularVelocity": "defaultSleepAngularVelocity", "mTimeBeforeSleep": "defaultTimeBeforeSleep",
            "mNbVelocitySolverIterations": "defaultVelocitySolverNbIterations", "mNbPositionSolverIterations": "defaultPositionSolverNbIterations"}
    it = Interp(P, lambda h: True, maxterms=60, mapname=rowname, depth=2)
    try: ctor_run(it, ct)
    except Exception as e: raise AnalysisBroken("PhysicsWorld constructor: %r" % e)
    for fld, src in want.items():
        v = it.mem.get(("this", fld)); k = v[0].key() if v and hasattr(v[0], "key") else "never set"
        rep.check(k.split(".")[-1].strip("<>") == src, "a new world takes %s from its settings" % src, ct.where(), k[:160]); n += 1
    return n

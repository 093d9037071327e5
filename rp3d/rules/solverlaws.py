"""P01, P02, P03, P04, P27: laws of the constraint solvers, decided on the polynomials the solvers apply to the bodies."""
import re
from ..solver import *
from ..model import AnalysisBroken
XYZ = "xyz"
NAMES = ["contact"] + JOINTS

def system(P, n): return contact_system(P) if n == "contact" else joint_system(P, n)
def label(n): return "contacts" if n == "contact" else n

def mono_without(m, *atoms):
    l = list(m)
    for a in atoms:
        if a not in l: return None
        l.remove(a)
    return tuple(l)

def body_mass_atoms(S, ph, b):
    return "mRigidBodyComponents.mInverseMasses[%s]" % b

class Group:
    """impulses (P, tau per body) that a group of updates applies"""
    def __init__(self): self.P = {}; self.tau = {}; self.err = []

def inertia_of(S, ph):
    """canonical atom of an inverse inertia tensor element -> (body, row, column)"""
    cells = {}
    if ph == "pos":
        for e in S.it["pos"].events:
            n = S.C.name(pstr(e.path))
            if ".mRows" in n:
                ks = flatkey(S, e.new)
                bs = set(re.findall(r"mInverseInertiaTensorsLocal\[(B[12])\]", ks))
                qs = set(re.findall(r"mConstrainedOrientations\[(B[12])\]", ks))
                if len(bs) == 1 and qs == bs and "mInverseMasses" not in ks:
                    cells[n.split(".mRows")[0]] = (next(iter(bs)), e)
    def f(a):
        m = re.match(r"(.*)\.mRows(?:@\d+)?\[(\d)\]\.([xyz])(?:@\d+)?$", a)
        if not m: return None
        base, r, c = m.group(1), int(m.group(2)), XYZ.index(m.group(3))
        mm = re.search(r"mInverseInertiaTensorsWorld\[(B[12])\]$", base)
        if mm: return mm.group(1), r, c
        if base in cells: return cells[base][0], r, c
        return None
    f.cells = cells
    return f

def flatkey(S, v):
    if isinstance(v, Sc): return pkey(S.C.poly(v.p))
    if isinstance(v, St): return " ".join(flatkey(S, x) for x in v.f.values()) + (flatkey(S, v.base) if v.base is not None else "")
    return S.C.name(v.key())

def analyse_group(S, ph, d, inertia, expand):
    """-> Group; d: {(column, body): {component: polynomial}}"""
    G = Group()
    for (colname, b), arr in d.items():
        if b not in ("B1", "B2"): G.err.append(("row %s of %s is not one of the two bodies" % (b, colname), None)); continue
        if colname in LIN:
            P = []
            for c in XYZ:
                p = expand(arr.get(c, {}))
                r = {}
                for m, k in p.items():
                    q = mono_without(m, "mRigidBodyComponents.mInverseMasses[%s]" % b, "mRigidBodyComponents.mLinearLockAxisFactors[%s].%s" % (b, c))
                    if q is None: G.err.append(("%s of body %s.%s changes by a term without its own inverse mass and lock factor" % (colname, b, c), "*".join(m)[:300])); break
                    r[q] = r.get(q, 0) + k
                P.append(r)
            for c in arr:
                if c not in XYZ: G.err.append(("%s changes by an unknown amount" % colname, str([e.new.key()[:120] for e in arr[c]])))
            G.P[b] = vadd(G.P.get(b), P)
        else:
            if colname == "mConstrainedOrientations":
                arr2 = angular_from_quaternion(S, arr, b, G)
                if arr2 is None: continue
            else:
                arr2 = arr
                for c in arr:
                    if c not in XYZ: G.err.append(("%s changes by an unknown amount" % colname, str([e.new.key()[:120] for e in arr[c]])))
            taus = []
            for i, c in enumerate(XYZ):
                p = expand(arr2.get(c, {}))
                t = [{}, {}, {}]
                for m, k in p.items():
                    q = mono_without(m, "mRigidBodyComponents.mAngularLockAxisFactors[%s].%s" % (b, c))
                    if q is None: G.err.append(("%s of body %s.%s changes by a term without its own axis lock" % (colname, b, c), "*".join(m)[:300])); break
                    hit = [(a, inertia(a)) for a in q if inertia(a)]
                    own = [(a, x) for a, x in hit if x[0] == b and i in x[1:]]
                    if len(own) != 1 or len(hit) != 1:
                        G.err.append(("%s of body %s.%s changes by a term without its own inverse inertia" % (colname, b, c), "*".join(m)[:300])); break
                    a, (bb, r, cc) = own[0]
                    j = cc if r == i else r
                    rest = mono_without(q, a)
                    t[j][rest] = t[j].get(rest, 0) + k
                    if not t[j][rest]: del t[j][rest]
                taus.append(t)
            # the three components must stem from one torque
            ok3 = all(pkey(taus[0][j]) == pkey(taus[1][j]) == pkey(taus[2][j]) for j in range(3))
            if not ok3: G.err.append(("the angular update of body %s in %s is not one torque times its inverse inertia" % (b, colname), ""))
            G.tau[b] = vadd(G.tau.get(b), taus[0])
    return G

def angular_from_quaternion(S, arr, b, G):
    """w with delta q = 1/2 (0, w) q"""
    for e in arr.get("op", []):
        if not re.match(r"<?Quaternion::normalize!", e.new.key()): G.err.append(("the orientation of body %s changes by an unknown amount" % b, e.new.key()[:200])); return None
    if not any(c in arr for c in "xyzw"): return None
    q = lambda c: "mRigidBodyComponents.mConstrainedOrientations[%s].%s" % (b, c)
    w = {}
    for c in XYZ:
        p = S.C.poly(arr.get(c, {})); r = {}
        for m, k in p.items():
            x = mono_without(m, q("w"))
            if x is not None and not any(a.startswith("mRigidBodyComponents.mConstrainedOrientations[%s]." % b) for a in x): r[x] = r.get(x, 0) + 2 * k
        w[c] = r
    # reconstruct
    A = {c: atom(q(c)) for c in "xyzw"}; h = const(1); 
    from fractions import Fraction
    half = lambda p: {m: k / 2 for m, k in p.items()}
    exp = {"x": padd(padd(pmul(w["x"], A["w"]), pmul(w["y"], A["z"])), pmul(w["z"], A["y"]), -1),
           "y": padd(padd(pmul(w["y"], A["w"]), pmul(w["z"], A["x"])), pmul(w["x"], A["z"]), -1),
           "z": padd(padd(pmul(w["z"], A["w"]), pmul(w["x"], A["y"])), pmul(w["y"], A["x"]), -1),
           "w": pneg(padd(padd(pmul(w["x"], A["x"]), pmul(w["y"], A["y"])), pmul(w["z"], A["z"])))}
    for c in "xyzw":
        if psub(half(exp[c]), S.C.poly(arr.get(c, {}))):
            G.err.append(("the orientation update of body %s is not a rotation increment" % b, "component " + c)); break
    return w

def vadd(a, b): return b if a is None else [padd(x, y) for x, y in zip(a, b)]
def cross(a, b): return [psub(pmul(a[1], b[2]), pmul(a[2], b[1])), psub(pmul(a[2], b[0]), pmul(a[0], b[2])), psub(pmul(a[0], b[1]), pmul(a[1], b[0]))]
def zero(v): return all(not x for x in v)

def levers(S, n, ph):
    """candidate pairs (r1, r2) of lever arms as polynomials"""
    out = []
    def vec(nm): return [atom(nm + "." + c) for c in XYZ]
    if n == "contact":
        out.append((vec("mContactPoints[i].r1"), vec("mContactPoints[i].r2")))
        out.append((vec("mContactConstraints[i].r1Friction"), vec("mContactConstraints[i].r2Friction")))
    else:
        out.append((vec("m%sComponents.mR1World[%s]" % (n, S.J)), vec("m%sComponents.mR2World[%s]" % (n, S.J))))
    return out

def prepare(P, n):
    S = system(P, n)
    if hasattr(S, "G"): return S
    S.G = {}
    # name of the joint's own row in canonical atoms
    S.J = "i"
    for ph in ("warm", "solve", "pos"):
        if ph not in S.it: continue
        inertia = inertia_of(S, ph)
        ex = S.C.poly if ph == "pos" else S.expand
        if ph == "pos": S.vdefs = version_defs(S, inertia)
        S.G[ph] = []
        for (g, l), (d, ev) in S.groups(ph, VEL + POS).items():
            # split impulses are a pair of velocities of their own
            parts = {}
            for k, v in d.items(): parts.setdefault("Split" in k[0], {})[k] = v
            for k, dd in parts.items():
                S.G[ph].append((g, l, analyse_group(S, ph, dd, inertia, ex), ev, inertia))
    return S

PHN = {"warm": "warm starting", "solve": "velocity solving", "pos": "position correction"}
def where(S, ph, ev):
    e = ev[0]
    return e.fn.where(e.node if isinstance(e.node, dict) else None)

def check_P02(P, rep):
    n_g = 0
    for n in NAMES:
        S = prepare(P, n)
        for ph, gs in S.G.items():
            for g, l, G, ev, _ in gs:
                n_g += 1; rep.analysed(ev[0].fn)
                w = [(x, y) for x, y in G.err]
                rep.check(not w, "%s of %s changes each body through its own mass data and locks%s" % (PHN[ph], label(n), guardtext(g)), where(S, ph, ev), "; ".join("%s: %s" % x for x in w[:3]))
    rep.count("update_groups", n_g); rep.need(n_g, 25, "groups of body updates")
    immobile(P, rep)

def guardtext(g):
    s = []
    for x, p in g:
        m = re.findall(r"\b(m?[iI]s\w+|Matrix\dx\d::getDeterminant|m(?:Lower|Upper)Limit|mConeLimitHalfAngle|atLeastOne\w+)", x)
        if m: s.append(m[0] if p else "not " + m[0])
    return " (" + ", ".join(s) + ")" if s else ""

def version_defs(S, inertia):
    """values of the cells recomputed during position correction, by version: directions and lever arms only"""
    out = {}
    for k, v in S.it["pos"].verdef.items():
        n = S.C.name(k)
        if re.search(r"\[B[12]\]", n) or "Mass" in n or re.sub(r"\.mRows.*|@\d+.*", "", n) in inertia.cells or ".mRows" in n: continue
        out[n] = v
    return out

def rows_of(v):
    """split a list of polynomials by accumulated impulse"""
    names = sorted({a for p in v for m in p for a in m if re.search(r"[iI]mpulse\w*(\[\w+\])?(\.[xyz])?$", a)})
    return names

def part(v, names):
    return [{m: k for m, k in p.items() if any(a in names for a in m)} for p in v]

def check_P01(P, rep):
    n_g = 0
    for n in NAMES:
        S = prepare(P, n)
        for ph, gs in S.G.items():
            for g, l, G, ev, _ in gs:
                if G.err or not (G.P or G.tau): continue
                n_g += 1; rep.analysed(ev[0].fn)
                z = [{}, {}, {}]
                P1 = G.P.get("B1") or z; P2 = G.P.get("B2") or z; t1 = G.tau.get("B1") or z; t2 = G.tau.get("B2") or z
                what = "%s of %s%s" % (PHN[ph], label(n), guardtext(g))
                ok1 = zero(vadd(P1, P2))
                rep.check(ok1, "%s applies opposite impulses to the two bodies" % what, where(S, ph, ev), "sum: %s" % [pkey(x)[:160] for x in vadd(P1, P2)])
                if not ok1: continue
                parts = [("", None)]
                if ph == "warm":
                    cols = {}
                    for a in rows_of(P1 + t1 + t2): cols.setdefault(re.sub(r"\.[xyz]$", "", a), []).append(a)
                    rep.check(all(any(a in set(sum(cols.values(), [])) for a in m) for p in P1 + t1 + t2 for m in p), "%s applies accumulated impulses only" % what, where(S, ph, ev))
                    parts = [(" for " + re.sub(r"^.*\.|\[\w+\]", "", c), set(ns)) for c, ns in sorted(cols.items())]
                for pn, names in parts:
                    q1, u1, u2 = (P1, t1, t2) if names is None else (part(P1, names), part(t1, names), part(t2, names))
                    good, cands = conserved(S, n, ph, q1, u1, u2)
                    rep.check(good, "%s%s applies opposite torques about a common point" % (what, pn), where(S, ph, ev), "residual: %s" % [min((pkey(R[i])[:160] for R in cands), key=len) for i in range(3)])
    rep.count("update_groups", n_g); rep.need(n_g, 25, "groups of body updates")

def conserved(S, n, ph, P1, t1, t2):
    E = vadd(t1, t2)
    if zero(P1): return zero(E), [E]
    ex = S.expand if ph != "pos" else (lambda p: S.expand(p, S.vdefs))
    cands = []
    P1 = [ex(x) for x in P1]; E = [ex(x) for x in E]
    for r1, r2 in levers(S, n, ph):
        if ph == "pos": r1 = [latest(S, ph, x, t1 + t2) for x in r1]; r2 = [latest(S, ph, x, t1 + t2) for x in r2]
        r1 = [ex(x) for x in r1]; r2 = [ex(x) for x in r2]
        cands.append(vadd(E, cross([psub(a, b) for a, b in zip(r2, r1)], P1)))
    for cm in ("mRigidBodyComponents.mConstrainedPositions[%s].%s", "mRigidBodyComponents.mCentersOfMassWorld[%s].%s"):
        x1 = [atom(cm % ("B1", c)) for c in XYZ]; x2 = [atom(cm % ("B2", c)) for c in XYZ]
        cands.append(vadd(E, cross([psub(a, b) for a, b in zip(x1, x2)], P1)))
    return any(zero(R) for R in cands), cands

def latest(S, ph, p, used):
    """the version of a recomputed cell that the group uses"""
    a = next(iter(p))[0]
    for v in used:
        for m in v:
            for x in m:
                if re.sub(r"@\d+$", "", x) == a: return atom(x)
    return p

# ---------------------------------------------------------------- bodies that may not move have zero inverse mass; integration
def immobile(P, rep):
    from .. import api
    cols = ("mInverseMasses", "mInverseInertiaTensorsLocal", "mInverseInertiaTensorsWorld")
    n_w = 0
    for f in P.methods("RigidBody"):
        if f.body is None or f.n.startswith("~") or f.n == f.cls or f.n in ("ctor","dtor"): continue
        it = api.run(P, f, stop=("setIsSleeping",)); used = False
        for c in api.cells(it):
            if c.col not in cols or c.row is None or not c.row.startswith("@"): continue
            n_w += 1; used = True
            zero_ = all(x.key() == "0" for x in leaves_of(it, c.new))
            ty = "*" + re.sub(r"^\*", "", pstr(c.ev.path)).split("mRigidBodyComponents.")[0] + "mRigidBodyComponents.mBodyTypes[%s]" % c.row
            tv = [x for x in it.events if x.path[0].endswith("mBodyTypes")]
            ta = next(iter(tv[-1].new.p))[0] if tv and isinstance(tv[-1].new, Sc) and len(tv[-1].new.p) == 1 else ty
            poss = api.possible(it, c.guards, ta, api.TYPES)
            rep.check(zero_ or poss <= {"#BodyType::DYNAMIC"}, "%s gives %s a non-zero value for dynamic bodies only" % (f.short(), c.col), f.where(c.ev.node), "possible types %s, value %s" % (sorted(poss), c.new.key()[:160]))
        if used: rep.analysed(f)
    rep.need(n_w, 12, "writes of inverse masses")
    f = P.method("RigidBody", "setType"); it = api.run(P, f, stop=("setIsSleeping",))
    ty = "$" + f.ps[0]["n"]
    for t in ("#BodyType::STATIC", "#BodyType::KINEMATIC"):
        for col in cols:
            v = None
            for c in api.cells(it):
                if c.col == col:
                    h = api.holds(it, [g for g in c.guards if "mBodyTypes" not in g[0]], {ty: api.enum(t)})
                    if h is True: v = c.new
                    elif h is None: v = c.new
            rep.check(v is not None and all(x.key() == "0" for x in leaves_of(it, v)), "becoming %s clears %s" % (t.split("::")[1].lower(), col), f.where(), v.key()[:200] if v is not None else "not written")
    inertia_formula(P, rep)
    integration(P, rep)

def leaves_of(it, v):
    """scalar leaves of a value (an object that is zero in every known component is zero)"""
    if isinstance(v, St):
        out = []
        fs = v.f
        for k, x in fs.items(): out += leaves_of(it, x)
        return out or [v]
    if isinstance(v, Sc): return it.leaves(v)
    if v.key() in ("<zero>", "<Vector3::zero()>", "<Matrix3x3::zero()>"): return [Sc({})]
    return [v]

def inertia_formula(P, rep):
    """world inverse inertia = R diag(i) R^T with R the orientation of the same body"""
    f = P.method("RigidBody", "computeWorldInertiaTensorInverse"); rep.analysed(f)
    it = Interp(P, opaque, maxterms=200); it.run(f)
    out = "$" + f.ps[2]["n"]; loc = "$" + f.ps[1]["n"]
    M = it.load((out,), "Matrix3x3"); R = None
    rows = it.select(M, "mRows", "Vector3[3]")
    m = [[it.select(it.select(rows, "[%d]" % r, "Vector3"), c, "float") for c in XYZ] for r in range(3)]
    ori = "$" + f.ps[0]["n"]; ok_ = True
    R_ = lambda i, k: "%s.mRows[%d].%s" % (ori, i, XYZ[k])
    for r in range(3):
        for c in range(3):
            exp = {}
            for k in range(3): exp = padd(exp, pmul(pmul(atom(R_(r, k)), atom(R_(c, k))), atom(loc + "." + XYZ[k])))
            if psub(exp, m[r][c].p): ok_ = False
    rep.check(ok_, "the world inverse inertia tensor is the rotated local one", f.where(), "[0][0] = %s" % m[0][0].key()[:300])
    # every caller passes the orientation and the local tensor of the body whose world tensor is computed
    n = 0
    for g in sorted(P.fns.values(), key=lambda x: x.f):
        if g.body is None or g is f: continue
        if not any(x.get("f") == f.f for x in g.nodes() if x.get("k") == "call"): continue
        n += 1; rep.analysed(g)
        def o(fn): return fn is f or opaque(fn)
        from .. import api
        it = Interp(P, o, mapname=api.rowname, maxterms=60); it.I.limit = 3000; it.run(g); C = Canon()
        for e in it.calls:
            if e.path[0] != f.f: continue
            q, i = C.name(flatname(e.old[0])), C.name(flatname(e.old[1]))
            ri = bracket(i, "mInverseInertiaTensorsLocal")
            if ri is None: rep.check("$" in i or "this" in i, "%s rotates a local inverse inertia tensor" % g.short(), g.where(e.node), i[:200]); continue
            rq = bracket(q, "mConstrainedOrientations") or bracket(q, "mTransforms")
            same = rq is not None and (rq == ri or rq.endswith("mBodiesEntities[%s]" % ri) or ri.endswith("mBodiesEntities[%s]" % rq))
            rep.check(same, "%s uses the orientation and the inertia of the same body" % g.short(), g.where(e.node), "orientation row %s, inertia row %s" % (rq, ri))
    rep.need(n, 2, "users of the world inertia tensor")

def bracket(s, col):
    i = s.find(col + "[")
    if i < 0: return None
    j = i + len(col) + 1; d = 1; k = j
    while k < len(s) and d:
        d += (s[k] == "[") - (s[k] == "]"); k += 1
    return s[j:k - 1]

def flatname(v):
    if isinstance(v, St): return " ".join([flatname(x) for x in v.f.values()] + ([flatname(v.base)] if v.base is not None else []))
    return v.key()

def integration(P, rep):
    f = P.method("DynamicsSystem", "integrateRigidBodiesVelocities"); rep.analysed(f)
    vel = lambda p: any(s.endswith(VEL) for s in p)
    it = Interp(P, opaque, mapname=entname, maxterms=160, cell_filter=vel); it.run(f)
    C = Canon(); n = 0
    for e in it.events:
        c = col(tuple(C.name(s) if i else s for i, s in enumerate(e.path)), C)
        if c is None or c[0] not in VEL: continue
        row = c[1]
        comps = {c[2][0]: e.new} if c[2] else ({k: e.new.f.get(k) for k in XYZ} if isinstance(e.new, St) else {})
        for k, v in comps.items():
            if not isinstance(v, Sc): rep.bad("integration of velocities is understood", f.where(e.node), e.new.key()[:200]); continue
            bad = []
            for m in C.poly(v.p):
                if any(re.match(r".*(mLinearVelocities|mAngularVelocities|mConstrained(Linear|Angular)Velocities)\[%s\]\.%s" % (re.escape(row), k), a) for a in m): continue
                if c[0] in LIN: okm = any(a.endswith("mInverseMasses[%s]" % row) for a in m) and any(a.endswith("mLinearLockAxisFactors[%s].%s" % (row, k)) for a in m)
                else: okm = any(re.search(r"mInverseInertiaTensorsWorld\[%s\]\.mRows\[%d\]" % (re.escape(row), XYZ.index(k)), a) for a in m) and any(a.endswith("mAngularLockAxisFactors[%s].%s" % (row, k)) for a in m)
                if not okm: bad.append("*".join(m))
            n += 1
            rep.check(not bad, "integration changes %s.%s only through the body's own mass data and lock factor" % (c[0], k), f.where(e.node), "; ".join(bad)[:300])
    rep.need(n, 12, "velocity updates of the integration")

"""Running the constraint solvers through the term domain; shared by the momentum / impulse / warm-start rules."""
import re
from . import terms
from .terms import *
from .model import AnalysisBroken, walk, show

JOINTS = ["BallAndSocketJoint", "FixedJoint", "HingeJoint", "SliderJoint"]
def system_of(j): return "Solve%sSystem" % j
def comps_of(j): return j + "Components"

OPAQUE_MATH = {"length", "lengthSquare", "normalize", "getUnit", "getOneUnitOrthogonalVector", "isFinite", "isUnit", "isZero", "getMinAxis", "getMaxAxis", "getInverse", "getDeterminant", "getAngleAroundAxis"}
def opaque(fn):
    c = fn.cls.split("<")[0]
    if c in ("Map", "Set", "Array", "Stack", "Deque", "Transform", "LinkedList"): return True
    if c == "Quaternion":
        if fn.n in ("ctor", "operator+=", "operator+", "operator-"): return False
        if fn.n == "operator*" and len(fn.ps) == 1 and not fn.ps[0]["t"].endswith("Vector3 &"): return False
        return True
    if c in ("Vector3", "Vector2", "Matrix3x3", "Matrix2x2") and fn.n in OPAQUE_MATH: return True
    return False

VEL = ("mConstrainedLinearVelocities", "mConstrainedAngularVelocities", "mSplitLinearVelocities", "mSplitAngularVelocities")
POS = ("mConstrainedPositions", "mConstrainedOrientations")
LIN = {"mConstrainedLinearVelocities", "mSplitLinearVelocities", "mConstrainedPositions"}
ANG = {"mConstrainedAngularVelocities", "mSplitAngularVelocities"}

def entname(b, i):
    """names for rows of component tables: the rows of the first and second body B1, B2, the joint's row J"""
    bk = b.key(); k = i.key()
    if "mMapEntityToComponentIndex" not in bk: return None
    if "Collider" in k or "collider" in k:
        m = re.search(r"colliderEntity(\d)", k); return "C%s" % m.group(1) if m else None
    if "mBody1Entities" in k or "bodyEntity1" in k: return "B1"
    if "mBody2Entities" in k or "bodyEntity2" in k: return "B2"
    if "mJointEntities" in k: return "J" if "mJointComponents" in bk else "i"
    return None

IMPC = re.compile(r"[iI]mpulse(?:[A-Z0-9]\w*)?$")

class Canon:
    """canonical atom names: no path roots, no loop-variable names, table rows named B1/B2/J/i"""
    def __init__(self): self.idx = {}
    def name(self, a):
        a = re.sub(r"%[A-Za-z_]\w*#\d+(\?\d+)?", "i", a)
        a = re.sub(r"\*?this\.", "", a)
        a = re.sub(r"^\*+", "", a)
        a = re.sub(r"\b(mContactConstraints|mContactPoints)\[[^\]]*\]", r"\1[i]", a)
        for k, v in self.idx.items(): a = a.replace("[" + k + "]", "[" + v + "]")
        while True:
            b = re.sub(r"(\[B[12]\](?:\.\w+|\[\d\])*)@\d+", r"\1", a)
            b = re.sub(r"(^m\w+(?:\[\w+\])?(?:\.m?\w*[iI]mpulse\w*)(?:\[\w+\])?(?:\.[xyz])?)@\d+", r"\1", b)
            if b == a: break
            a = b
        return a
    def poly(self, p):
        r = {}
        for m, c in p.items():
            m2 = tuple(sorted(self.name(x) for x in m)); v = r.get(m2, 0) + c
            if v: r[m2] = v
            else: r.pop(m2, None)
        return r

def run(prog, cls, name):
    fn = prog.method(cls, name)
    pos = name == "solvePositionConstraint"
    vel = lambda p: any(s.endswith(VEL + POS) for s in p)
    # cells that are read back as themselves after being written: velocities; in warm starting the accumulated impulses too
    filt = vel
    if pos: filt = lambda p: vel(p) or not p[0].startswith(("%", "new"))
    elif name in ("warmstart", "warmStart"): filt = lambda p: vel(p) or not p[0].startswith(("%", "new")) and any(IMPC.search(s) for s in p)
    it = Interp(prog, opaque, mapname=entname, maxterms=400 if pos else 160, cell_filter=filt)
    it.run(fn)
    return fn, it

class System:
    """init + warm start + velocity + position phases of one constraint system"""
    def __init__(self, prog, cls, init, warm, solve, position=None):
        self.P = prog; self.cls = cls; self.C = Canon(); self.ph = {}
        self.fn = {}; self.it = {}
        for k, n in (("init", init), ("warm", warm), ("solve", solve), ("pos", position)):
            if n: self.fn[k], self.it[k] = run(prog, cls, n)
        self.defs = self.columns(self.it["init"])
        # row numbers copied into solver records at initialisation
        for k, v in list(self.defs.items()):
            if isinstance(v, Sc) and len(v.p) == 1:
                m = next(iter(v.p))
                if m in (("B1",), ("B2",)): self.C.idx[k] = m[0]
        if "pos" in self.it: self.posdefs = self.columns(self.it["pos"])

    def columns(self, it):
        """value of every column at the end of one iteration: canonical column name -> Value"""
        out = {}
        mem = dict(it.endmem_inner)
        bare = lambda v: re.fullmatch(r"<?[^+]*\?\d+(\.\w+)*>?", v[0].key()) is not None
        for p, v in it.endmem.items():
            if not bare(v) or not any(p[:k] in it.endmem_inner for k in range(1, len(p) + 1)) and not any(q[:len(p)] == p for q in it.endmem_inner): mem[p] = v
        # order by length so that sub-cells overlay
        for p, (v, t) in sorted(mem.items(), key=lambda x: len(x[0])):
            if p[0].startswith("%") or p[0].startswith("new"): continue
            n = self.C.name(pstr(p))
            if any(x in n for x in VEL + POS): continue
            out[n] = v
        return out

    def lookup(self, defs, a):
        """definition of atom a (a scalar cell) in terms of the initialisation values"""
        if a in defs:
            v = defs[a]; return v.p if isinstance(v, Sc) else None
        i = len(a)
        while True:
            j = max(a.rfind(".", 0, i), a.rfind("[", 0, i))
            if j <= 0: return None
            pre, suf = a[:j], a[j:]
            if pre in defs:
                v = defs[pre]
                for s in re.findall(r"\.\w+|\[[^\]]*\]", suf):
                    step = s if s.startswith("[") else s[1:]
                    if isinstance(v, St):
                        if step in v.f: v = v.f[step]
                        elif v.base is not None: v = v.base; v = Op(v.n + s, "") if isinstance(v, Op) else v
                        else: return None
                    elif isinstance(v, Op): v = Op(v.n + s, "")
                    else: return None
                if isinstance(v, Sc): return v.p
                if isinstance(v, Op): return atom(v.n)
                return None
            i = j

    def expand(self, p, defs=None, depth=6, skip=None):
        defs = self.defs if defs is None else defs
        p = self.C.poly(p)
        for _ in range(depth):
            mp = {}
            for m in p:
                for a in m:
                    if a in mp or skip is not None and skip(a): continue
                    if re.search(r"[iI]mpulse\w*(\[\w+\])?(\.[xyz])?$", a): continue
                    d = self.lookup(defs, a)
                    if d is not None:
                        d = self.C.poly(d)
                        if d != atom(a) and not any(a in mm for mm in d): mp[a] = d
            if not mp: break
            p = self.C.poly(psubst(p, mp))
        return p

    def groups(self, ph, cells=VEL):
        """velocity updates grouped by control context: [(guards, {(col, body): [dx,dy,dz]}, events)]"""
        it = self.it[ph]; out = {}
        for e in it.events:
            c = col(tuple(self.C.name(s) if i else s for i, s in enumerate(e.path)), self.C)
            if c is None or c[0] not in cells: continue
            g = tuple(x for x in e.guards if not x[0].startswith("L:")), tuple(l[0] for l in e.loops)
            d = out.setdefault(g, ({}, []))
            d[1].append(e)
            key = (c[0], c[1])
            arr = d[0].setdefault(key, {})
            def add(comp, new, old):
                arr[comp] = padd(arr.get(comp, {}), psub(new, old))
            if c[2]:
                if isinstance(e.new, Sc) and isinstance(e.old, Sc): add(c[2][0], e.new.p, e.old.p)
                else: arr.setdefault("?", []).append(e)
            else:
                if isinstance(e.new, St):
                    for f in ("x", "y", "z", "w"):
                        if f in e.new.f:
                            o = it.select(e.old, f, "float"); add(f, e.new.f[f].p, o.p)
                else: arr.setdefault("op", []).append(e)
        return out

def col(path, C):
    for i in range(len(path) - 1, 0, -1):
        if path[i].startswith("[") and i >= 1:
            f = path[i - 1].split(".")[-1]
            idx = C.name(path[i])[1:-1]
            idx = C.idx.get(idx, idx)
            return f, idx, path[i + 1:]
    return None

def contact_system(prog):
    if "contact" not in prog.__dict__.setdefault("_sys", {}):
        prog._sys["contact"] = System(prog, "ContactSolverSystem", "initializeForIsland", "warmStart", "solve")
    return prog._sys["contact"]
def joint_system(prog, j):
    if j not in prog.__dict__.setdefault("_sys", {}):
        prog._sys[j] = System(prog, system_of(j), "initBeforeSolve", "warmstart", "solveVelocityConstraint", "solvePositionConstraint")
    return prog._sys[j]

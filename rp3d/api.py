"""Effects of the user-visible operations on table cells, as (column, object, value, conditions)."""
import re
from .terms import *
from .effects import base_type

HEAVY = {"PhysicsWorld", "PhysicsCommon", "CollisionDetectionSystem", "BroadPhaseSystem", "ContactSolverSystem", "ConstraintSolverSystem", "DynamicsSystem", "Logger", "DefaultLogger", "MemoryManager", "OverlappingPairs", "DynamicAABBTree", "Islands"}
CONT = {"Map", "Set", "Array", "Stack", "Deque", "LinkedList", "Pair"}
MATHOPQ = {"length", "lengthSquare", "normalize", "getUnit", "getOneUnitOrthogonalVector", "isFinite", "isUnit", "isZero", "isValid", "getInverse", "getDeterminant", "getMatrix", "slerp"}

def rowname(b, i):
    """rows of the tables are named after the entity: [e]"""
    bk = b.key()
    if "mMapEntityToComponentIndex" not in bk: return None
    return "@" + i.key().strip("<>")

def opaque(fn):
    c = fn.cls.split("<")[0]
    if c in HEAVY or c in CONT: return True
    if c in ("Transform", "Quaternion") and fn.n not in ("ctor", "operator=", "getPosition", "getOrientation", "setPosition", "setOrientation", "identity"): return True
    if c in ("Vector3", "Matrix3x3", "Matrix2x2", "Vector2") and fn.n in MATHOPQ: return True
    return False

class Cell:
    """one write: column (Class.field or object field), row, value, conditions"""
    __slots__ = ("col", "row", "sub", "new", "old", "guards", "ev")

def run(P, fn, opq=opaque, stop=(), maxterms=60, args=None, exits=True):
    it = Interp(P, (lambda f: opq(f) or (f.cls.split("<")[0], f.n) in stop or f.n in stop), maxterms=maxterms, mapname=rowname, depth=14)
    it.joinexits = exits
    it.ret = it.run(fn, args=args)
    return it

def colname(path):
    """('this.mWorld...', 'mX', '[..]') -> (column, row, rest)"""
    for i, s in enumerate(path):
        if s.startswith("[") and i > 0:
            return path[i - 1].split(".")[-1], s[1:-1], path[i + 1:]
    return path[-1].split(".")[-1] if len(path) == 1 else path[1] if path[0] == "this" else ".".join(path[1:]), None, ()

def cells(it):
    out = []
    for e in it.events:
        if e.path[0].startswith("%"): continue
        c = Cell(); c.col, c.row, c.sub = colname(e.path); c.new = e.new; c.old = e.old; c.guards = e.guards; c.ev = e
        out.append(c)
    return out

# ------------------------------------------------------------------ conditions over finite domains
def truth(it, name, env):
    """three-valued truth of a condition under an assignment of atoms to integers"""
    if name.startswith("L:"): return getattr(env, "loopval", None)
    if name in env: return bool(env[name])
    inf = it.I.info.get(name)
    if inf is None: return None
    if inf[0] == "app":
        v = number_atom(it, name, env); return None if v is None else bool(v)
    return truth_inf(it, inf, env)

def truth_v(it, v, env):
    if isinstance(v, Sc):
        if isconst(v.p): return bool(cval(v.p))
        if len(v.p) == 1:
            (m, c), = v.p.items()
            if len(m) == 1 and c == 1: return truth(it, m[0], env)
    return None

def number(it, p, env):
    r = {}
    t = 0
    for m, c in p.items():
        x = c
        for a in m:
            if a in env: x *= env[a]
            else:
                v = number_atom(it, a, env)
                if v is None: return None
                x *= v
        t += x
    return t
def number_atom(it, a, env):
    if a.startswith("#"): 
        return enum(a)
    inf = it.I.info.get(a)
    if inf is None: return None
    if inf[0] in ("phi", "sel"):
        c = truth(it, inf[1], env) if isinstance(inf[1], str) else None
        x, y = inf[2], inf[3]
        if not isinstance(x, Sc) or not isinstance(y, Sc): return None
        if c is True: return number(it, x.p, env)
        if c is False: return number(it, y.p, env)
        u, v = number(it, x.p, env), number(it, y.p, env)
        return u if u is not None and u == v else None
    if inf[0] == "app" and inf[1].split("::")[-1] in ("min", "max", "abs"):
        vs = [number(it, x.p, env) if isinstance(x, Sc) else None for x in inf[2]]
        return None if None in vs or not vs else {"min": min, "max": max, "abs": lambda l: abs(l[0])}[inf[1].split("::")[-1]](vs)
    if inf[0] == "app" and inf[1] in ("&", "|", "^", "operator&", "operator|", "operator^") and len(inf[2]) == 2:
        vs = [number(it, x.p, env) if isinstance(x, Sc) else None for x in inf[2]]
        if inf[1][-1] == "&" and 0 in vs: return 0
        if None in vs: return None
        a, b = int(vs[0]), int(vs[1]); return {"&": a & b, "|": a | b, "^": a ^ b}[inf[1][-1]]
    t = truth_inf(it, inf, env)
    return None if t is None else int(t)
ENUM = {}
def enum(a):
    if a not in ENUM: ENUM[a] = 1000 + 13 * len(ENUM)
    return ENUM[a]

def chosen(it, v, env):
    """the alternative of an object or pointer that the assignment selects"""
    for _ in range(6):
        i = it.I.info.get(v.n) if isinstance(v, Op) else None
        if not i or i[0] not in ("phi", "sel"): return v
        c = truth(it, i[1], env) if isinstance(i[1], str) else None
        if c is None: return None
        v = i[2] if c else i[3]
    return None

def truth_inf(it, inf, env):
    if inf[0] == "not":
        t = truth_v(it, inf[1], env); return None if t is None else not t
    if inf[0] == "logic":
        a, b = truth_v(it, inf[2], env), truth_v(it, inf[3], env)
        if inf[1] == "&&": return False if a is False or b is False else (True if a and b else None)
        return True if a or b else (False if a is False and b is False else None)
    if inf[0] == "cmp":
        d = number(it, inf[2], env)
        if d is None: return None
        return {"<": d < 0, "<=": d <= 0, "==": d == 0}[inf[1]]
    if inf[0] == "same":
        a, b = chosen(it, inf[1], env), chosen(it, inf[2], env)
        if a is None or b is None: return None
        if a.key() == b.key(): return True
        x, y = [number(it, q.p, env) if isinstance(q, Sc) else env[q.n] if isinstance(q, Op) and q.n in env else env[q.key()] if isinstance(q, Ptr) and q.path[0].startswith("$") and q.key() in env else None for q in (a, b)]
        if x is not None and y is not None: return x == y
        for x, y in ((a, b), (b, a)):   # the address of an element is not null
            if isinstance(x, Ptr) and len(x.path) > 1 and isinstance(y, Sc) and not y.p: return False
        return None
    if inf[0] in ("phi", "sel"):
        c = truth(it, inf[1], env) if isinstance(inf[1], str) else None
        a, b = truth_v(it, inf[2], env), truth_v(it, inf[3], env)
        if c is True: return a
        if c is False: return b
        return a if a is not None and a == b else None
    return None

def holds(it, guards, env):
    """False if some guard is false, True if all are true, None otherwise"""
    r = True
    for n, p in guards:
        t = truth(it, n, env)
        if t is None: r = None if r else r
        elif t != p: return False
    return r

def possible(it, guards, atomname, domain):
    """values of the atom under which the guards are not excluded; domain: enum constant names or numbers"""
    out = set()
    for v in domain:
        if holds(it, guards, {atomname: enum(v) if isinstance(v, str) else v}) is not False: out.add(v)
    return out
TYPES = ("#BodyType::STATIC", "#BodyType::KINEMATIC", "#BodyType::DYNAMIC")

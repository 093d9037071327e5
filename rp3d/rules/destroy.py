"""P09: what is entered somewhere when an object is created is taken out again when it is destroyed, in an order in which nothing is used after it is gone."""
import re
from ..model import walk
from ..terms import *
from ..trace import loop_range
from .memory import MTrace, bare
from .islands import NEnv, Names
from ..api import holds
from .sleeping import nonloop
from .pairs import tables, removals, departures, infos
from . import columns
from .filtering import exclusions

ENTER = re.compile(r"^(add|create|insert|emplace|push)"); LEAVE = re.compile(r"^(remove|destroy|erase|delete|pop)")
TABLE = re.compile(r"Components$")
def strip(t): return re.sub(r"!\d+(\.\d+)?", "", t).strip("<>&*")

class Scope:
    """the calls of one entry point, with the objects it is about replaced by their roles"""
    def __init__(self, P, cls, n, inl, roles, rep):
        self.P = P; self.fn = P.method(cls, n); self.T = MTrace(P, self.fn, inl); self.it = self.T.it; self.roles = roles; self.nm = "%s::%s" % (cls, n)
        rep.analysed(self.fn); self.calls = []
        for c in self.T.calls:
            for f in c.chain: rep.analysed(f)
            if c.cls in ("Logger", "std") or c.n in ("getLogger", "to_string"): continue
            c.txt = [self.role(a) for a in c.args]; c.recv = strip(c.txt[0]) if c.txt else ""; c.rest = c.txt[1:]
            self.calls.append(c)
    def role(self, a):
        return self.sub(full_text(self.it.I, a.key())) if hasattr(a, "key") else "?"
    def sub(self, t):
        t = re.sub(r"!\d+(\.\d+)?", "", t)
        for rx, tok in self.roles: t = re.sub(rx, tok, t)
        return t
    def guards(self, c): return [(self.sub(full_text(self.it.I, g[0])), g[1]) for g in c.guards]
    def own(self, c): return [g for g in self.guards(c) if not g[0].startswith("L:")]
    def at(self, c): return c.fn.where(c.node if isinstance(c.node, dict) else None) if c.fn else self.fn.where()

def tok(t):
    m = re.match(r"^(E|O|S|B[12]|BE[12]|ID)#$", strip(t)); return {m.group(1)} if m else set()
def within(t): return set(re.findall(r"\b(E|O|S|B[12]|BE[12]|ID)#", t))

MKE = r"<?EntityManager::createEntity'?\(<?this[\w.]*\.?mEntityManager>?\)>?"
def getter(cls, n, o): return r"<?&?%s::%s'?\(%s\)>?" % (cls, n, o)
def objroles(o, kind):
    """an object handed in: its entity, itself, its broad-phase id"""
    o = r"<?[&*x]*%s>?" % o
    return [(getter("(?:Body|RigidBody|Collider|Joint)", "getEntity", o), "E#"), (r"<?(?:%s\.mEntity)>?" % o, "E#"),
            (getter("Collider", "getBroadPhaseId", o), "ID#"), (getter("Collider", "getCollisionShape", o), "S#"),
            (getter(r"(?:\w*Joint)", "getBody1", o), "B1#"), (getter(r"(?:\w*Joint)", "getBody2", o), "B2#"),
            (getter("JointComponents", "getBody1", r"<?this\.mJointsComponents>?; E#"), "B1#")] + \
           [(getter("(?:Body|RigidBody)", "getEntity", "<?&?B%d#>?" % k), "BE%d#" % k) for k in (1, 2)] + \
           [(getter("JointComponents", "getBody%dEntity" % k, r"<?this\.mJointsComponents>?; E#"), "BE%d#" % k) for k in (1, 2)] + [(o + r"(?![\w.])", "O#")]
def newroles(t): return [(MKE, "E#"), (r"<?[&*x]*new\d+:\w*%s>?" % t, "O#")]

def peers(P):
    """(what, creator, destroyer): class, function, inlined, roles"""
    W = lambda g: g.cls in ("PhysicsWorld", "")
    B = lambda g: g.cls in ("RigidBody", "Body", "") and g.n not in ("wakeUpNeighborBodies",)
    C = lambda g: g.cls in ("CollisionDetectionSystem", "")
    D = lambda g: g.cls in ("BroadPhaseSystem", "")
    info = r"<?[&*x]*\$\w+\.body%d>?"
    joint = newroles("Joint") + [(getter("(?:Body|RigidBody)", "getEntity", info % k), "BE%d#" % k) for k in (1, 2)] + [(info % k, "B%d#" % k) for k in (1, 2)]
    par = lambda c, n, k=0: objroles(r"\$%s" % P.method(c, n).ps[k]["n"], c)
    shape = lambda c, n: [(r"<?[&*x]*\$%s>?(?![\w.])" % P.method(c, n).ps[0]["n"], "S#")]
    return [("rigid body", ("PhysicsWorld", "createRigidBody", W, newroles("RigidBody")), ("PhysicsWorld", "destroyRigidBody", W, par("PhysicsWorld", "destroyRigidBody"))),
            ("joint", ("PhysicsWorld", "createJoint", W, joint), ("PhysicsWorld", "destroyJoint", W, par("PhysicsWorld", "destroyJoint"))),
            ("collider", ("RigidBody", "addCollider", B, newroles("Collider") + shape("RigidBody", "addCollider")), ("RigidBody", "removeCollider", B, par("RigidBody", "removeCollider"))),
            ("collider of a body", ("Body", "addCollider", B, newroles("Collider") + shape("Body", "addCollider")), ("Body", "removeCollider", B, par("Body", "removeCollider"))),
            ("collider in the collision detection", ("CollisionDetectionSystem", "addCollider", C, par("CollisionDetectionSystem", "addCollider") + IDS), ("CollisionDetectionSystem", "removeCollider", C, par("CollisionDetectionSystem", "removeCollider") + IDS)),
            ("collider in the broad phase", ("BroadPhaseSystem", "addCollider", D, par("BroadPhaseSystem", "addCollider") + IDS), ("BroadPhaseSystem", "removeCollider", D, par("BroadPhaseSystem", "removeCollider") + IDS))]
IDS = [(r"<?ColliderComponents::getBroadPhaseId'?\(<?this\.mCollidersComponents>?; <?E#>?\)>?", "ID#"), (r"<?DynamicAABBTree::addObject'?\(<?this\.mDynamicAABBTree>?; [^()]*\)>?", "ID#")]

def allowed(S, c, entry, cguards, exclusive=()):
    """guards under which taking out is still complete"""
    bad = []
    for t, pol in S.own(c):
        p = t[1:] if t.startswith("!") else t
        if re.match(r"^\(?Components::hasComponent\(<?%s>?; <?E#>?\)\)?$" % re.escape(c.recv), t) and pol: continue
        other = re.match(r"^\(*Components::hasComponent\(<?(this[\w.]*Components)>?; <?E#>?\)+$", p)
        if other and pol is t.startswith("!") and other.group(1) != c.recv and other.group(1) in exclusive and c.recv in exclusive: continue    # the kinds of joints exclude each other
        if re.match(r"^\(+1 \+ ID# == 0\)+$", p) and pol is t.startswith("!"): continue             # it has no id if it is not in the broad phase
        if re.match(r"^\(+-1 \+ -1\*ID# < 0\)+$", p) and pol is not t.startswith("!"): continue
        if re.search(r"getType|case ", t) and any(g[0].startswith("case ") and g[0].split(" in ")[-1].strip("{}") in t for g in cguards): continue
        if re.search(r"[iI]sCollisionEnabled", t) and entry.n == "addNoCollisionPair": continue
        bad.append(("" if pol else "!") + t)
    return bad

def counterpart(S, c, entry):
    """is c the call that undoes entry"""
    if not LEAVE.match(c.n) or c.recv != entry.recv: return False
    roles = set().union(*[tok(t) for t in entry.rest]) if entry.rest else set()
    a, b = re.sub(ENTER, "", entry.n), re.sub(LEAVE, "", c.n)
    for x, y in (("To", "From"),): a = a.replace(x, y)
    container = entry.cls in ("Array", "Map", "Set", "Deque")
    if not container and a != b: return False
    mine = set().union(*[tok(t) for t in c.rest]) if c.rest else set()
    if container and entry.cls == "Array" and not mine:        # by position: found by comparing
        mine = set().union(*[within(g[0]) for g in S.guards(c)]) if c.guards else set()
    if entry.cls == "Map": return bool(mine) and mine == tok(re.sub(r"^<?ctor:Pair<.*?>\(([^;]*);.*", r"\1", entry.rest[0]))
    if entry.n == "addObject": return mine == {"ID"}
    if TABLE.search(entry.recv) and entry.n == "addComponent": return mine == {"E"} and c.rest and strip(c.rest[0]) == "E#"
    if entry.n.startswith("createEntity"): return mine == {"E"}
    return bool(roles) and bool(c.rest) and [strip(t) for t in c.rest] == [strip(t) for t in entry.rest[:len(c.rest)]] if not container else bool(roles & mine)

def pairing(rep, what, A, D):
    n = 0; exclusive = {c.recv for c in A.calls if c.n == "addComponent" and any(g[0].startswith("case ") for g in A.own(c))}
    for c in A.calls:
        if not ENTER.match(c.n) or c.cls in ("EventListener",): continue
        if not (c.n == "createEntity" or any(tok(t) for t in c.rest) or c.cls == "Map" and within(" ".join(c.rest))): continue
        n += 1; own = A.own(c)
        back = [d for d in D.calls if counterpart(D, d, c)]
        label = "%s.%s(%s)" % (c.recv, c.n, ", ".join(sorted(set().union(*[tok(t) for t in c.rest] or [set()]))))
        if not rep.check(bool(back), "what %s enters for a %s is taken out by %s" % (A.nm, what, D.nm), D.fn.where(), "nothing undoes %s at %s" % (label, A.at(c))): continue
        once = c.n in ("createEntity", "addComponent", "addObject")
        live = [d for d in back if not allowed(D, d, c, own, exclusive) and not (once and d.loops)]
        rep.check(bool(live), "what %s enters for a %s is taken out whatever the state" % (A.nm, what), D.at(back[0]), "%s is undone only if %s" % (label, [x[:160] for d in back for x in allowed(D, d, c, own)] or "a loop runs"))
        if once: rep.check(len(back) == 1, "an entry is given up once", D.at(back[-1]), "%s is undone %d times" % (label, len(back)))
    return n

def reads(P, f, table, depth=4, memo={}):
    """does f (or what it calls) use the rows of table"""
    k = (f.f, table)
    if k in memo: return memo[k]
    memo[k] = False
    for x in f.nodes() if f.body is not None else ():
        if x.get("k") == "mem" and x.get("n") == table: memo[k] = True; break
        if x.get("k") == "call" and depth:
            if any(reads(P, P.fns[g], table, depth - 1) for g in P.targets(x) if g in P.fns and P.fns[g].body is not None): memo[k] = True; break
    return memo[k]

def ordering(P, rep, what, D):
    """nothing is looked up in a table after the object's row is gone, nor asked of the object after its destructor"""
    n = 0; gone = {}; dead = None; freed = None
    for c in D.calls:
        if any(l for l in c.loops) and "E#" not in "".join(c.txt) and "O#" not in "".join(c.txt): continue
        fld = c.recv.split(".")[-1]
        if fld in gone and any(strip(t) == "E#" for t in c.rest) and c.n != "hasComponent":
            n += 1; rep.check(False, "a row of a %s is not used after it was removed" % what, D.at(c), "%s.%s after the row was removed at %s" % (c.recv, c.n, D.at(gone[fld])))
        if c.recv in ("O#",) and c.n not in ("dtor",):
            f = P.fns.get(c.f)
            for t, g in gone.items():
                if f is not None and reads(P, f, t):
                    n += 1; rep.check(False, "a %s is not asked for anything that its removed rows hold" % what, D.at(c), "%s uses %s, removed at %s" % (c.n, t, D.at(g)))
            if dead is not None:
                n += 1; rep.check(False, "a destroyed %s is not used any more" % what, D.at(c), "%s after the destructor" % c.n)
        if LEAVE.match(c.n) and c.n == "removeComponent" and c.rest and strip(c.rest[0]) == "E#" and TABLE.search(c.recv): gone.setdefault(fld, c); n += 1
        if c.n == "dtor" and c.recv == "O#": dead = c
    rep.check(True, "order of removal in %s" % D.nm, D.fn.where())
    return n

def ended(rep, what, A, D):
    """the object itself is destroyed and its memory given back, whatever the state"""
    n = 0
    for kind, calls in (("destructor", [d for d in D.it.dtors if strip(D.role(d.ptr)) == "O#"]), ("release of the memory", [q for q in D.it.frees if strip(D.role(q.ptr)) == "O#"])):
        n += 1
        if not rep.check(len(calls) == 1, "%s: a destroyed %s has one %s" % (D.nm, what, kind), D.fn.where(), str(len(calls))): continue
        g = [D.sub(full_text(D.it.I, x[0])) for x in calls[0].guards]
        rep.check(not g, "%s: the %s is destroyed whatever the state" % (D.nm, what), calls[0].fn.where(calls[0].node), "%s only if %s" % (kind, g)[:200])
    return n

def copies(P, fns, getters):
    """a local copy of the list is walked"""
    for f in fns:
        for x in walk(f.body):
            if isinstance(x, dict) and x.get("k") == "var" and isinstance(x.get("i"), dict) and any(isinstance(y, dict) and y.get("k") == "call" and y.get("n") in getters for y in walk(x["i"])):
                return not x.get("t", "").rstrip().endswith(("&", "*"))
    return False

def emptied(rep, P, S, c, getters, size, label):
    """the loop around c meets every element of the live list, which loses the element at each turn"""
    it = S.it; w = S.at(c)
    if not rep.check(bool(c.loops), label, w, "not in a loop"): return
    g = [(S.sub(full_text(it.I, x[0])), x) for x in c.guards]
    extra = [t for t, x in g if not t.startswith("L:")]
    rep.check(not extra, label, w, "only if %s" % [t[:160] for t in extra])
    loop = c.loops[-1]; r = loop_range(it, loop, c.guards)
    lg = [x for t, x in g if t.startswith("L:")][-1:]
    el = " ".join(c.txt)
    if r[0] == "up" or r[0] in ("each", "iter"):
        ok = copies(P, [f for f in c.chain + (c.fn,) if f is not None] if isinstance(c.chain, tuple) else [f for f in list(c.chain) + [c.fn] if f is not None], getters)
        rep.check(ok, label, w, "the list is walked while it loses elements")
        if r[0] == "up":
            b = S.sub(full_text(it.I, pkey(r[3]))); rep.check(not r[2] and re.search(size, b) is not None and re.match(r"^[\w:<>* ]*size\(", b) is not None, label, w, "from %s to %s" % (pkey(r[2]) or "0", b[:160]))
        return
    # a countdown, or a loop that takes one end of the list until none is left
    acc = [a for a in it.accumulations if a[4] == loop[0]]
    for path, before, after, t, node, final in acc:
        st = it.loopstart.get((loop[0], path))
        if not isinstance(st, Sc) or not isinstance(after, Sc) or not isinstance(before, Sc): continue
        d = psub(after.p, st.p)
        if isconst(d) and cval(d) == -1 and re.search(size, S.sub(full_text(it.I, before.key()))):
            rep.check(re.match(r"^[\w:<>* ]*size\(", S.sub(full_text(it.I, before.key())).strip("<>")) is not None, label, w, "starts at %s" % before.key()[:120])
            a = st.key().strip("<>")
            for v in (0, 1, 2):
                h = holds(it, [(x[0][2:], x[1]) for x in lg], NEnv(it, Names(it), [("^" + re.escape(a) + "$", v)]))
                rep.check(h is None or h is (v > 0), label, w, "the loop %s with %d elements left" % ("stops" if h is False else "goes on", v))
            rep.check("-1 + %s" % a in full_text(it.I, " ".join(x.key() for x in c.args if hasattr(x, "key"))), label, w, "element %s" % el[:160])
            return
    cond = " ".join(S.sub(full_text(it.I, x[0])) for x in lg)
    rep.check(re.search(size, cond) is not None, label, w, "the loop runs while %s" % cond[:160])
    for v in (0, 1, 2):
        h = holds(it, [(x[0][2:], x[1]) for x in lg], NEnv(it, Names(it), [(r"^[\w:<>* ]*size\(", v)]))
        rep.check(h is (v > 0), label, w, "with %d elements left the loop %s" % (v, {True: "goes on", False: "stops", None: "depends on something else"}[h]))
    rep.check(re.search(r"(%s).*\[(0|-1 \+ Array<.*)\]" % size, el) is not None, label, w, "element %s" % el[:200])

def dependents(P, rep, S):
    D = S["rigid body"][1]; w = D.fn.where(); n = 0
    rows = {c.recv.split(".")[-1]: c for c in D.calls if c.n == "removeComponent" and c.rest and strip(c.rest[0]) == "E#" and not c.loops}
    first = min([c.k for c in rows.values()], default=1 << 30)
    # colliders
    cs = [c for c in D.calls if c.recv == "O#" and c.n in ("removeAllColliders", "removeCollider")]
    if rep.check(bool(cs), "a destroyed body loses its colliders", w):
        c = cs[0]; n += 2
        if c.n == "removeAllColliders": rep.check(not c.guards and not c.loops, "a destroyed body loses its colliders whatever the state", D.at(c), str([t[:120] for t, _ in D.guards(c)]))
        else: emptied(rep, P, D, c, ("getColliders",), r"getColliders'?\(<?this\.mBodyComponents>?; <?E#", "a destroyed body loses all its colliders")
        rep.check(c.k < first, "a body loses its colliders while its rows are there", D.at(c), "after the removal of a row")
    A = Scope(P, "Body", "removeAllColliders", lambda g: g.cls in ("Body", "") and g.n != "removeCollider", [], rep); n += 1
    cs = [c for c in A.calls if c.n == "removeCollider"]
    if rep.check(len(cs) == 1, "removeAllColliders removes colliders", A.fn.where(), str(len(cs))):
        emptied(rep, P, A, cs[0], ("getColliders",), r"getColliders'?\(<?this\.mWorld\.mBodyComponents>?; <?this\.mEntity", "removeAllColliders removes every collider of the body")
        rep.check(re.search(r"getCollider'?\(<this\.mWorld\.mCollidersComponents>; .*getColliders", " ".join(cs[0].rest)) is not None, "removeAllColliders removes the colliders of its body", A.at(cs[0]), " ".join(cs[0].rest)[:160])
    # joints
    cs = [c for c in D.calls if c.n == "dtor" and "Joint" in c.cls or c.n == "destroyJoint"]
    if rep.check(bool(cs), "a destroyed body loses its joints", w):
        c = cs[0]; n += 2
        emptied(rep, P, D, c, ("getJoints",), r"getJoints'?\(<?this\.mRigidBodyComponents>?; <?E#", "a destroyed body loses all its joints")
        rep.check(c.k < first, "a body loses its joints while its rows are there", D.at(c), "after the removal of a row")
    # bodies of the world
    A = Scope(P, "PhysicsWorld", "dtor", lambda g: g.cls in ("PhysicsWorld", ""), [], rep); n += 1
    cs = [c for c in A.calls if c.n == "dtor" and c.cls == "RigidBody"]
    if rep.check(len(cs) == 1, "a destroyed world destroys its bodies", A.fn.where(), str(len(cs))):
        emptied(rep, P, A, cs[0], ("mRigidBodies",), r"this\.mRigidBodies", "a destroyed world destroys all its bodies")
    return n

def freed(P, rep, S):
    """the bodies of a destroyed joint are woken and may collide again"""
    D = S["joint"][1]; w = D.fn.where(); n = 0
    jrow = [c for c in D.calls if c.n == "removeComponent" and c.recv.endswith("mJointsComponents")]
    for k in (1, 2):
        cs = [c for c in D.calls if c.recv == "B%d#" % k and (c.n == "setIsSleeping" and c.rest and c.rest[0] in ("0", "false"))]; n += 1
        if rep.check(bool(cs), "destroying a joint wakes body %d" % k, w):
            rep.check(any(not D.guards(c) for c in cs), "destroying a joint wakes body %d whatever the state" % k, D.at(cs[0]), str([t[:120] for t, _ in D.guards(cs[0])]))
            rep.check(any(not jrow or c.k < jrow[0].k for c in cs), "the bodies of a joint are woken while it exists", D.at(cs[0]))
    cs = [c for c in D.calls if c.n == "removeNoCollisionPair"]; n += 1
    ask = [c for c in D.calls if c.n == "askForBroadPhaseCollisionCheck" and c.recv in ("B1#", "B2#")]
    for c in cs:
        rep.check(any(set(a.guards) <= set(c.guards) and a.k > c.k for a in ask), "the bodies of a destroyed joint are looked up in the broad phase again", D.at(c), "no broad-phase request where the exclusion ends")
        rep.check(not jrow or c.k < jrow[0].k, "the exclusion is lifted while the joint exists", D.at(c))
    return n

def collider_gone(P, rep, S):
    D = S["collider in the collision detection"][1]; w = D.fn.where(); it = D.it; n = 0
    bp = [c for c in D.calls if c.cls == "BroadPhaseSystem" and c.n == "removeCollider"]
    cs = [c for c in D.calls if c.cls == "OverlappingPairs" and c.n == "removePair"]; n += 2
    if rep.check(len(cs) == 1, "the overlapping pairs of a removed collider are removed", w, str(len(cs))):
        emptied(rep, P, D, cs[0], ("getOverlappingPairs",), r"getOverlappingPairs'?\(<?this\.mCollidersComponents>?; <?E#", "all overlapping pairs of a removed collider are removed")
    cs = [c for c in D.calls if c.cls == "Array" and LEAVE.match(c.n) and c.recv == "this.mLostContactPairs"]; n += 4
    if rep.check(bool(cs), "the unreported lost contacts of a removed collider are forgotten", w):
        c = cs[0]; g = nonloop(it, c); r = loop_range(it, c.loops[-1], c.guards) if c.loops else ("none",)
        for a in (0, 1):
            for b in (0, 1):
                env = NEnv(it, Names(it), [(r"operator==\(.*collider1Entity.*", a), (r"operator==\(.*collider2Entity.*", b), (r"operator!=\(.*collider1Entity.*", 1 - a), (r"operator!=\(.*collider2Entity.*", 1 - b)])
                h = holds(it, g, env)
                rep.check(h is bool(a or b), "a lost contact is forgotten exactly if it is one of the removed collider", D.at(c), "first collider removed: %d, second: %d -> forgotten: %s" % (a, b, h))
        if r[0] == "down":
            start = full_text(it.I, pkey(r[2])); low = r[3]; idx = full_text(it.I, c.args[1].key())
            first = re.match(r"^(-1 \+ )?Array<[^;]*>::size\(<?this\.mLostContactPairs>?\)$", start) or re.match(r"^Array<[^;]*>::size\(<?this\.mLostContactPairs>?\)( \+ -1)?$", start)
            rep.check(first is not None and isconst(low) and cval(low) == (0 if start.startswith("-1") else 1), "all lost contacts are looked at", D.at(c), "from %s down to %s" % (start[:80], pkey(low) or "0"))
            rep.check(("-1 +" in idx) != start.startswith("-1") and (c.n in ("removeAt", "removeAtAndReplaceByLast")), "the lost contact looked at is the one forgotten", D.at(c), idx[:80])
        elif r[0] in ("each",): rep.check(False, "all lost contacts are looked at", D.at(c), "the list loses elements while it is walked")
    # the id of the collider is read while it has one
    for name in ("collider in the collision detection", "collider in the broad phase"):
        D = S[name][1]
        last = [c.k for c in D.calls if c.cls == "BroadPhaseSystem" and c.n == "removeCollider" or c.n == "setBroadPhaseId"]
        for c in D.calls:
            if c.n == "getBroadPhaseId" and last:
                n += 1; rep.check(c.k < last[0], "the broad-phase id of a collider is read before it is reset", D.at(c), "%s reads it afterwards" % D.nm)
        if name.endswith("broad phase"):
            cs = [c for c in D.calls if c.n == "setBroadPhaseId"]; n += 1
            rep.check(len(cs) == 1 and not cs[0].guards and cs[0].rest and strip(cs[0].rest[-1]) == "-1" and "E#" in cs[0].rest[0], "a removed collider has no broad-phase id", D.fn.where(), str([c.rest for c in cs])[:160])
    return n

def lists(P, rep):
    """the elementary lists: what is put in is what is taken out, from the same list"""
    n = 0
    for cls, a, r in (("BodyComponents", "addColliderToBody", "removeColliderFromBody"), ("RigidBodyComponents", "addJointToBody", "removeJointFromBody"), ("CollisionShape", "addCollider", "removeCollider")):
        out = []
        for nm, kind in ((a, "add"), (r, "remove")):
            fn = P.method(cls, nm); rep.analysed(fn); T = MTrace(P, fn, lambda g: g.cls == cls or g.cls == "Components"); n += 1
            cs = [c for c in T.calls if c.cls == "Array" and (c.n in ("add", "emplace") if kind == "add" else LEAVE.match(c.n))]
            if not rep.check(len(cs) == 1 and not [g for g in cs[0].guards if not g[0].startswith("L:")] or bool(cs) and kind == "remove" and cs[0].n != "remove", "%s::%s changes its list whatever the state" % (cls, nm), fn.where(), str([[full_text(T.it.I, g[0])[:100] for g in c.guards] for c in cs])): continue
            c = cs[0]; pos = {p["n"]: k for k, p in enumerate(fn.ps)}
            f = lambda t: re.sub(r"\$(\w+)", lambda m: "$%d" % pos.get(m.group(1), 99), strip(full_text(T.it.I, t.key())))
            out.append((f(c.args[0]), f(c.args[1]) if c.n in ("add", "emplace", "remove") else None, c))
            want = "$%d" % (len(fn.ps) - 1)
            rep.check(out[-1][1] in (want, None), "%s::%s is about the one given" % (cls, nm), fn.where(c.node), str(out[-1][1]))
            rep.check(len(fn.ps) < 2 or "$0" in out[-1][0], "%s::%s changes the list of the one given" % (cls, nm), fn.where(c.node), out[-1][0][:100])
        if len(out) == 2: rep.check(out[0][0] == out[1][0], "%s: what is added to a list is removed from it" % cls, out[1][2].fn.where(out[1][2].node), "%s, %s" % (out[0][0][:80], out[1][0][:80]))
    # entities
    fn = P.method("EntityManager", "destroyEntity"); rep.analysed(fn); T = MTrace(P, fn, lambda g: g.cls in ("Entity", "EntityManager")); it = T.it; n += 2; p = fn.ps[0]["n"]
    cs = [c for c in T.calls if c.cls == "Deque" and c.n == "addBack" and strip(full_text(it.I, c.args[0].key())) == "this.mFreeIndices"]
    rep.check(len(cs) == 1 and not cs[0].guards, "the index of a destroyed entity is queued for reuse once, at the end", fn.where(), str([[g[0][:80] for g in c.guards] for c in cs]))
    ev = [e for e in it.events if e.path[0] == "this" and len(e.path) > 1 and e.path[1].startswith("mGenerations")]
    ok = len(ev) == 1 and not ev[0].guards and isinstance(ev[0].new, Sc) and isinstance(ev[0].old, Sc) and isconst(psub(ev[0].new.p, ev[0].old.p)) and cval(psub(ev[0].new.p, ev[0].old.p)) == 1
    rep.check(ok or any(c.node.get("n") == "operator++" for c in T.calls), "the generation of a destroyed entity is increased", fn.where(), str([e.new.key()[:80] for e in ev]))
    if ok and cs: rep.check(pstr(ev[0].path)[len("this.mGenerations["):].rstrip("]").strip("<>") == cs[0].args[1].key().strip("<>"), "the generation and the index are those of the destroyed entity", fn.where(), "%s, %s" % (pstr(ev[0].path), cs[0].args[1].key()))
    fn = P.method("EntityManager", "createEntity"); rep.analysed(fn); T = MTrace(P, fn, lambda g: g.cls in ("Entity", "EntityManager")); it = T.it; n += 1
    q = lambda names: [c for c in T.calls if c.cls == "Deque" and c.n in names and strip(full_text(it.I, c.args[0].key())) == "this.mFreeIndices"]
    take, drop = q(("getFront", "operator[]")), q(("popFront",))
    rep.check(len(drop) == 1 and all(set(c.guards) == set(drop[0].guards) and c.k < drop[0].k for c in take), "an index that is used again leaves the queue", fn.where(), "taken %d times, removed %d times" % (len(take), len(drop)))
    return n

def check_P09(P, rep):
    S = {}; n = 0
    for what, a, d in peers(P):
        S[what] = (Scope(P, *a, rep), Scope(P, *d, rep)); n += pairing(rep, what, *S[what]) + ordering(P, rep, what, S[what][1])
        if what in ("rigid body", "joint", "collider"): n += ended(rep, what, *S[what])
    rep.count("entries_paired", n); rep.need(n, 40, "entries and rows")
    n = dependents(P, rep, S) + freed(P, rep, S) + collider_gone(P, rep, S) + lists(P, rep)
    m, units = tables(P, rep); n += m + removals(P, rep, units) + infos(P, rep, units) + departures(P, rep) + exclusions(P, rep)
    for c in columns.tables(P):
        C = columns.columns(P, c); columns.forgets(P, rep, c, C, columns.entity_column(P, c, C)); n += 1
    columns.removal(P, rep)
    rep.count("cases_evaluated", n); rep.need(n, 90, "cases")

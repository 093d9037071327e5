"""P08: blocks go back once, to their allocator, with their size, after the object in them was destroyed.
P22: refused meshes leave nothing behind."""
import re
from ..model import walk, show, load
from ..terms import *
from ..effects import base_type
from ..api import rowname, truth, holds, enum
from ..trace import Trace, loop_range
from .filtering import base, txt

ALLOCATORS = ("MemoryAllocator", "MemoryManager", "DefaultAllocator", "HeapAllocator", "PoolAllocator", "SingleFrameAllocator")
CONTAINERS = ("Array", "Map", "Set", "Deque", "Stack", "LinkedList", "Pair", "Islands")

class MemInterp(Interp):
    """allocations are fresh blocks; .blocks and .frees list the traffic with the allocators in program order"""
    def __init__(self, *a, **k):
        super().__init__(*a, **k); self.blocks = []; self.frees = []; self.dtors = []
    def hook(self, x, fn, st):
        n = x.get("n")
        full = fn.cls if fn is not None else x.get("cls") or ""
        cls = base(full)
        if cls in ALLOCATORS and n in ("allocate", "release"):
            args = x.get("a") or []; o = x.get("o")
            ov = self.ev_ref(o, st) if o is not None else None
            vs = [self.ev(a, st) for a in args]
            kind = "member"
            if vs and re.match(r"#MemoryManager::AllocationType::", vs[0].key()): kind = vs[0].key().split("::")[-1]; vs = vs[1:]
            e = Block(); e.kind = kind; e.alloc = pstr(ov.path) if isinstance(ov, Ptr) else ov.key() if ov is not None else "?"
            e.guards = tuple(self.guards); e.loops = tuple(self.loops); e.node = x; e.fn = self.stack[-1]; e.seq = len(self.events); e.ncall = len(self.calls); e.at = self.order(); e.nreads = len(self.reads)
            if n == "allocate":
                self.fresh += 1; e.size = vs[-1]; e.path = ("block%d" % self.fresh,); self.blocks.append(e); return Ptr(e.path)
            e.ptr = vs[0]; e.size = vs[-1]; e.static = static_type(args[-2]); self.frees.append(e); return Sc(ZERO)
        if n == "dtor" and x.get("o") is not None and cls not in ("Array",):
            e = Block(); e.ptr = self.ev(x["o"], st) if x["o"].get("t", "").endswith("*") else self.ev_ref(x["o"], st)
            e.guards = tuple(self.guards); e.loops = tuple(self.loops); e.node = x; e.fn = self.stack[-1]; e.cls = full; e.seq = len(self.events); e.ncall = len(self.calls); e.at = self.order(); e.nreads = len(self.reads)
            self.dtors.append(e)
        return None
    def order(self): self.tick = getattr(self, "tick", 0) + 1; return self.tick
class Block: pass

def static_type(a):
    while isinstance(a, dict) and base_type(a.get("t", "")).strip(" *") in ("void", "") and (a.get("k") in ("cast", "icast", "paren") or a.get("k", "").startswith("cast")) and a.get("a"): a = a["a"][0]
    return (a.get("t") or "").replace("const ", "")

class MTrace(Trace):
    def __init__(self, P, fn, inline, maxterms=120, depth=14):
        self.P = P; self.fn = fn
        self.it = MemInterp(P, lambda f: not inline(f), maxterms=maxterms, depth=depth, mapname=rowname)
        self.ret = self.it.run(fn); self.calls = []
        for k, e in enumerate(self.it.calls):
            f = P.fns.get(e.path[0]); c = Block(); c.ev = e; c.k = k; c.guards = e.guards; c.loops = e.loops; c.args = e.old; c.node = e.node; c.fn = e.fn; c.chain = e.chain
            c.f = e.path[0]; c.cls = (f.cls if f else e.node.get("cls", "")).split("<")[0]; c.n = f.n if f else e.node.get("n")
            self.calls.append(c)

GA = "::GLOBAL_ALIGNMENT"
def matters(P, c, seen=()):
    """destroying an object of the class does something"""
    if c not in P.classes or c in seen: return False
    k = P.classes[c]
    if k.get("trivdtor") is True: return False
    for b in P.bases(c):
        for m in P.classes.get(b, {}).get("methods", []):
            f = P.fns.get(m["f"])
            if m["n"] == "dtor" and f is not None and f.body is not None and f.body.get("s"): return True
        for fl in P.classes.get(b, {}).get("fields", []):
            t = fl["t"].replace("const ", "")
            if fl.get("ptr") or t.endswith(("*", "&")) or fl.get("scalar") or fl.get("trivdtor"): continue
            if base(t) in CONTAINERS or not base(t) in P.classes: return True
            if matters(P, base(t), seen + (c,)) or matters(P, t, seen + (c,)): return True
    return False

class Sizes:
    """sizes with the constants of the library replaced by what they are initialised with"""
    def __init__(self, P):
        self.P = P; self.it = Interp(P, lambda f: True, maxterms=60); self.cache = {}; self.ctors = {}
    def poly(self, it, v, T=None, d=0):
        if not isinstance(v, Sc) or d > 6: return None
        out = {}
        for m, c in v.p.items():
            q = const(c)
            for a in m: q = pmul(q, self.atom(it, a, T, d))
            out = padd(out, q)
        return out
    def atom(self, it, a, T, d):
        P = self.P
        if a.startswith("::") and a != GA:
            x = P.vars.get(a[2:])
            if x and x.get("const") and isinstance(x.get("i"), dict):
                if a not in self.cache: self.cache[a] = self.it.ev(x["i"], {"env": {}, "fr": 0, "ret": None, "fn": None, "base": 0, "exits": []})
                p = self.poly(self.it, self.cache[a], T, d + 1)
                if p is not None: return p
        f = re.match(r"^(?:this|.*)\.(\w+)$", a)
        if f and self.owner and a == "this." + f.group(1):
            v = self.ctorvalue(self.owner, f.group(1))
            if v is not None: return v
        inf = it.I.info.get(a)
        if inf and inf[0] == "app":
            n = inf[1].split("::")[-1]
            if T and inf[2]:
                g = self.P.method(T, n, required=False)
                if g is not None and g.body is not None:
                    i2 = Interp(self.P, lambda f: True, maxterms=60); r = i2.run(g); p = self.poly(i2, r, None, d + 1)
                    if p is not None and isconst(p): return p
            vs = [self.poly(it, x, T, d + 1) for x in inf[2]]
            if vs and None not in vs:
                return atom(self.it.I.name("%s(%s)" % (inf[1], "; ".join(Sc(x).key() for x in vs)), ("app", inf[1], [Sc(x) for x in vs])))
        return atom(a)
    owner = None
    def ctorvalue(self, cls, field):
        """value of a field that only the constructor of cls writes, in terms of constants"""
        from .persist import constructed
        if cls not in self.ctors:
            w = {}
            cs = [f for f in self.P.fns.values() if f.cls == cls and f.n == "ctor" and f.body is not None and f.inits]
            if len(cs) == 1:
                it, vals = constructed(self.P, cs[0])
                for k, v in vals.items():
                    old, self.owner = self.owner, None
                    p = self.poly(it, v); self.owner = old
                    if p is not None and all(x == GA or x.startswith(("ceil(", "inv(", "floor(")) for m in p for x in m): w[k] = p
                for f in self.P.fns.values():
                    if f.cls == cls and f.n != "ctor" and f.body is not None:
                        for x in walk(f.body):
                            if isinstance(x, dict) and x.get("k") == "bin" and x.get("op", "").endswith("=") and x["op"] not in ("==", "!=", "<=", ">="):
                                l = x["a"][0]
                                if l.get("k") == "mem": w.pop(l.get("n"), None)
            self.ctors[cls] = w
        return self.ctors[cls].get(field)
    def text(self, it, v, owner=None, T=None):
        self.owner = owner
        p = self.poly(it, v, T); self.owner = None
        return None if p is None else Sc(p).key()

def interpreted(P, want=None):
    """(function, MTrace) of the functions that trade with allocators or destroy objects, own class and free helpers inlined"""
    done = set()
    for k, f in sorted(P.fns.items(), key=lambda x: (x[1].cls or "", x[1].n, x[0])):
        if f.body is None: continue
        own = base(f.cls)
        if own in ALLOCATORS or own in CONTAINERS: continue
        if not any(isinstance(x, dict) and (x.get("k") == "call" and x.get("n") in ("allocate", "release", "dtor") or x.get("k") == "new") for x in walk(f.body)): continue
        if f.cls.endswith("Components") and f.n in ("destroyComponent", "moveComponentToIndex", "swapComponents", "addComponent"): continue   # elements of the columns: P06
        yield f, MTrace(P, f, lambda g, own=own: base(g.cls) in (own, "") and g.cls == f.cls or g.cls == "")

def rounded(size): return "%s*ceil(%d*inv(%s))" % (GA, size, GA)

def sameguards(a, b): return set(a) == set(b)
def exclusive(a, b): return any((n, not p) in set(b) for n, p in a)

def objects(P, rep):
    S = Sizes(P); made = {}; facts = []
    for f, T in interpreted(P):
        it = T.it; rep.analysed(f)
        if it.blocks or it.frees or it.dtors: facts.append((f, T))
        for t, pl, path, guards, loops, node, nc in it.news:
            bl = next((b for b in it.blocks if isinstance(pl, Ptr) and pl.path == b.path), None)
            if bl is None: continue
            t = t.replace("const ", ""); size = P.classes.get(t, {}).get("size")
            if size is None: continue
            s = S.text(it, bl.size, f.cls); w = "%s:%s" % (f.file, node.get("l"))
            rep.check(s in (str(size), rounded(size)), "a %s is created in a block of its size (%s)" % (t, f.cls + "::" + f.n), w, "the block has %s bytes, a %s has %d" % (s, t, size))
            made.setdefault(t, []).append((bl, s, f, T, path))
            rep.count("objects created")
            # somebody keeps it
            p = pstr(path); kept = txt(it, T.ret) if T.ret is not None else ""
            kept = p in kept or any(p in e.new.key() for e in it.events if e.path != path and e.new is not None and hasattr(e.new, "key")) or any(p in v.key() for c in T.calls[nc:] for v in c.args if hasattr(v, "key") and c.n != "dtor")
            rep.check(kept, "the %s created by %s is returned or kept" % (t, f.cls + "::" + f.n), w)
    rep.need(sum(map(len, made.values())), 25, "objects created in allocated blocks")
    for f, T in facts:
        it = T.it; own = f.cls
        for r in it.frees:
            t = r.static.rstrip("* ").replace("const ", "") if r.static.count("*") == 1 else ""
            cands = [c for c in made if c == t or t in P.bases(c)]
            cands = [c for c in cands if not excluded(P, it, r, c)]
            if not cands: continue
            rep.count("objects released"); w = "%s:%s" % (r.fn.file, r.node.get("l")); nm = "%s in %s" % (t, f.cls + "::" + f.n)
            for c in cands:
                for bl, s, f0, T0, _ in made[c]:
                    rep.check(bl.kind == r.kind, "%s: back to the allocator it came from" % nm, w, "%s blocks come from %s (%s), this goes to %s" % (c, bl.kind, f0.cls + "::" + f0.n, r.kind))
                    if bl.kind == r.kind == "member": rep.check(sameallocator(P, f0, T0, bl, f, r), "%s: back to the allocator object it came from" % nm, w, "%s against %s" % (bl.alloc, r.alloc))
                    q = S.text(it, r.size, own, c)
                    rep.check(q == s, "%s: released with the size it was allocated with" % nm, w, "a %s is allocated with %s bytes (%s) and released with %s" % (c, s, f0.cls + "::" + f0.n, q))
            pk = r.ptr.key()
            ds = [d for d in it.dtors if d.ptr.key() == pk and not exclusive(d.guards, r.guards)]
            if any(matters(P, c) for c in cands): rep.check(len(ds) == 1 and sameguards(ds[0].guards, r.guards) and [id(l[1]) for l in ds[0].loops] == [id(l[1]) for l in r.loops] and ds[0].at < r.at,
                "%s: destroyed exactly once, before its block is released" % nm, w, "%d destructor calls" % len(ds))
            else: rep.check(len(ds) <= 1 and all(d.at < r.at for d in ds), "%s: destroyed at most once, before its block is released" % nm, w)
            again = [q for q in it.frees if q is not r and q.ptr.key() == pk and q.at > r.at and not exclusive(q.guards, r.guards) and not reassigned(it, r, q)]
            rep.check(not again, "%s: released once" % nm, w, "released again at %s" % [q.node.get("l") for q in again])
            if isinstance(r.ptr, Ptr) and len(r.ptr.path) == 1 and r.ptr.path[0].startswith(("$", "new")):
                late = [x for x in it.reads[r.nreads:] if x[0][0] == r.ptr.path[0] and len(x[0]) > 1 and not exclusive(x[3], r.guards)]
                rep.check(not late, "%s: not read after its block is released" % nm, w, "reads %s" % [pstr(x[0]) for x in late[:3]])
        for d in it.dtors:
            cands = [c for c in made if c == d.cls or d.cls in P.bases(c)]
            if not cands or f.n == "dtor" and d.cls in P.bases(f.cls): continue
            if isinstance(d.ptr, Ptr) and any(s.startswith("[") for s in d.ptr.path[-1:]) and not any(r.ptr.key() == d.ptr.key() for r in it.frees) and base_container(it, d): continue
            rep.check(any(r.ptr.key() == d.ptr.key() and r.at > d.at and sameguards(r.guards, d.guards) for r in it.frees), "%s: the block of the destroyed %s is released" % (f.cls + "::" + f.n, d.cls), "%s:%s" % (d.fn.file, d.node.get("l")))
    freed = {c for f, T in facts for r in T.it.frees for c in made if r.static.count("*") == 1 and (c == r.static.rstrip("* ") or r.static.rstrip("* ") in P.bases(c))}
    for c in sorted(made): rep.check(c in freed, "something releases the objects of class %s" % c, "%s" % made[c][0][2].where())
    rep.need(rep.counts.get("objects released", 0), 30, "releases of objects")
    return made, facts

def shapename(P, c):
    """the name constant a shape class passes to its base"""
    for f in P.fns.values():
        if f.cls == c and f.n == "ctor":
            for i in f.inits or []:
                if i.get("base"):
                    for x in walk(i.get("e")):
                        if isinstance(x, dict) and x.get("k") == "enum" and (x.get("n") or "").startswith("CollisionShapeName::"): return "#" + x["n"]
    return None
def excluded(P, it, r, c):
    """the conditions under which r is released do not hold for an object of class c"""
    n = shapename(P, c)
    if n is None: return False
    env = {}
    for g, p in r.guards:
        inf = it.I.info.get(g)
        if not inf: continue
        for q in inf[1:]:
            if isinstance(q, Sc): q = q.p
            if isinstance(q, dict):
                for m in q:
                    for a in m:
                        k = it.I.info.get(a)
                        if k and k[0] == "app" and k[1].endswith("::getName") and k[2] and r.ptr.key().strip("<>&") in full_text(it.I, a): env[a] = enum(n)
                        elif a.startswith("#"): env[a] = enum(a)
    return holds(it, [g for g in r.guards if not g[0].startswith("L:")], env) is False

def base_container(it, d): return False
def reassigned(it, r, q): return any(e.seq > r.seq for e in it.events[r.seq:q.seq] if pstr(e.path) in r.ptr.key()) if r.seq < q.seq else False

def sameallocator(P, f0, T0, bl, f, r):
    a, b = bl.alloc, r.alloc
    if f0.cls == f.cls:
        if a == b: return True
        from .persist import constructed
        if f0.n == "ctor" and a.startswith("$") and b.startswith("this."):
            v = constructed(P, f0)[1].get(b[5:]); return v is not None and a in v.key()
        return False
    # handed over with the pointer
    if a.startswith("$"):
        p = a[1:]
        return any(any(isinstance(v, (Ptr, Op)) and re.search(r"(^|[<&*])\$%s\b|^%s" % (p, re.escape(a)), v.key()) for v in c.args) or any("!" in v.key() for v in c.args if hasattr(v, "key")) for c in T0.calls if c.k >= bl.ncall)
    return False

class Positive(dict):
    """every field of the object is positive or not null"""
    def __contains__(self, k): return isinstance(k, str) and k.strip("<>&*").startswith("this.") and not re.search(r"[;(]", k)
    def __init__(self, v=3): super().__init__(); self.v = v
    def __getitem__(self, k): return self.v

def implied(it, need, have):
    """the conditions hold whenever the others do and the fields are positive"""
    have = set(have)
    return all(g in have or all(truth(it, g[0], Positive(v)) is g[1] for v in (1, 2, 3, 8, 1000)) for g in need)

def equalities(it, guards):
    out = []
    for n, p in guards:
        i = it.I.info.get(n)
        if p and i and i[0] == "cmp" and i[1] == "==": out.append(i[2].p if isinstance(i[2], Sc) else i[2])
        if not p and i and i[0] == "not":   # !(a < b) and so on say nothing exact
            pass
    return out
def samesize(it, a, b, guards):
    """equal polynomials, possibly after using an equality among the conditions"""
    d = psub(a, b)
    if not d: return True
    for e in equalities(it, guards):
        m = next(iter(e), None)
        if m is None: continue
        for m2, c in d.items():
            k = c / e[m] if e[m] and m2 == m else None
            if k is not None and not psub(d, {x: y * k for x, y in e.items()}): return True
    return False

def subst(p, vals):
    out = {}
    for m, c in p.items():
        q = const(c)
        for a in m: q = pmul(q, vals[a] if a in vals else atom(a))
        out = padd(out, q)
    return out

def fieldsof(p): return {a for m in p for a in m if re.match(r"^this\.\w+$", a)}

def private(P, f):
    """only methods of its own class call it"""
    cs = [c for c, _ in P.callers().get(f.f, ())]
    return f.acc in ("private", "protected") and bool(cs) and all(base(c.cls) == base(f.cls) for c in cs)

def traces_of(P, cls, cache={}):
    key = (id(P), cls)
    if key not in cache:
        bs = set(P.bases(cls)); out = []
        for f in P.fns.values():
            if f.body is None or f.cls != cls: continue
            T = MTrace(P, f, lambda g: g.cls in bs or g.cls == "")
            if T.it.blocks or T.it.frees or f.n in ("dtor",) or any(e.path[0] == "this" for e in T.it.events): out.append((f, T))
        cache[key] = out
    return cache[key]

def buffers(P, rep, made):
    """(class, field) -> size of its raw buffer, from the releases"""
    cands = {}
    for f in P.fns.values():
        if f.body is None or not f.cls or base(f.cls) == "PhysicsCommon": continue
        if any(isinstance(x, dict) and x.get("k") == "call" and x.get("n") == "release" and base(x.get("cls") or "") in ALLOCATORS for x in walk(f.body)): cands.setdefault(base(f.cls), set()).add(f.cls)
    classes = []
    for b, cs in sorted(cands.items()):
        cs = sorted(cs)
        # one instantiation stands for a template: the element type takes part in the size only; the one with most methods
        if b in CONTAINERS: cs = sorted(cs, key=lambda c: (-len([1 for f in P.fns.values() if f.cls == c and f.body is not None]), c))[:1]
        for c in cs: classes.append(c)
    if "Components" in classes: classes += sorted(c for c in P.subclasses("Components") if c not in classes)
    total = 0
    for c in classes: total += buffers_of(P, rep, c, made)
    rep.count("buffers", total)
    rep.need(total, 16, "buffers kept in fields")

def buffers_of(P, rep, cls, made):
    trs = traces_of(P, cls); S = {}; bases_ = P.bases(cls)
    objs = {c for c in made} | {b for c in made for b in P.bases(c)}
    dt = [b for b in bases_ if P.bymeth.get((b, "dtor"))]
    extra = []
    for b in bases_[1:] if len(bases_) > 1 else []:
        for f in P.bymeth.get((b, "dtor"), []):
            if f.body is not None: extra.append((f, MTrace(P, f, lambda g: g.cls in set(bases_) or g.cls == "")))
    for f, T in trs + extra:
        for r in T.it.frees:
            if isinstance(r.ptr, (Ptr, Op, Sc)):
                m = re.match(r"^[<&*]*(this\.\w+)>?$", r.ptr.key())
                if m and isinstance(r.size, Sc) and r.static.rstrip("* ") not in objs: S.setdefault(m.group(1), []).append((f, T, r))
    n = 0
    for F, rs in sorted(S.items()):
        n += 1; fld = F.split(".")[1]; nm = "%s.%s" % (base(cls), fld)
        # the size formula: the one the destructor uses, else the first
        ref = next((x for x in rs if x[0].n == "dtor"), rs[0]); s = ref[2].size.p; kind = ref[2].kind; al = ref[2].alloc
        for f, T, r in rs:
            w = "%s:%s" % (r.fn.file, r.node.get("l"))
            rep.check(samesize(T.it, r.size.p, s, r.guards), "%s: one size formula in all releases (%s)" % (nm, f.n), w, "%s against %s" % (r.size.key(), Sc(s).key()))
            rep.check(r.kind == kind and r.alloc == al, "%s: always back to the same allocator (%s)" % (nm, f.n), w, "%s %s against %s %s" % (r.kind, r.alloc, kind, al))
            if f.n != "dtor" and kind != "Frame":
                rep.check(any(pstr(e.path) == F and implied(T.it, e.guards, r.guards) for e in T.it.events), "%s: replaced or forgotten once released (%s)" % (nm, f.n), w)
        for f, T in trs:
            it = T.it
            st = [(i, e) for i, e in enumerate(it.events) if pstr(e.path) == F]
            for j, (i, e) in enumerate(st):
                nxt = next((i2 for i2, e2 in st[j + 1:] if not exclusive(e2.guards, e.guards)), len(it.events)); w = "%s:%s" % (f.file, (e.node or {}).get("l"))
                bl = [b for b in it.blocks if isinstance(e.new, Ptr) and e.new.path[:1] == b.path]
                if bl:
                    bl = bl[0]; vals = {}
                    for g in fieldsof(s):
                        v = [x.new for x in it.events[:nxt] if pstr(x.path) == g and sameguards(x.guards, e.guards)] or [x.new for x in it.events[:nxt] if pstr(x.path) == g and not exclusive(x.guards, e.guards)]
                        if v and isinstance(v[-1], Sc): vals[g] = v[-1].p
                    got = bl.size.p if isinstance(bl.size, Sc) else {}
                    rep.check(samesize(it, subst(s, vals), got, e.guards), "%s: allocated with the size it will be released with (%s)" % (nm, f.n), "%s:%s" % (bl.fn.file, bl.node.get("l")), "allocated %s, released %s" % (bl.size.key(), Sc(subst(s, vals)).key()))
                    rep.check(bl.kind == kind and (bl.alloc == al or f.n == "ctor"), "%s: allocated from the allocator it goes back to (%s)" % (nm, f.n), w, "%s %s against %s %s" % (bl.kind, bl.alloc, kind, al))
                    rep.count("buffer allocations")
                if f.n == "ctor": continue
                old = e.old.key().strip("<>&*") if hasattr(e.old, "key") else ""
                if old == F and not (hasattr(e.new, "key") and e.new.key().strip("<>&*") == F):
                    if kind == "Frame": continue   # the frame ends with the step
                    if private(P, f): continue     # decided in its callers
                    ok = any(r.ptr.key().strip("<>&*") == F and implied(it, r.guards, e.guards) for r in it.frees) or any(truth(it, g[0], Positive()) is (not g[1]) for g in e.guards) or f.n in ("dtor",)
                    rep.check(ok, "%s: the old buffer is released before it is replaced (%s)" % (nm, f.n), w)
            for e in it.events:
                if pstr(e.path) in fieldsof(s) and f.n not in ("ctor", "dtor"):
                    if hasattr(e.new, "key") and e.new.key() == pstr(e.path): continue
                    rep.check(any(not exclusive(x.guards, e.guards) for _, x in st), "%s: its size changes only together with it (%s writes %s)" % (nm, f.n, pstr(e.path)), "%s:%s" % (f.file, (e.node or {}).get("l")))
        ds = [(f, T) for f, T in trs + extra if f.n == "dtor"]
        if kind != "Frame":
            known = {F2 for F2 in S} | {a for rs2 in S.values() for x in rs2 for a in fieldsof(x[2].size.p)}
            rep.check(any(r.ptr.key().strip("<>&*") == F and implied(T.it, r.guards, ()) and all(a.strip("<>&*") in known for g in r.guards for a in leaves_cond(T.it, g[0])) for f, T in ds for r in T.it.frees), "%s: released by the destructor" % nm, "%s" % (ds[0][0].where() if ds else cls))
    return n

def bare(v): return v.key().strip("<>&") if hasattr(v, "key") else None

def registry(P, rep, made):
    """rule C: what PhysicsCommon creates is in the set of its class until it is destroyed, and everything in a set is destroyed with PhysicsCommon"""
    cls = "PhysicsCommon"; sets = {}
    for f in P.classes[cls]["fields"]:
        m = re.match(r"^(?:reactphysics3d::)?Set<(?:reactphysics3d::)?(\w+) \*", f["t"])
        if m and m.group(1) in made: sets[("this", f["n"])] = m.group(1)     # the profilers are compiled out
    rep.need(len(sets), 10, "sets of created objects")
    fns = [g for g in P.fns.values() if g.cls == cls and g.body is not None]
    inl = lambda g: g.cls == cls or g.cls == ""
    kept = {p: 0 for p in sets}; gone = {p: 0 for p in sets}
    def ops(T, n): return [c for c in T.calls if c.n == n and c.cls == "Set" and c.args and setof(c) in sets]
    def setof(c): return tuple(c.args[0].key().strip("<>&").split(".")) if hasattr(c.args[0], "key") else None
    for f in sorted(fns, key=lambda f: f.f):
        if f.acc == "private" or f.n in ("ctor", "dtor"): continue
        T = MTrace(P, f, inl); it = T.it; rep.analysed(f); w = f.where(); nm = "%s::%s" % (cls, f.n)
        adds = ops(T, "add"); rems = ops(T, "remove")
        for t, pl, path, guards, loops, node, nc in it.news:
            t = t.replace("const ", "")
            if t not in sets.values(): continue
            mine = [a for a in adds if len(a.args) > 1 and isinstance(a.args[1], Ptr) and a.args[1].path == path]
            dead = [d for d in it.dtors if isinstance(d.ptr, Ptr) and d.ptr.path == path]
            if not rep.check(len(mine) == 1, "%s: the new %s is added to one set" % (nm, t), w, "%d" % len(mine)): continue
            a = mine[0]; kept[setof(a)] += 1; rep.count("objects registered")
            rep.check(sets[setof(a)] == t, "%s: a %s is added to the set of its class" % (nm, t), w, str(setof(a)))
            extra = [g for g in a.guards if g not in guards]
            ok = all(any((g[0], not g[1]) in d.guards for d in dead) for g in extra)
            rep.check(ok, "%s: the %s is added whenever it is kept" % (nm, t), w, "only if %s" % [full_text(it.I, g[0])[:120] for g in extra])
        for d in it.dtors:
            if not isinstance(d.ptr, Ptr) or not d.ptr.path[0].startswith("$") or len(d.ptr.path) != 1: continue
            if d.cls not in sets.values(): continue
            mine = [r for r in rems if len(r.args) > 1 and bare(r.args[1]) == bare(d.ptr)]
            if not rep.check(len(mine) == 1 and sets[setof(mine[0])] == d.cls, "%s: a destroyed %s leaves the set of its class" % (nm, d.cls), w, "removed from %s" % [setof(r) for r in mine]): continue
            gone[setof(mine[0])] += 1; rep.count("objects unregistered")
            rep.check(set(mine[0].guards) == set(d.guards), "%s: leaves the set whenever it is destroyed" % nm, w)
        for r in rems:
            rep.check(any(bare(d.ptr) == bare(r.args[1]) for d in it.dtors), "%s: what leaves the set is destroyed" % nm, w)
    for p in sets:
        rep.check(kept[p] > 0, "objects of class %s are registered" % sets[p], pstr(p)); rep.check(gone[p] > 0, "objects of class %s can be destroyed one by one" % sets[p], pstr(p))
    f = next(g for g in fns if g.n == "dtor"); T = MTrace(P, f, inl); it = T.it; w = f.where(); at = {}; rep.analysed(f)
    for p, t in sets.items():
        fld = pstr(p)
        mine = [d for d in it.dtors if d.cls == t and d.loops and re.search(re.escape(fld) + r"\b", full_text(it.I, d.ptr.key()))]
        if not rep.check(len(mine) == 1, "PhysicsCommon::~PhysicsCommon destroys every %s" % t, w, "%d destructions of the elements of %s" % (len(mine), fld)): continue
        d = mine[0]; at[t] = d.at
        rep.check(all(g[0].startswith("L:") for g in d.guards) and len(d.loops) == 1, "PhysicsCommon::~PhysicsCommon destroys every %s whatever the state" % t, w, str([full_text(it.I, g[0])[:100] for g in d.guards]))
        r = loop_range(it, d.loops[0], d.guards); txtr = full_text(it.I, " ".join(str(x) for x in r[1:])) + " " + " ".join(full_text(it.I, g[0]) for g in d.guards)
        whole = r[0] == "each" or (r[0] == "iter" or "::begin(" in full_text(it.I, d.ptr.key())) and re.search(r"::end\(<?&?%s" % re.escape(fld), txtr) is not None
        rep.check(whole and fld in full_text(it.I, d.ptr.key()), "PhysicsCommon::~PhysicsCommon goes through all of %s" % fld, w, "%s %s" % (r[0], txtr[:200]))
        rep.check(any(q.ptr.key() == d.ptr.key() and q.at > d.at and set(q.guards) == set(d.guards) for q in it.frees), "PhysicsCommon::~PhysicsCommon releases every %s" % t, w)
        early = [c for c in ops(T, "clear") + ops(T, "remove") if setof(c) == p]
    # users before what they use
    for a, b in orders(P, sets.values()):
        if a in at and b in at: rep.check(at[a] < at[b], "PhysicsCommon::~PhysicsCommon destroys the %s objects before the %s objects they use" % (a, b), w)
    rep.need(len(at), 10, "sets emptied by the destructor")

def orders(P, names):
    """(user, used): the destructor of the user, or the function that destroys it, works on objects of the other class"""
    names = list(names)
    for a in names:
        for b in names:
            if a != b and a == "PhysicsWorld" and b.endswith("Shape"): yield a, b
            if a != b and a.endswith("Shape") and any(re.search(r"\b%s \*" % b, f["t"]) for f in P.classes.get(a, {}).get("fields", [])): yield a, b

def check_P08(P, rep):
    made, facts = objects(P, rep)
    buffers(P, rep, made)
    registry(P, rep, made)

# --------------------------------------------------------------------------------------------------------------- P22
class FlagInterp(MemInterp):
    """.flags: bool locals as they are stored; .rets: what is returned under which conditions"""
    def __init__(self, *a, **k): super().__init__(*a, **k); self.flags = []; self.returns = []
    def store(self, path, v, t, node, record=True):
        if len(path) == 1 and path[0].startswith("%") and base_type(t or "") == "bool" and self.quiet is False:
            self.flags.append((path, self.mem.get(path, (None,))[0], v, tuple(self.guards), tuple(self.loops), node, self.stack[-1] if self.stack else None))
        super().store(path, v, t, node, record)
    def exec(self, s, st):
        if isinstance(s, dict) and s.get("k") == "ret" and len(self.stack) == 1:
            g, l = tuple(self.guards), tuple(self.loops); n = len(st.get("rets", ())); out = super().exec(s, st); v = st.get("rets", [])[n:]
            self.returns.append((g, l, s, v[0][1] if v else None)); return out
        return super().exec(s, st)

MESSAGES = re.compile(r"std::vector<(reactphysics3d::)?Message>\s*&|std::vector<(reactphysics3d::)?Message,.*&\s*$")
def validator(f): return f.body is not None and f.rt == "bool" and any(MESSAGES.search(p["t"]) for p in f.ps)

class FTrace(MTrace):
    def __init__(self, P, fn, inline, maxterms=200):
        self.P = P; self.fn = fn
        self.it = FlagInterp(P, lambda f: not inline(f), maxterms=maxterms, depth=14, mapname=rowname)
        self.ret = self.it.run(fn); self.calls = []
        for k, e in enumerate(self.it.calls):
            f = P.fns.get(e.path[0]); c = Block(); c.ev = e; c.k = k; c.guards = e.guards; c.loops = e.loops; c.args = e.old; c.node = e.node; c.fn = e.fn; c.chain = e.chain
            c.f = e.path[0]; c.cls = (f.cls if f else e.node.get("cls", "")).split("<")[0]; c.n = f.n if f else e.node.get("n"); c.fun = f
            self.calls.append(c)

def verdicts(it, T, P):
    """atoms standing for the results of the validating functions called"""
    out = {}
    for c in T.calls:
        if c.fun is not None and validator(c.fun):
            pre = "%s::%s'(" % (c.fun.cls, c.fun.n)
            for a in it.I.info:
                if a.startswith(pre) or (it.I.info[a][0] == "app" and it.I.info[a][1] in (pre[:-1], pre[:-2])): out[a] = c
    return out

def errors(T):
    """calls that report an error to the user's list of messages"""
    out = []
    for c in T.calls:
        if c.n in ("push_back", "emplace_back") and re.search(r"\bvector<(reactphysics3d::)?Message\b", (c.node.get("f") or "") + ((c.node.get("o") or {}).get("t") or "") + (c.node.get("cls") or "")):
            t = " ".join(full_text(T.it.I, v.key()) for v in c.args if hasattr(v, "key"))
            if "Type::Warning" not in t and "Type::Information" not in t: out.append(c)
    return out

def refusals(P, rep, f):
    """where f decides that the input is invalid, the conditions of each place"""
    T = FTrace(P, f, lambda g: g.cls == f.cls and not validator(g) or g.cls == ""); it = T.it; nm = "%s::%s" % (f.cls, f.n); rep.analysed(f)
    V = verdicts(it, T, P); es = errors(T); places = []
    decided = {p for p, old, v, g, l, n, fn in it.flags}
    ret = T.ret
    for p, old, v, guards, loops, node, fn in it.flags:
        if not (isinstance(v, Sc) and isconst(v.p) and cval(v.p) == 0): continue
        if old is None: continue     # the declaration
        if not flows(it, p, T): continue
        places.append((guards, loops, node))
    for guards, loops, s, v in it.returns:
        if isinstance(v, Sc) and not v.p: places.append((guards, loops, s))
    for guards, loops, node in places:
        if V and any(refers(it, g, V) and truth(it, g[0], {a: 1 for a in V}) is (not g[1]) for g in guards): continue    # passes on what a part has refused
        w = "%s:%s" % (f.file, node.get("l"))
        rep.check(any(implied_same(it, c.guards, guards) and [id(l[1]) for l in c.loops] == [id(l[1]) for l in loops] for c in es), "%s: refusing the input is reported" % nm, w, "no error message under the condition of line %s" % node.get("l"))
        rep.count("refusals")
    # an error is reported only where the input is refused
    for c in es:
        rep.check(any(implied_same(it, g, c.guards) and [id(x[1]) for x in l] == [id(x[1]) for x in c.loops] for g, l, n in places), "%s: the input is refused where an error is reported" % nm, "%s:%s" % (c.fn.file, c.node.get("l")))
    # flags only fall
    for p, old, v, guards, loops, node, fn in it.flags:
        if old is None or not flows(it, p, T): continue
        low = isinstance(v, Sc) and (isconst(v.p) and cval(v.p) == 0 or falls(it, v, old, V))
        first = not any(q[0] == p and q[5] is not node for q in it.flags[:[id(x[5]) for x in it.flags].index(id(node))])
        rep.check(low or first, "%s: the input found invalid stays invalid" % nm, "%s:%s" % (f.file, node.get("l")), "%s := %s" % (p[0], full_text(it.I, v.key())[:200]))
    if V and isinstance(ret, Sc):
        names = sorted(V); fl = {}
        ok = all(truth_val(it, ret, dict({a: 1 for a in names}, **{b: 0})) is False for b in names)
        rep.check(ok, "%s: refuses what one of its parts refuses (%d parts)" % (nm, len(names)), f.where(), full_text(it.I, ret.key())[:300])
    return T, places, es, V

def implied_same(it, need, have): return set(need) <= set(have) and len(set(have) - set(need)) == 0
def refers(it, g, V):
    t = full_text(it.I, g[0]); return any(full_text(it.I, a) in t for a in V)
def flows(it, p, T):
    """the flag takes part in the result"""
    n = p[0].split("#")[0]
    return isinstance(T.ret, Sc) and (re.search(r"%s\b" % re.escape(n), full_text(it.I, T.ret.key())) is not None or n in ("%isValid",) or returned(T.fn, n[1:]))
def returned(fn, name):
    for x in walk(fn.body):
        if isinstance(x, dict) and x.get("k") == "ret" and isinstance(x.get("e"), dict):
            if any(isinstance(y, dict) and y.get("k") == "ref" and y.get("n") == name for y in walk(x["e"])): return True
    return False
def falls(it, v, old, V):
    """v is false whenever the old value is"""
    if not isinstance(old, Sc) or not isinstance(v, Sc): return False
    if v.key() == old.key(): return True
    if isconst(old.p): return bool(cval(old.p))
    env = {a: 0 for m in old.p for a in m}
    return truth_val(it, v, env) is False
def truth_val(it, v, env):
    from ..api import truth_v
    if isinstance(v, Sc) and len(v.p) == 1:
        r = truth_v(it, v, env)
        if r is not None: return r
    from ..api import number
    n = number(it, v.p, env) if isinstance(v, Sc) else None
    return None if n is None else bool(n)

def creations(P, rep):
    import itertools
    n = 0
    for f in sorted(P.methods("PhysicsCommon"), key=lambda f: f.f) if callable(getattr(P, "methods", None)) else [g for g in P.fns.values() if g.cls == "PhysicsCommon"]:
        if f.body is None or not f.n.startswith("create") or not any(MESSAGES.search(p["t"]) for p in f.ps): continue
        T = FTrace(P, f, lambda g: g.cls in ("PhysicsCommon", "")); it = T.it; rep.analysed(f); w = f.where(); nm = "PhysicsCommon::" + f.n; n += 1
        V = verdicts(it, T, P); names = sorted(V)
        if not rep.check(len(names) > 0, "%s: asks whether the input is valid" % nm, w): continue
        for vals in itertools.product((1, 0), repeat=len(names)):
            env = dict(zip(names, vals)); good = all(vals); what = "accepted" if good else "refused by " + ", ".join(V[a].fun.n for a in names if not env[a])
            on = lambda e: holds(it, [g for g in e.guards if not g[0].startswith("L:")], env)
            news = [x for x in it.news if holds(it, x[3], env) is True]; frees = [b for b in it.frees if on(b) is True]; dts = [b for b in it.dtors if on(b) is True]
            adds = [c for c in T.calls if c.n == "add" and c.cls == "Set" and on(c) is True]
            unk = [e for e in list(it.frees) + list(it.dtors) + [c for c in T.calls if c.n == "add" and c.cls == "Set"] if on(e) is None]
            r = chosenv(it, T.ret, env)
            rep.check(not unk and r is not None, "%s: what happens depends on the verdicts only" % nm, w)
            blocks = [x[2] for x in news if isinstance(x[1], Ptr) and x[1].path[0].startswith("block")]
            back = [b.ptr.path for b in frees if isinstance(b.ptr, Ptr)]; dead = [d.ptr.path for d in dts if isinstance(d.ptr, Ptr)]
            if good:
                rep.check(isinstance(r, Ptr) and r.path in blocks, "%s: valid input gives the object" % nm, w, "returns %s" % (r.key() if r is not None else "?"))
                if isinstance(r, Ptr):
                    rep.check([pstr(r.path)] == [pstr(a.args[-1].path) if isinstance(a.args[-1], Ptr) else "?" for a in adds], "%s: the object is registered once" % nm, w)
                    rep.check(r.path not in back and r.path not in dead, "%s: the object that is returned lives" % nm, w)
                    rep.check(all(b in back for b in blocks if b != r.path), "%s: nothing else stays allocated" % nm, w)
            else:
                rep.check(isinstance(r, Sc) and not r.p, "%s: returns null when %s" % (nm, what), w, "returns %s" % (r.key() if r is not None else "?"))
                rep.check(not adds, "%s: registers nothing when %s" % (nm, what), w)
                rep.check(sorted(blocks) == sorted(back), "%s: leaves nothing allocated when %s" % (nm, what), w, "allocated %s, released %s" % (blocks, back))
                rep.check(sorted(blocks) == sorted(dead), "%s: destroys what it has created when %s" % (nm, what), w)
            # the verdict comes before the registration
        for a, c in V.items():
            for x in T.calls:
                if x.n == "add" and x.cls == "Set": rep.check(c.k < x.k or exclusive(c.guards, x.guards), "%s: registered after %s has accepted" % (nm, c.fun.n), w)
        # the user's list receives the reports
        ms = [p["n"] for p in f.ps if MESSAGES.search(p["t"])]
        for a, c in V.items():
            k = [i for i, p in enumerate(c.fun.ps) if MESSAGES.search(p["t"])][0]; args = c.node.get("a") or []
            rep.check(k < len(args) and passes(args[k], ms), "%s: %s reports to the user's list" % (nm, c.fun.n), w)
    rep.need(n, 4, "creating functions that validate their input"); rep.count("creating functions", n)

# what must be refused, and what must not: (class, what, the quantities by the text of their terms, values to try, refused?, places)
GRID = (0, 1, 2, 3, 4, 5)
def thresholds():
    return [
    ("HeightField", "less than two columns or rows", {"a": r"^\$p0$", "b": r"^\$p1$"}, GRID, lambda a, b: a < 2 or b < 2, 1),
    ("ConvexMesh", "no vertices", {"n": r"mVertices\b|getNbVertices"}, GRID, lambda n: n == 0, 1),
    ("ConvexMesh", "a face with less than three vertices", {"n": r"getPolygonFace|nbVertices|[fF]aceVertices"}, GRID, lambda n: n < 3, 1),
    ("ConvexMesh", "a vertex index out of range", {"n": r"^PolygonVertexArray::getNbVertices", "i": r"\["}, GRID, lambda n, i: i >= n, 1),
    ("ConvexMesh", "numbers of vertices, edges and faces that no closed convex polyhedron has", {"n": r"^PolygonVertexArray::getNbVertices", "f": r"^PolygonVertexArray::getNbFaces", "e": r"^%"}, (4, 5, 6, 8, 9, 12, 18, 24), lambda n, f, e: n - e / 2 + f != 2, 1),
    ("ConvexMesh", "a face without area", {"l": r"Vector3::length\(", "e": r"MACHINE_EPSILON"}, GRID, lambda l, e: l <= e, 1),
    ("QuickHull", "less than four vertices", {"n": r"Array<Vector3>::size|getNbVertices"}, GRID, lambda n: n < 4, 1),
    ("QuickHull", "vertices too close to each other", {"l": r"^%|lengthSquare|Dist", "e": r"MACHINE_EPSILON"}, GRID, lambda l, e: l < e, 3),
    ("TriangleMesh", "a vertex index out of range", {"n": r"^TriangleVertexArray::getNbVertices", "i": r"\["}, GRID, lambda n, i: i >= n, 1),
    ("TriangleMesh", "no valid triangle", {"n": r"mTriangles"}, GRID, lambda n: n == 0, 1),
    ("TriangleMesh", "a vertex normal without length", {"l": r"Vector3::length(Square)?\(<TriangleVertexArray::getVertexNormal", "e": r"mEpsilon$"}, GRID, lambda l, e: l <= e * e, 1),
    ]

def leaves_cond(it, g, out=None):
    """the quantities a condition compares"""
    out = set() if out is None else out; i = it.I.info.get(g)
    if i is None or i[0] in ("app",): out.add(g); return out
    if i[0] in ("cmp", "not", "logic", "phi", "sel"):
        for v in i[1:]:
            p = v.p if isinstance(v, Sc) else v if isinstance(v, dict) else None
            for m in p or ():
                for a in m: leaves_cond(it, a, out)
        return out
    out.add(g); return out

def limits(P, rep, results):
    import itertools
    for cls, what, roles, grid, refused, need in thresholds():
        good = []; wrong = []; w = ""
        for f, T, places, es in results:
            if f.cls != cls: continue
            it = T.it; w = w or f.where()
            for c in es:
                for g, pol in c.guards:
                    if g.startswith("L:"): continue
                    lv = {a for a in leaves_cond(it, g) if not a.startswith("inv(")}
                    match = {}
                    for a in lv:
                        t = full_text(it.I, a)
                        for i, p in enumerate(f.ps): t = "$p%d" % i if t == "$" + p["n"] else t
                        for r, rx in roles.items():
                            if re.search(rx, t): match.setdefault(r, []).append(a)
                    if len(lv) != len(roles): continue
                    pick = next((dict(zip(roles, q)) for q in itertools.permutations(sorted(lv)) if all(x in match.get(r, ()) for r, x in zip(roles, q))), None)
                    if pick is None: continue
                    bad = None; n = 0; ones = {a: 1 for a in it.I.info if a.startswith("inv(")}; ones["inv(1)"] = 1
                    for vals in itertools.product(grid, repeat=len(roles)):
                        env = dict(ones); env.update({pick[r]: v for r, v in zip(roles, vals)}); n += 1
                        t = truth(it, g, env)
                        if t is None or (t is pol) != bool(refused(**dict(zip(roles, vals)))): bad = dict(zip(roles, vals)); break
                    if bad is None: good.append((c.node.get("l"), g, len(c.guards)))
                    else: wrong.append((c, bad, full_text(it.I, g)[:200]))
        rep.count("thresholds evaluated", len(good))
        # a condition of another refusal on the same quantity that only holds outside does not count
        rep.check(len(set(good)) >= need, "%s: %s is refused, nothing else for that" % (cls, what), w, "%d places; %s" % (len(set(good)), [(x[0].node.get("l"), x[1], x[2]) for x in wrong][:2]))

def triangles(P, rep, results):
    """which triangles of the input become part of a triangle mesh"""
    import itertools
    n = 0
    for cls, (f, T) in ((f.cls, (f, T)) for f, T, pl, es in results if f.cls == "TriangleMesh"):
        it = T.it
        for c in T.calls:
            if c.n != "add" or not c.args or bare(c.args[0]) != "this.mTriangles" and not full_text(it.I, bare(c.args[0]) or "").startswith("this.mTriangles"): continue
            n += 1; w = "%s:%s" % (c.fn.file, c.node.get("l")); ok = False; kept = False; why = []
            for vals in itertools.product((0, 1, 4, 5), (0, 1, 4, 5), (0, 1, 4, 5), (0, 1, 4, 5), (0, 1, 2)):
                ls = sorted({a for g, p in c.guards if not g.startswith("L:") for a in leaves_cond(it, g) if re.search(r"^Vector3::lengthSquare\(", a)}); es = sorted({a for g, p in c.guards if not g.startswith("L:") for a in leaves_cond(it, g) if a.endswith("mEpsilon")})
                if len(ls) != 4 or len(es) != 1: why = [len(ls), es]; break
                env = dict(zip(ls, vals)); env[es[0]] = vals[4]
                t = holds(it, [g for g in c.guards if not g[0].startswith("L:") and any(a in ls for a in leaves_cond(it, g[0]))], env)
                if t is not all(v > vals[4] ** 2 for v in vals[:4]): why = [vals, t]; break
            else: ok = True
            rep.check(ok, "%s::%s: exactly the triangles with an area and three edges above the tolerance are kept" % (cls, f.n), w, str(why))
            for g, pol in c.guards:
                t = full_text(it.I, g)
                if "getNbVertices" in t and "[" in t: kept = True
                if g.startswith("%"):
                    for p, old, v, guards, loops, node, fn in it.flags:
                        if p[0].split("#")[0] == g.split("#")[0] and isinstance(v, Sc) and isconst(v.p) and bool(cval(v.p)) is (not pol) and any("getNbVertices" in full_text(it.I, x[0]) and "[" in x[0] for x in guards): kept = True
            rep.check(kept, "%s::%s: triangles with an index out of range are not kept" % (cls, f.n), w)
    rep.need(n, 3, "places where a triangle is kept")

def order_of_stages(P, rep):
    """what needs a checked mesh runs only after the check has accepted it"""
    n = 0
    for cls, fn, later, first in (("ConvexMesh", "init", ("computeFacesNormals", "computeVolume", "computeHalfEdges"), "createHalfEdgeStructure"), ("TriangleMesh", "init", ("computeVerticesNormals", "initBVHTree"), "copyData"),
                                  ("QuickHull", "computeConvexHull", ("associateOrphanPointsToNewFaces", "findNextVertexCandidate", "addVertexToHull", "computeFinalPolygonVertexArray"), "computeInitialHull")):
        for f in P.fns.values():
            if f.cls != cls or f.n != fn or f.body is None: continue
            T = FTrace(P, f, lambda g: g.cls == cls and not validator(g) and g.n not in later or g.cls == ""); it = T.it; V = verdicts(it, T, P)
            atom = [a for a, c in V.items() if c.n == first]; names = sorted(V)
            for c in T.calls:
                if c.n not in later or c.n == "initBVHTree": continue
                env = dict({a: 1 for a in names}, **{a: 0 for a in atom}); n += 1
                rep.check(bool(atom) and holds(it, [g for g in c.guards if not g[0].startswith("L:")], env) is False and all(V[a].k < c.k for a in atom), "%s::%s: %s only after %s has accepted the mesh" % (cls, fn, c.n, first), "%s:%s" % (c.fn.file, c.node.get("l")))
    for f in P.fns.values():
        if f.cls != "ConvexMesh" or not validator(f) or f.n == "init": continue
        T = FTrace(P, f, lambda g: g.cls == f.cls and not validator(g) or g.cls == ""); it = T.it
        for c in T.calls:
            if c.n != "computeHalfEdges": continue
            n += 1
            r = full_text(it.I, T.ret.key()) if T.ret is not None else "?"
            ok = any(full_text(it.I, g[0]) == r and g[1] for g in c.guards) or returned_false_otherwise(it, T, c)
            rep.check(ok, "%s::%s: edges are computed only of a mesh that is accepted" % (f.cls, f.n), "%s:%s" % (c.fn.file, c.node.get("l")), "%s under %s" % (r[:200], [full_text(it.I, g[0])[:200] for g in c.guards]))
    rep.need(n, 4, "stages that need a checked mesh")
def returned_false_otherwise(it, T, c):
    """under the negation of a condition of the call the function returns false"""
    for g, pol in c.guards:
        if truth_val(it, T.ret, {g: 0 if pol else 1}) is False: return True
        i = it.I.info.get(g)
    return False

def passes(a, names):
    return any(isinstance(x, dict) and x.get("k") == "ref" and x.get("n") in names for x in walk(a))
def chosenv(it, v, env):
    from ..api import chosen
    for _ in range(8):
        if isinstance(v, Ptr): return v
        i = it.I.info.get(v.n) if isinstance(v, Op) else it.I.info.get(next(iter(v.p))[0]) if isinstance(v, Sc) and len(v.p) == 1 and len(next(iter(v.p))) == 1 else None
        if not i or i[0] not in ("phi", "sel"): return v if isinstance(v, (Sc, Ptr)) else None
        c = truth(it, i[1], env) if isinstance(i[1], str) else None
        if c is None: return None
        v = i[2] if c else i[3]
    return None

def check_P22(P, rep):
    creations(P, rep)
    vs = [f for f in P.fns.values() if validator(f) and f.cls]
    results = []
    for f in sorted(vs, key=lambda f: f.f):
        T, places, es, V = refusals(P, rep, f); results.append((f, T, places, es))
    limits(P, rep, results)
    triangles(P, rep, results); order_of_stages(P, rep)
    rep.need(len(vs), 7, "validating functions"); rep.need(rep.counts.get("refusals", 0), 9, "places where input is refused")

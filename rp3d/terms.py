"""Abstract interpretation of solver-style code in a value-numbering domain.

Scalars are polynomials with rational coefficients over opaque atoms (initial memory contents, results of non-polynomial
operations, values merged at a control-flow join).  Objects are trees of scalars.  Both branches of a conditional are
analysed and joined (no path enumeration, no constraint solving); a loop body is analysed once from a state in which
everything the loop may write is unknown.  Equality of two values is equality of their canonical polynomials, so
re-ordering, re-association, local renaming and helper extraction do not change a result."""
import re, hashlib, math
from fractions import Fraction
from .model import walk, children, show, AnalysisBroken
from .effects import base_type, split_params, writable_param

# ------------------------------------------------------------------ polynomials: {monomial(sorted tuple of atoms): Fraction}
ZERO = {}
ONE = {(): Fraction(1)}
def const(c): 
    c = Fraction(c); return {(): c} if c else {}
def atom(a): return {(a,): Fraction(1)}
def padd(p, q, s=1):
    r = dict(p)
    for m, c in q.items():
        v = r.get(m, 0) + s * c
        if v: r[m] = v
        else: r.pop(m, None)
    return r
def psub(p, q): return padd(p, q, -1)
def pneg(p): return {m: -c for m, c in p.items()}
def pmul(p, q):
    r = {}
    for m1, c1 in p.items():
        for m2, c2 in q.items():
            m = tuple(sorted(m1 + m2)) if m1 and m2 else (m1 or m2)
            v = r.get(m, 0) + c1 * c2
            if v: r[m] = v
            else: r.pop(m, None)
    return r
def isconst(p): return not p or (len(p) == 1 and () in p)
def cval(p): return p.get((), Fraction(0))
def pkey(p):
    return " + ".join((("%s*" % c if c != 1 else "") + "*".join(m)) if m else str(c) for m, c in sorted(p.items())) or "0"
def psubst(p, mp):
    """replace atoms by polynomials"""
    if not any(a in mp for m in p for a in m): return p
    r = {}
    for m, c in p.items():
        t = {(): c}
        rest = []
        for a in m:
            if a in mp: t = pmul(t, mp[a])
            else: rest.append(a)
        t = pmul(t, {tuple(sorted(rest)): Fraction(1)})
        r = padd(r, t)
    return r
def coeff(p, a):
    """p = a*q + r with q free of a (if linear); returns (q, r, linear?)"""
    q = {}; r = {}; lin = True
    for m, c in p.items():
        n = m.count(a)
        if n == 0: r[m] = c
        else:
            if n > 1: lin = False
            l = list(m); l.remove(a); q[tuple(l)] = q.get(tuple(l), 0) + c
    return q, r, lin
def divide_atom(p, a):
    """p / a if every monomial contains a"""
    r = {}
    for m, c in p.items():
        if a not in m: return None
        l = list(m); l.remove(a); r[tuple(l)] = c
    return r

class Interner:
    def __init__(self): self.short = {}; self.info = {}; self.limit = 160; self.full = {}
    def name(self, s, info=None):
        if len(s) > self.limit:
            h = hashlib.sha1(s.encode()).hexdigest()[:12]; self.full[h] = s
            s2 = s[:70].replace("*", "x").replace(" ", "") + "~" + h
        else: s2 = s
        if info is not None and s2 not in self.info: self.info[s2] = info
        return s2

def closure_text(I, key):
    """every text that an abbreviated name stands for"""
    out = []; todo = [key]; seen = set()
    while todo:
        s = todo.pop(); out.append(s)
        for h in re.findall(r"~([0-9a-f]{12})", s):
            if h not in seen and h in I.full: seen.add(h); todo.append(I.full[h])
    return out

def full_text(I, k):
    """the name with its abbreviations expanded"""
    for _ in range(200):
        m = re.search(r"~([0-9a-f]{12})", k)
        if not m or m.group(1) not in I.full: return k
        s = I.full[m.group(1)]; pre = s[:70].replace("*", "x").replace(" ", "")
        h = k[:m.start()]
        if not h.endswith(pre): return k
        k = h[:-len(pre)] + s + k[m.end():]
        if len(k) > 200000: return k
    return k

class Sc:
    """scalar value"""
    __slots__ = ("p",)
    def __init__(self, p): self.p = p
    def key(self): return pkey(self.p)
class Op:
    """opaque object: reading a field gives atoms named after it"""
    __slots__ = ("n", "t")
    def __init__(self, n, t): self.n = n; self.t = t
    def key(self): return "<" + self.n + ">"
class St:
    """object with known fields; missing fields come from base (an Op) if any"""
    __slots__ = ("t", "f", "base")
    def __init__(self, t, f=None, base=None): self.t = t; self.f = f or {}; self.base = base
    def key(self): return "{" + ",".join("%s=%s" % (k, v.key()) for k, v in sorted(self.f.items())) + ("|" + self.base.key() if self.base else "") + "}"
class Ptr:
    """pointer/reference to a known path"""
    __slots__ = ("path",)
    def __init__(self, path): self.path = path
    def key(self): return "&" + pstr(self.path)

def pstr(path): return path[0] + "".join(s if s.startswith("[") else "." + s for s in path[1:])

SCALAR = {"float", "double", "int", "unsigned int", "unsigned long", "long", "short", "unsigned short", "char", "signed char", "unsigned char", "bool", "long long", "unsigned long long"}

class Event:
    __slots__ = ("path", "old", "new", "guards", "node", "fn", "loops", "kind", "seq", "chain")
    def __init__(self, **k):
        for a, b in k.items(): setattr(self, a, b)

class Interp:
    def __init__(self, prog, opaque=lambda fn: False, maxterms=64, depth=10, cell_filter=None, assume=None, mapname=None):
        self.joinexits = True
        self.P = prog; self.opaque = opaque; self.MAXT = maxterms; self.depth = depth
        self.I = Interner(); self.mem = {}; self.events = []; self.calls = []; self.guards = []; self.loops = []
        self.frame = 0; self.stack = []; self.fresh = 0; self.cutinfo = {}
        self.accum = cell_filter or (lambda path: False)   # cells that become opaque after each recorded write
        self.assume = assume or {}
        self.news = []; self.verdef = {}; self.reads = []; self.accumulations = []; self.loopstart = {}; self.quiet = False; self.at = None; self.phi = {}; self.endmem = {}; self.endmem_inner = {}; self.mapname = mapname

    # ---------------- helpers
    def is_scalar(self, t):
        b = base_type(t)
        return b in SCALAR or b in self.P.enums or t.rstrip().endswith("*") or t.rstrip().endswith("*const")
    def fields(self, t):
        c = self.P.classes.get(base_type(t))
        if not c: return None
        return c["fields"]
    def opq(self, name, t):
        name = self.I.name(name)
        t = t or ""
        if t.rstrip().endswith("*") or t.rstrip().endswith("*const"): return Op(name, t)
        if base_type(t) in SCALAR or base_type(t) in self.P.enums: return Sc(atom(name))
        return Op(name, base_type(t))
    def cut(self, v, hint="cut"):
        if isinstance(v, Sc) and len(v.p) > self.MAXT:
            # normalise the scale so that P and -P share the atom
            lead = v.p[sorted(v.p)[0]]
            n = {m: c / lead for m, c in v.p.items()}
            k = "%s(%s)" % (hint, pkey(n)); a = self.I.name(k, ("cut", n)); self.cutinfo[a] = n
            return Sc({(a,): lead})
        if isinstance(v, St): return St(v.t, {k: self.cut(x, hint) for k, x in v.f.items()}, v.base)
        return v
    def app(self, fname, args, t, info=None):
        """result of an uninterpreted pure operation"""
        k = "%s(%s)" % (fname, "; ".join(a.key() for a in args))
        n = self.I.name(k, ("app", fname, args))
        return self.opq(n, t)
    def pure_scalar(self, fname, args):
        n = self.I.name("%s(%s)" % (fname, "; ".join(a.key() for a in args)), ("app", fname, args)); return Sc(atom(n))

    def select(self, v, step, t):
        """sub-object of a value"""
        if isinstance(v, St):
            if step in v.f: return v.f[step]
            if v.base is not None: return self.select(v.base, step, t)
            return self.opq("undef." + step, t)
        if isinstance(v, Op): return self.opq(v.n + (step if step.startswith("[") else "." + step), t)
        if isinstance(v, Ptr): return self.load(v.path + (step,), t)
        return self.opq("%s.%s" % (v.key(), step), t)

    def stept(self, t, step):
        """type of field step of class type t"""
        b = base_type(t) if t else ""
        if step.startswith("["):
            if t and t.endswith("]"): return t[:t.rindex("[")].rstrip()
            if t and t.rstrip().endswith("*"): return t.rstrip()[:-1].rstrip()
            return ""
        for c in self.P.bases(b) if b in self.P.classes else []:
            for f in self.P.classes[c]["fields"]:
                if f["n"] == step: return f["t"]
        return ""

    def load(self, path, t):
        # exact or ancestor entry
        for i in range(len(path), 0, -1):
            if path[:i] in self.mem:
                v, vt = self.mem[path[:i]]
                for s in path[i:]:
                    vt = self.stept(vt, s) or (t if s is path[-1] else "")
                    v = self.select(v, s, vt or t)
                # overlay deeper entries
                return self.overlay(path, v, t)
        if not self.quiet and not path[0].startswith("%") and not any(p[:len(path)] == path for p in self.mem):
            self.reads.append((path, len(self.events), tuple(self.loops), tuple(self.guards), self.stack[-1] if self.stack else None, self.at))
        return self.overlay(path, self.opq(pstr(path), t), t)
    def peek(self, path, t):
        q, self.quiet = self.quiet, True
        try: return self.load(path, t)
        finally: self.quiet = q
    def overlay(self, path, v, t):
        n = len(path)
        sub = [p for p in self.mem if len(p) > n and p[:n] == path]
        if not sub: return v
        for p in sorted(sub, key=len):
            v = self.update(v, p[n:], self.mem[p][0], t)
        return v
    def update(self, v, steps, x, t):
        if not steps: return x
        s = steps[0]
        if isinstance(v, St): f = dict(v.f); base = v.base; tt = v.t
        else: f = {}; base = v; tt = base_type(t) if t else getattr(v, "t", "")
        f[s] = self.update(self.select(v, s, self.stept(tt, s)), steps[1:], x, self.stept(tt, s))
        return St(tt, f, base)

    def store(self, path, v, t, node, record=True):
        if record and not path[0].startswith("%"):
            old = self.peek(path, t)
            self.events.append(Event(path=path, old=old, new=v, guards=tuple(self.guards), node=node, fn=self.stack[-1] if self.stack else None, loops=tuple(self.loops), kind="store", seq=len(self.events), chain=tuple(self.stack)))
        for p in [p for p in self.mem if p[:len(path)] == path]: del self.mem[p]
        # if an ancestor entry exists, keep as overlay
        if self.accum(path):
            self.fresh += 1
            nm = "%s@%d" % (pstr(path), self.fresh)
            self.verdef[nm] = v
            v = self.opq(nm, t)
        self.mem[path] = (self.cut(v), t)

    def havoc(self, path, t=None):
        self.fresh += 1
        tt = t
        for p in [p for p in self.mem if p[:len(path)] == path]:
            tt = tt or self.mem[p][1] if p == path else tt
            del self.mem[p]
        self.mem[path] = (self.opq("%s?%d" % (pstr(path), self.fresh), tt or ""), tt or "")

    # ---------------- running a function
    def run(self, fn, this="this", args=None):
        """analyse fn from an unknown initial state"""
        env = {}
        self.stack.append(fn); self.frame += 1
        fr = self.frame
        env["this"] = (this,)
        for i, p in enumerate(fn.ps):
            t = p["t"]
            if args and i < len(args) and args[i] is not None:
                env[p["d"]] = args[i]; continue
            nm = p["n"] or "arg%d" % i
            if t.endswith("&"): env[p["d"]] = Ptr(("$" + nm,))
            elif t.endswith("*"): env[p["d"]] = Ptr(("$" + nm,))
            else:
                path = ("%%%s#%d" % (nm, fr),); self.mem[path] = (self.opq("$" + nm, t), t); env[p["d"]] = Ptr(path)
        r = self.body(fn, env, fr)
        self.stack.pop()
        return r

    def body(self, fn, env, fr):
        st = {"env": env, "fr": fr, "ret": None, "fn": fn, "base": len(self.guards), "exits": []}
        self.join_exits(self.exec(fn.body, st), st)
        return self.returned(st)

    def returned(self, st):
        """the value returned: a decision tree over the conditions of the returns, in their order"""
        def tree(rs):
            g, v = rs[0]
            if not g or len(rs) == 1: return v
            c, pol = g[0]
            def side(p): return [([y for y in h if y[0] != c], w) for h, w in rs if all(y[0] != c or y[1] == p for y in h)]
            a, b = side(True), side(False)
            if not a or not b: return tree(a or b)
            return self.joinv(tree(a), tree(b), c)
        rs = st.get("rets")
        return tree(rs) if rs else None

    def join_exits(self, r, st):
        """paths that left the function early: their memory joins the memory at its end"""
        if not self.joinexits: return
        for g, m in reversed(st["exits"]):
            if r == "ret" and m == self.mem: continue
            for c, pol in reversed(g): m = self.joinmem(m, self.mem, c) if pol else self.joinmem(self.mem, m, c)
            self.mem = m

    # statement result: set of possible outcomes among {"next","ret","brk","cnt"}
    def exec(self, s, st):
        if s is None: return "next"
        k = s.get("k")
        if k == "block":
            for i, x in enumerate(s["a"]):
                r = self.exec(x, st)
                if r != "next":
                    if r == "maybe":
                        # a conditional early exit: the rest runs under the complementary guard
                        g = st.pop("pend")
                        self.guards.extend(g)
                        rr = self.exec({"k": "block", "a": s["a"][i + 1:], "l": s.get("l")}, st)
                        del self.guards[len(self.guards) - len(g):]
                        if rr == "maybe":
                            st["pend"] = list(g) + st["pend"]; return "maybe"
                        if rr == "next": st["pend"] = list(g); return "maybe" if True else rr
                        return rr
                    return r
            return "next"
        if k == "decl":
            for v in s["a"]: self.decl(v, st)
            return "next"
        if k == "null_s": return "next"
        if k == "if":
            if s.get("init"): self.exec(s["init"], st)
            if s.get("cv"): self.exec(s["cv"], st)
            c = self.cond(s["c"], st)
            if c is True: return self.exec(s["th"], st)
            if c is False: return self.exec(s["el"], st) if isinstance(s.get("el"), dict) else "next"
            return self.branch(c, lambda: self.exec(s["th"], st), lambda: self.exec(s["el"], st) if isinstance(s.get("el"), dict) else "next", st, s)
        if k in ("for", "while", "do", "forr"): return self.loop(s, st)
        if k == "ret":
            if s.get("e") is not None:
                rt = st["fn"].rt or ""
                v = self.ev_ref(s["e"], st) if rt.endswith("&") else self.ev(s["e"], st)
                st.setdefault("rets", []).append((list(self.guards[st.get("base", 0):]), v))
            if self.joinexits: st["exits"].append((list(self.guards[st["base"]:]), self.snap()))
            return "ret"
        if k == "break": return "brk"
        if k == "continue":
            if st.get("cn"): b, l = st["cn"][-1]; l.append((list(self.guards[b:]), self.snap()))
            return "cnt"
        if k == "switch": 
            self.ev(s["c"], st)
            sv = self.snap(); outs = []
            body = s["b"]["a"] if s["b"].get("k") == "block" else [s["b"]]
            cv = self.ev(s["c"], st)
            groups = []; cur = None
            for x in body:
                y = x; labels = []
                while isinstance(y, dict) and y.get("k") in ("case", "default"):
                    labels.append(show(y.get("v")) if y["k"] == "case" else "default"); y = y["b"]
                if labels: cur = (labels, [y]); groups.append(cur)
                elif cur: cur[1].append(y)
            res = self.snap()
            acc = None
            for labels, stmts in groups:
                self.restore(sv); self.guards.append(("case " + cv.key() + " in " + ",".join(labels), True))
                r = self.exec({"k": "block", "a": stmts}, st)
                self.guards.pop()
                m = self.snap(); acc = m if acc is None else self.joinmem(acc, m, "switch")
            if acc is not None: self.mem = self.joinmem(acc, sv, "switch")
            return "next"
        self.ev(s, st)
        return "next"

    def snap(self): return dict(self.mem)
    def restore(self, m): self.mem = dict(m)

    def logic(self, op, a, b):
        ks = sorted([a.key(), b.key()])
        return Sc(atom(self.I.name("(%s %s %s)" % (ks[0], op, ks[1]), ("logic", op, a, b))))
    def neg(self, a): return Sc(atom(self.I.name("!(" + a.key() + ")", ("not", a))))
    def conj(self, guards):
        """the conjunction of guards as a condition (None: no guard)"""
        r = None
        for n, p in guards:
            v = Sc(atom(n)); v = v if p else self.neg(v)
            r = v if r is None else self.logic("&&", r, v)
        return r
    def branch(self, c, th, el, st, s):
        before = self.snap()
        self.guards.append((c, True)); r1 = th(); self.guards.pop()
        p1 = st.pop("pend", []) if r1 == "maybe" else []
        m1 = self.snap(); self.restore(before)
        self.guards.append((c, False)); r2 = el(); self.guards.pop()
        p2 = st.pop("pend", []) if r2 == "maybe" else []
        m2 = self.snap()
        dead1 = r1 in ("ret", "brk", "cnt"); dead2 = r2 in ("ret", "brk", "cnt")
        if dead1 and dead2:
            self.mem = self.joinmem(m1, m2, c); return r1 if r1 == r2 else "cnt"
        if dead1: self.mem = m2; st["pend"] = [(c, False)] + p2; return "maybe"
        if dead2: self.mem = m1; st["pend"] = [(c, True)] + p1; return "maybe"
        self.mem = self.joinmem(m1, m2, c)
        if r1 == "maybe" or r2 == "maybe":
            x, y = self.conj(p1 if r1 == "maybe" else []), self.conj(p2 if r2 == "maybe" else [])
            cc = Sc(atom(c)); nc = self.neg(cc)
            v = self.logic("||", nc, x) if y is None else self.logic("||", cc, y) if x is None else self.logic("||", self.logic("&&", cc, x), self.logic("&&", nc, y))
            st["pend"] = [(self.I.name(v.key()), True)]; return "maybe"
        return "next"

    def joinmem(self, a, b, tag):
        out = {}
        def join(x, y, tag, p, t):
            if self.accum(p):
                self.fresh += 1
                return self.opq("%s@%d" % (pstr(p), self.fresh), t)
            return self.joinv(x, y, tag, p)
        for p in sorted(set(a) | set(b)):
            if p in a and p in b:
                va, vb = a[p], b[p]
                out[p] = va if va[0] is vb[0] or va[0].key() == vb[0].key() else (join(va[0], vb[0], tag, p, va[1]), va[1])
            else:
                v, t = a.get(p) or b.get(p)
                other_mem = b if p in a else a
                sv = self.mem; self.mem = {q: x for q, x in other_mem.items() if not (len(q) >= len(p) and q[:len(p)] == p)}
                o = self.peek(p, t); self.mem = sv
                x, y = (v, o) if p in a else (o, v)
                if p[0].startswith("%") and o.key().startswith("<%"): out[p] = (v, t); continue
                out[p] = (v, t) if v.key() == o.key() else (join(x, y, tag, p, t), t)
        return out

    def joinv(self, x, y, tag, p=None):
        if x.key() == y.key(): return x
        if isinstance(x, Sc) and isinstance(y, Sc):
            n = self.I.name("phi[%s](%s | %s)" % (tag, x.key(), y.key()), ("phi", tag, x, y)); return Sc(atom(n))
        if isinstance(x, St) or isinstance(y, St):
            ks = set(x.f if isinstance(x, St) else ()) | set(y.f if isinstance(y, St) else ())
            t = (x.t if isinstance(x, St) else y.t)
            f = {k: self.joinv(self.select(x, k, self.stept(t, k)), self.select(y, k, self.stept(t, k)), tag) for k in sorted(ks)}
            bx = x.base if isinstance(x, St) else x; by = y.base if isinstance(y, St) else y
            base = bx if (bx is None or by is None or bx.key() == by.key()) else self.opq("phi[%s](%s|%s)" % (tag, bx.key(), by.key()), t)
            return St(t, f, base)
        t = getattr(x, "t", "") or getattr(y, "t", "")
        o = self.opq("phi[%s](%s | %s)" % (tag, x.key(), y.key()), t)
        if isinstance(o, Op): self.I.info.setdefault(o.n, ("phi", tag, x, y))
        return o

    def loop(self, s, st):
        if s["k"] == "for" and s.get("init"): self.exec(s["init"], st)
        # constant trip loops over tiny ranges are not unrolled: one abstract iteration
        mod = self.assigned_locals(s, st)
        entry = [(path, self.peek(path, t), t) for path, t in mod]
        for path, t in mod: self.havoc(path, t)
        before = self.snap()
        for path, t in mod: self.loopstart[(id(s), path)] = self.peek(path, t)
        label = "loop%d" % s.get("l", 0)
        self.loops.append((id(s), s))
        if s["k"] == "forr":
            rng = self.ev_ref(s["range"], st)
            v = s["v"]
            path = (rng.path if isinstance(rng, Ptr) else (rng.key(),)) + ("[each]",)
            if v.get("isref"): st["env"][v["d"]] = Ptr(path)
            else: self.bind_local(v, self.load(path, v["t"]), st)
        if s.get("c") is not None and s["k"] != "do":
            c = self.cond(s["c"], st)
            self.guards.append(("L:" + (c if not isinstance(c, bool) else "true"), True)); pushed = True
        else: pushed = False
        g0 = len(self.guards); cn = []
        st.setdefault("cn", []).append((g0, cn))
        r = self.exec(s["b"], st)
        st["cn"].pop(); st.pop("pend", None)
        for g, m in reversed(cn):
            # paths that went on with the next round early
            if m == self.mem: continue
            for c, pol in reversed(g): m = self.joinmem(m, self.mem, c) if pol else self.joinmem(self.mem, m, c)
            self.mem = m
        if s["k"] == "for" and s.get("inc") is not None: self.ev(s["inc"], st)
        del self.guards[g0:]
        if pushed: self.guards.pop()
        self.loops.pop()
        # after the loop: whatever the loop changed is unknown
        after = self.snap()
        if not self.loops: self.endmem.update(after)
        else: self.endmem_inner.update({p: v for p, v in after.items() if p not in before or v[0].key() != before[p][0].key()}); self.mem = dict(before)
        for p in sorted(after, key=lambda q: (len(q), q)):
            if p not in before or after[p][0].key() != before[p][0].key():
                if p[0].startswith("%") and p not in before: continue
                self.havoc(p, after[p][1])
        for path, v, t in entry:
            if path in after:
                f = self.peek(path, t)
                self.accumulations.append((path, v, after[path][0], t, id(s), next(iter(next(iter(f.p)))) if isinstance(f, Sc) and len(f.p) == 1 and next(iter(f.p)) else f.key()))
        return "next"

    def assigned_locals(self, s, st):
        out = []
        for n in walk(s):
            tgt = None
            if n.get("k") == "asg": tgt = n["a"][0]
            elif n.get("k") == "un" and n["op"][:2] in ("++", "--"): tgt = n["a"][0]
            elif n.get("k") == "call" and n.get("op") in ("=", "+=", "-=", "*=", "/="): tgt = n.get("o") or (n["a"][0] if n["a"] else None)
            if tgt is not None:
                b = tgt
                while b.get("k") in ("mem", "idx"): b = b["b"] if b["k"] == "mem" else b["a"][0]
                if b.get("k") == "ref" and b["d"] in st["env"]:
                    p = st["env"][b["d"]]
                    if isinstance(p, Ptr) and p.path[0].startswith("%"):
                        out.append((p.path, self.mem.get(p.path, (None, b.get("t")))[1] or b.get("t")))
        return out

    # ---------------- declarations
    def bind_local(self, v, val, st):
        path = ("%%%s#%d" % (v["n"], st["fr"]),)
        for p in [p for p in self.mem if p[0] == path[0]]: del self.mem[p]
        self.mem[path] = (self.cut(val, v["n"]), v["t"])
        st["env"][v["d"]] = Ptr(path)
    def decl(self, v, st):
        i = v.get("i")
        if v.get("isref") and i is not None:
            st["env"][v["d"]] = self.ev_ref(i, st); 
            if not isinstance(st["env"][v["d"]], Ptr):
                self.bind_local(v, st["env"][v["d"]], st)
            return
        if i is None:
            self.bind_local(v, self.opq("uninit:" + v["n"], v["t"]), st); return
        self.bind_local(v, self.ev(i, st), st)

    # ---------------- conditions
    def cond(self, c, st):
        v = self.ev(c, st)
        if isinstance(v, Sc) and isconst(v.p): return bool(cval(v.p))
        k = v.key()
        if k in self.assume: return self.assume[k]
        return self.I.name(k)

    # ---------------- expressions
    def ev_ref(self, x, st):
        """evaluate as an lvalue if possible: returns Ptr(path) or a value"""
        k = x.get("k")
        if k == "ref":
            e = st["env"].get(x["d"])
            if e is not None:
                if isinstance(e, Ptr): return e
                return e
            return Ptr(("::" + x["d"],))
        if k == "this": return Ptr(st["env"]["this"] if isinstance(st["env"]["this"], tuple) else st["env"]["this"].path)
        if k == "mem":
            b = x["b"]
            base = self.ev(b, st) if x.get("ar") and b.get("k") != "this" else self.ev_ref(b, st)
            if isinstance(base, Ptr): return Ptr(base.path + (x["n"],))
            if isinstance(base, Op): return Ptr((("*" if x.get("ar") else "=") + base.n, x["n"])) if x.get("ar") else self.select(base, x["n"], x["t"])
            return self.select(base, x["n"], x["t"])
        if k == "idx":
            b = self.ev_ref(x["a"][0], st) if x["a"][0].get("t", "").endswith("]") else self.ev(x["a"][0], st)
            i = self.ev(x["a"][1], st)
            step = "[%s]" % self.I.name(i.key())
            if isinstance(b, Ptr):
                # (&v.x)[k] designates the k-th component of a vector
                if b.path[-1] == "x" and step in ("[0]", "[1]", "[2]"): return Ptr(b.path[:-1] + ("xyz"[int(step[1])],))
                return Ptr(b.path + (step,))
            if isinstance(b, Op): return Ptr(("*" + b.n, step))
            return self.opq("%s%s" % (b.key(), step), x["t"])
        if k == "un" and x["op"] == "*":
            p = self.ev(x["a"][0], st)
            if isinstance(p, Ptr): return p
            if isinstance(p, Op): return Ptr(("*" + p.n,))
            return Ptr(("*" + p.key(),))
        if k == "cast": return self.ev_ref(x["a"][0], st)
        if k == "cond":
            c = self.cond(x["a"][0], st)
            a = self.ev_ref(x["a"][1], st); b = self.ev_ref(x["a"][2], st)
            if c is True: return a
            if c is False: return b
            if a.key() == b.key(): return a
            return self.app("?", [Sc(atom(str(c))), self.rv(a, x.get("t")), self.rv(b, x.get("t"))], x.get("t"))
        if k == "call":
            return self.call(x, st, want_ref=True)
        if k == "asg" or (k == "un" and x["op"] in ("++", "--")):
            self.ev(x, st); return self.ev_ref(x["a"][0], st)
        return self.ev(x, st)

    def leaves(self, v, depth=8):
        """the values merged into v by joins and conditional expressions"""
        if isinstance(v, Sc) and len(v.p) == 1 and depth:
            (m, c), = v.p.items()
            inf = self.I.info.get(m[0]) if len(m) == 1 and c == 1 else None
            if inf and inf[0] in ("phi", "sel"):
                return self.leaves(inf[2], depth - 1) + self.leaves(inf[3], depth - 1)
        return [v]
    def cases(self, v, depth=8):
        """[(conditions, value)] of a merged value; conditions: (atom, polarity)"""
        if isinstance(v, Op) and depth:
            inf = self.I.info.get(v.n)
            if inf and inf[0] == "phi":
                return [([(inf[1], True)] + g, x) for g, x in self.cases(inf[2], depth - 1)] + [([(inf[1], False)] + g, x) for g, x in self.cases(inf[3], depth - 1)]
        if isinstance(v, Sc) and len(v.p) == 1 and depth:
            (m, c), = v.p.items()
            inf = self.I.info.get(m[0]) if len(m) == 1 and c == 1 else None
            if inf and inf[0] in ("phi", "sel"):
                return [([(inf[1], True)] + g, x) for g, x in self.cases(inf[2], depth - 1)] + [([(inf[1], False)] + g, x) for g, x in self.cases(inf[3], depth - 1)]
        return [([], v)]

    def rv(self, v, t):
        """lvalue-to-rvalue"""
        if isinstance(v, Ptr): return self.load(v.path, t)
        return v

    def ev(self, x, st):
        k = x.get("k")
        if k in ("mem", "idx", "call"): self.at = x
        if k == "lit":
            v = x["v"]
            return Sc(const(Fraction(v) if not isinstance(v, float) else (Fraction(repr(v)) if math.isfinite(v) else Fraction(0)))) if not isinstance(v, bool) else Sc(const(int(v)))
        if k == "enum": return Sc(const(x["v"])) if False else Sc(atom("#" + x["n"]))
        if k in ("ref", "mem", "idx"):
            r = self.ev_ref(x, st)
            t = x.get("t", "")
            if isinstance(r, Ptr):
                if t.endswith("]"): return r
                if t.endswith("*") and r.path[0].startswith("$") and len(r.path) == 1 and k == "ref": return r
                return self.load(r.path, t)
            return r
        if k == "this": return Ptr(st["env"]["this"] if isinstance(st["env"]["this"], tuple) else st["env"]["this"].path)
        if k == "cast":
            v = self.ev(x["a"][0], st)
            return v
        if k == "un":
            op = x["op"]
            if op == "&": return self.ev_ref(x["a"][0], st)
            if op == "*": return self.rv(self.ev_ref(x, st), x["t"])
            if op[:2] in ("++", "--"):
                r = self.ev_ref(x["a"][0], st); v = self.rv(r, x["a"][0].get("t"))
                nv = Sc(padd(v.p, ONE, 1 if op[0] == "+" else -1)) if isinstance(v, Sc) else self.app(op, [v], x.get("t"))
                if isinstance(r, Ptr): self.store(r.path, nv, x["a"][0].get("t"), x)
                return v if op.endswith("p") else nv
            v = self.ev(x["a"][0], st)
            if op == "-" and isinstance(v, Sc): return Sc(pneg(v.p))
            if op == "+" : return v
            if op == "!":
                if isinstance(v, Sc) and isconst(v.p): return Sc(const(0 if cval(v.p) else 1))
                k0 = v.key()
                if k0.startswith("!(") and k0.endswith(")") and self.I.info.get(k0, (None,))[0] == "not": return self.I.info[k0][1]
                n = self.I.name("!(" + k0 + ")"); self.I.info[n] = ("not", v)
                return Sc(atom(n))
            return self.app(op, [v], x.get("t"))
        if k == "bin": return self.binop(x, st)
        if k == "asg":
            r = self.ev_ref(x["a"][0], st); t = x["a"][0].get("t", x.get("t"))
            if x["op"] == "=": v = self.ev(x["a"][1], st)
            else:
                o = self.rv(r, t); y = self.ev(x["a"][1], st)
                v = self.arith(x["op"][:-1], o, y, t)
            if isinstance(r, Ptr): self.store(r.path, v, t, x)
            return v
        if k == "cond":
            c = self.cond(x["a"][0], st)
            if c is True: return self.ev(x["a"][1], st)
            if c is False: return self.ev(x["a"][2], st)
            before = self.snap()
            self.guards.append((c, True)); a = self.ev(x["a"][1], st); self.guards.pop()
            m1 = self.snap(); self.restore(before)
            self.guards.append((c, False)); b = self.ev(x["a"][2], st); self.guards.pop()
            self.mem = self.joinmem(m1, self.snap(), c)
            if a.key() == b.key(): return a
            if isinstance(a, Sc) and isinstance(b, Sc):
                n = self.I.name("sel(%s; %s; %s)" % (c, a.key(), b.key()), ("sel", c, a, b)); return Sc(atom(n))
            return self.joinv(a, b, c)
        if k == "call": return self.call(x, st)
        if k == "ctor": return self.ctor(x, st)
        if k == "new":
            pls = [self.ev(p, st) for p in x["pl"]]
            v = self.ev(x["init"], st) if isinstance(x.get("init"), dict) else None
            if pls and isinstance(pls[0], Ptr) and len(pls[0].path) == 2 and pls[0].path[0].startswith("*") and pls[0].path[1].startswith("["):
                if v is None: v = self.app("ctor:" + x["t"], [], x["t"])
                self.store(pls[0].path, v, x["t"], x)
                return pls[0]
            self.fresh += 1
            path = ("new%d:%s" % (self.fresh, x["t"]),)
            if v is not None: self.mem[path] = (v, x["t"])
            self.news.append((x["t"], pls[0] if pls else None, path, tuple(self.guards), tuple(self.loops), x, len(self.calls)))
            return Ptr(path)
        if k == "null": return Sc(ZERO)
        if k == "sizeof": return Sc(const(x.get("v", 0)))
        if k == "zero": 
            if self.is_scalar(x["t"]): return Sc(ZERO)
            return self.opq("zero", x["t"])
        if k == "str": return Op("str", "char *")
        if k == "lambda": return Op("lambda%d" % x["l"], "lambda")
        if k == "fref": return Op("fn:" + x["f"], "fn")
        if k == "ilist":
            vs = [self.ev(a, st) for a in x["a"]]
            return St(x.get("t", ""), {"[%d]" % i: v for i, v in enumerate(vs)})
        for c in children(x): self.ev(c, st)
        self.fresh += 1
        return self.opq("%s%d" % (k, self.fresh), x.get("t", ""))

    def arith(self, op, a, b, t):
        if isinstance(a, Sc) and isinstance(b, Sc):
            if op == "+": return Sc(padd(a.p, b.p))
            if op == "-": return Sc(psub(a.p, b.p))
            if op == "*":
                if len(a.p) * len(b.p) > 4000: a, b = self.cutsc(a), self.cutsc(b)
                return Sc(pmul(a.p, b.p))
            if op == "/":
                if isconst(b.p) and cval(b.p) and base_type(t or "") in ("float", "double", ""): return Sc({m: c / cval(b.p) for m, c in a.p.items()})
                if not b.p: return self.pure_scalar("/0", [a])
                lead = b.p[sorted(b.p)[0]]
                n = {m: c / lead for m, c in b.p.items()}
                inv = self.I.name("inv(%s)" % pkey(n), ("inv", n))
                return Sc({m: c / lead for m, c in pmul(a.p, atom(inv)).items()})
        return self.pure_scalar(op, [a, b]) if self.is_scalar(t or "float") else self.app(op, [a, b], t)
    def cutsc(self, v):
        o = self.MAXT; self.MAXT = 8
        r = self.cut(v); self.MAXT = o
        return r

    def binop(self, x, st):
        op = x["op"]
        if op == ",":
            self.ev(x["a"][0], st); return self.ev(x["a"][1], st)
        a = self.ev(x["a"][0], st)
        if op in ("&&", "||"):
            if isinstance(a, Sc) and isconst(a.p):
                if bool(cval(a.p)) == (op == "||"): return Sc(const(int(op == "||")))
                return self.ev(x["a"][1], st)
            self.guards.append((self.I.name(a.key()), op == "&&")); b = self.ev(x["a"][1], st); self.guards.pop()
            if isinstance(b, Sc) and isconst(b.p):
                if bool(cval(b.p)) == (op == "||"): return Sc(const(int(op == "||")))
                return a
            ks = sorted([a.key(), b.key()])
            n = self.I.name("(%s %s %s)" % (ks[0], op, ks[1]), ("logic", op, a, b)); return Sc(atom(n))
        b = self.ev(x["a"][1], st)
        if op == "+" and x.get("t", "").endswith("*"):
            if isinstance(a, Sc) and not isinstance(b, Sc): a, b = b, a
            step = "[%s]" % self.I.name(b.key())
            if isinstance(a, Op): return Ptr(("*" + a.n, step))
            if isinstance(a, Ptr) and not a.path[-1].startswith("["): return Ptr(a.path + (step,))
        if op in ("+", "-", "*", "/"):
            return self.arith(op, a, b, x.get("t"))
        if op in ("<", ">", "<=", ">=", "==", "!="):
            if isinstance(a, Sc) and isinstance(b, Sc):
                d = psub(a.p, b.p)
                if isconst(d):
                    v = cval(d); r = {"<": v < 0, ">": v > 0, "<=": v <= 0, ">=": v >= 0, "==": v == 0, "!=": v != 0}[op]
                    return Sc(const(int(r)))
                # canonical: d OP 0 with op in {<,<=,==,!=}
                o = op
                if o in (">", ">="): d = pneg(d); o = "<" if o == ">" else "<="
                if o in ("==", "!="):
                    lead = d[sorted(d)[0]]
                    if lead < 0: d = pneg(d)
                neg = None
                if o == "!=": neg = "=="; 
                n = self.I.name("(%s %s 0)" % (pkey(d), "==" if neg else o), ("cmp", "==" if neg else o, d))
                if neg:
                    n2 = self.I.name("!(" + n + ")"); self.I.info[n2] = ("not", Sc(atom(n))); return Sc(atom(n2))
                return Sc(atom(n))
            ks = [a.key(), b.key()]
            if op in ("==", "!="): ks.sort()
            n = self.I.name("(%s == %s)" % tuple(ks), ("same", a, b)) if op in ("==", "!=") else self.I.name("(%s %s %s)" % (ks[0], op, ks[1]))
            if op == "!=":
                n2 = self.I.name("!(" + n + ")"); self.I.info[n2] = ("not", Sc(atom(n))); return Sc(atom(n2))
            return Sc(atom(n))
        return self.pure_scalar(op, [a, b])

    # ---------------- calls
    def ctor(self, x, st):
        args = x.get("a", [])
        if x.get("copy") and len(args) == 1: return self.ev(args[0], st)
        fn = self.P.fns.get(x.get("f"))
        if fn is None or self.opaque(fn) or len(self.stack) > self.depth:
            vs = [self.ev(a, st) for a in args]
            if x.get("triv") or not vs:
                self.fresh += 1
                return St(base_type(x["t"]), {}, None) if fn is None and not vs else self.app("ctor:" + base_type(x["t"]), vs, x["t"])
            return self.app("ctor:" + base_type(x["t"]), vs, x["t"])
        self.frame += 1; path = ("%%tmp#%d" % self.frame,)
        self.mem[path] = (St(base_type(x["t"]), {}, None), base_type(x["t"]))
        self.invoke(fn, Ptr(path), args, x, st)
        v = self.load(path, base_type(x["t"]))
        for p in [p for p in self.mem if p[0] == path[0]]: del self.mem[p]
        return v

    def invoke(self, fn, this, args, x, st):
        """inline a known function"""
        self.frame += 1; fr = self.frame
        env = {"this": this.path if isinstance(this, Ptr) else ("none",)}
        for i, p in enumerate(fn.ps):
            t = p["t"]
            if i >= len(args):
                env[p["d"]] = self.opq("noarg", t); continue
            a = args[i]
            if t.endswith("&"):
                v = self.ev_ref(a, st)
                if not isinstance(v, Ptr):
                    path = ("%%%s#%d" % (p["n"] or "p", fr),); self.mem[path] = (v, base_type(t)); v = Ptr(path)
                env[p["d"]] = v
            else:
                v = self.ev(a, st)
                path = ("%%%s#%d" % (p["n"] or "p", fr),); self.mem[path] = (v, t); env[p["d"]] = Ptr(path)
        self.stack.append(fn)
        loops = self.loops
        g0 = len(self.guards)
        st2 = {"env": env, "fr": fr, "ret": None, "fn": fn, "base": g0, "exits": []}
        for i in fn.inits:
            if i.get("field") and isinstance(i.get("e"), dict):
                e = i["e"]
                fl = self.P.field(fn.cls, i["field"])
                ft = fl["t"] if fl else ""
                if e.get("k", "").startswith("x:"): 
                    # implicit array copy
                    src = env.get(fn.ps[0]["d"]) if fn.ps else None
                    if isinstance(src, Ptr):
                        self.store(this.path + (i["field"],), self.load(src.path + (i["field"],), ft), ft, i, record=False); continue
                v = self.ev_ref(e, st2) if ft.endswith("&") else self.ev(e, st2)
                self.store(this.path + (i["field"],), v, ft, {"l": i["l"], "k": "init"}, record=not this.path[0].startswith("%"))
        r = self.exec(fn.body, st2)
        st2.pop("pend", None)
        del self.guards[g0:]
        self.join_exits(r, st2)
        self.stack.pop()
        r = self.returned(st2)
        for p in [p for p in self.mem if p[0].startswith("%") and p[0].endswith("#%d" % fr)]:
            if isinstance(r, Ptr) and r.path[0] == p[0]: continue
            if any(isinstance(v, Ptr) and v.path[0] == p[0] for v, _ in self.mem.values()): continue
            del self.mem[p]
        return r

    def call(self, x, st, want_ref=False):
        n = x.get("n"); op = x.get("op"); args = x.get("a", []); o = x.get("o"); t = x.get("t", "")
        fn = self.P.fns.get(x.get("f"))
        cls = x.get("cls", "")
        cb = cls.split("<")[0]
        # containers: element access is a step on the path
        if o is not None and cb in ("Array", "Map", "Deque") and op == "[]" or (o is not None and cb in ("Map",) and n in ("find",)):
            b = self.ev(o, st) if x.get("ar") else self.ev_ref(o, st)
            i = self.ev(args[0], st)
            if cb == "Map" and self.mapname:
                nm = self.mapname(b, i)
                if nm: return Sc(atom(nm))
            step = "[%s]" % self.I.name(i.key())
            if isinstance(b, Op): b = Ptr(("=" + b.n,))
            if isinstance(b, Ptr):
                p = Ptr(b.path + (step,))
                return p if want_ref and n != "find" else self.load(p.path, base_type(t) if not t.endswith("*") else t)
            r = self.opq("%s%s" % (b.key(), step), t); return r
        targets = self.P.targets(x)
        virtual = x.get("virt") and len([k for k in targets if k in self.P.fns]) != 1
        if x.get("virt") and not virtual:
            fn = self.P.fns.get([k for k in targets if k in self.P.fns][0])
        recursive = fn in self.stack
        hook = self.hook(x, fn, st) if hasattr(self, "hook") else None
        if hook is not None: return hook
        if fn is not None and fn.body is not None and not virtual and not recursive and len(self.stack) <= self.depth and not self.opaque(fn):
            this = Ptr(("none",))
            if o is not None:
                this = self.ev(o, st) if x.get("ar") and o.get("k") != "this" else self.ev_ref(o, st)
                if isinstance(this, Op): this = Ptr((("*" if x.get("ar") else "=") + this.n,))
                elif not isinstance(this, Ptr):
                    self.frame += 1; path = ("%%tmp#%d" % self.frame,); self.mem[path] = (this, base_type(o.get("t", ""))); this = Ptr(path)
            r = self.invoke(fn, this, args, x, st)
            if r is None: return Sc(ZERO)
            if want_ref: return r
            rt = fn.rt or ""
            if isinstance(r, Ptr) and rt.endswith("&"): return self.load(r.path, base_type(rt) if not rt.rstrip("& ").endswith("*") else rt)
            return r
        if op == "=" and o is not None and len(args) == 1 and (fn is None or fn.body is None or fn.ps and not fn.ps[0]["n"] and (fn.cls.endswith("Iterator") or not fn.cls.startswith(("Array", "Map", "Set", "Deque", "Stack")))) and not x.get("virt"):
            # implicitly defined assignment: copies the value
            d = self.ev(o, st) if x.get("ar") else self.ev_ref(o, st); ty = base_type(o.get("t", ""))
            v = self.rv(self.ev(args[0], st), ty)
            if isinstance(d, Ptr): self.store(d.path, v, ty, x); return d if want_ref else v
        if n == "__builtin_memcpy" and len(args) == 3:
            d, s_ = self.ev(args[0], st), self.ev(args[1], st)
            if isinstance(d, Ptr) and isinstance(s_, Ptr):
                tt = args[0]["a"][0].get("t", "") if args[0].get("a") else ""
                self.store(d.path, self.load(s_.path, tt), tt, x)
                return d
        if n == "swap" and fn is None and o is None and len(args) == 2:
            a, b = self.ev_ref(args[0], st), self.ev_ref(args[1], st)
            if isinstance(a, Ptr) and isinstance(b, Ptr):
                ta, tb = args[0].get("t", ""), args[1].get("t", "")
                u, v = self.rv(self.load(a.path, ta), ta), self.rv(self.load(b.path, tb), tb)
                self.store(a.path, v, ta, x); self.store(b.path, u, tb, x)
                return Sc(ZERO)
        # uninterpreted
        vs = []
        ov = None
        if o is not None:
            ov = self.ev_ref(o, st)
            ovv = ov
            if isinstance(ov, Ptr): ovv = self.load(ov.path, o.get("t", "")) if o.get("t", "").endswith("*") and ov.path[0].startswith("%") and len(ov.path) == 1 else ov if o.get("t", "").endswith("*") else self.rv(ov, base_type(o.get("t", "")))
            vs.append(ovv)
        pts = split_params(x.get("f") or "")
        refs = []
        for i, a in enumerate(args):
            pt = pts[i] if i < len(pts) else ""
            if pt.endswith("&"):
                r = self.ev_ref(a, st)
                if writable_param(pt) and isinstance(r, Ptr) and n not in ("move", "forward", "emplace"): refs.append((r, a.get("t")))
                vs.append(self.rv(r, base_type(a.get("t", ""))))
            else: vs.append(self.ev(a, st))
        self.calls.append(Event(path=(x.get("f") or "?",), old=vs, new=None, guards=tuple(self.guards), node=x, fn=self.stack[-1] if self.stack else None, loops=tuple(self.loops), kind="call", seq=len(self.events), chain=tuple(self.stack)))
        if n in ("move", "forward") and len(vs) == 1: return vs[0]
        pure = not refs and (o is None or x.get("cm"))
        if pure:
            if n in ("abs", "sqrt", "max", "min", "sin", "cos", "fabs", "acos", "asin", "atan2", "pow", "floor", "ceil", "clamp", "exp", "isfinite", "numeric_limits"):
                ks = vs
                if n in ("max", "min"): ks = sorted(vs, key=lambda v: v.key())
                return self.pure_scalar(n, ks)
            r = self.app((cls + "::" if cls else "") + (n or "?"), vs, t)
            return r
        self.fresh += 1
        for k, (r, ty) in enumerate(refs, 1): self.store(r.path, self.opq("%s!%d.%d" % (n, self.fresh, k), base_type(ty or "")), base_type(ty or ""), x)
        if o is not None and isinstance(ov, Ptr) and not x.get("cm"):
            ot = base_type(o.get("t", ""))
            if cb == "Array" and n in ("removeAt", "removeAtAndReplaceByLast"): self.store(ov.path, self.app(n + "!", vs, ot), ot, x, record=False)   # the elements have moved
            # deterministic function of the receiver and the arguments
            nv = self.app((cls + "::" if cls else "") + (n or "?") + "!", vs, ot) if not ot.endswith("*") else None
            if nv is not None and (cb in ("Vector3", "Vector2", "Matrix3x3", "Matrix2x2", "Quaternion", "Transform")):
                self.store(ov.path, nv, ot, x)
        return self.app((cls + "::" if cls else "") + (n or "?") + "'", vs, t)

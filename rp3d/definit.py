"""Definite assignment: the fields of *this assigned on every path of a constructor or method, and the scalar locals of a
function that may be read before they are assigned (forward must-analysis over the control-flow graph)."""
from .model import walk, children, show
from .cfg import cfg
from .effects import split_params, writable_param

def strip(e):
    while isinstance(e, dict) and e.get("k") in ("cast", "paren") and isinstance(e.get("a"), list): e = e["a"][0]
    return e

def this_field(e, cls=None):
    """name of the field of *this that the lvalue e lies in (through indexing and nested members)"""
    e = strip(e)
    while isinstance(e, dict):
        k = e.get("k")
        if k == "mem":
            b = strip(e["b"]) if e.get("b") else None
            if b is None or b.get("k") == "this": return e["n"]
            e = b
        elif k == "idx": e = strip(e["a"][0])
        elif k == "un" and e.get("op") in ("&", "*"): e = strip(e["a"][0])
        else: return None
    return None

def flow(G, entry, gen):
    """must analysis: dict node id -> set known on entry"""
    IN = {G.entry.i: frozenset(entry)}; work = [G.entry]; genc = {}
    while work:
        n = work.pop()
        if n.i not in genc: genc[n.i] = gen(n)
        out = IN[n.i] | genc[n.i]
        for s, l in n.succ:
            o = IN.get(s.i)
            new = out if o is None else (o & out)
            if o is None or new != o:
                IN[s.i] = frozenset(new); work.append(s)
    return IN, genc

class Fields:
    def __init__(self, P): self.P = P; self.memo = {}
    def target(self, f, call):
        """the callee of a call on *this; virtual calls from constructors are resolved to the class itself"""
        return self.P.fns.get(call.get("f"))
    def of(self, f, stack=()):
        """fields of *this (own class and bases) definitely assigned when f returns"""
        if f.f in self.memo: return self.memo[f.f]
        if f.f in stack: return frozenset()
        P = self.P
        init = set()
        for i in f.inits:
            if i.get("field"):
                e = i.get("e")
                if e is not None and not (isinstance(e, dict) and e.get("k") == "ctor" and e.get("noop")): init.add(i["field"])
                fl = P.field(f.cls, i["field"])
            elif isinstance(i.get("e"), dict) and i["e"].get("k") == "ctor":
                t = P.fns.get(i["e"].get("f"))
                if t: init |= self.of(t, stack + (f.f,))
        G = cfg(f)
        arrays = {x["n"] for c in P.bases(f.cls) for x in P.classes.get(c, {}).get("fields", []) if x["t"].endswith("]")}
        def gen(n):
            out = set()
            if not isinstance(n.x, dict): return out
            for y in walk(n.x):
                out |= self.assigned(f, y, stack)
            return out
        IN, _ = flow(G, init, gen)
        res = IN.get(G.exit.i, frozenset())
        if f.rt == "bool":
            # a method that reports failure: what is assigned when it reports success
            oks = []
            for n in G.nodes:
                if n.kind == "r" and n.i in IN:
                    e = strip(n.x.get("e") or {})
                    if e.get("k") == "lit" and not e.get("v"): continue
                    oks.append(IN[n.i])
            if oks: res = frozenset.intersection(*map(frozenset, oks))
        res = set(res)
        # arrays are filled by loops: a write anywhere in the body (or in a method called on *this) counts
        for y in f.nodes():
            for a in self.assigned(f, y, stack):
                if a in arrays: res.add(a)
        self.memo[f.f] = frozenset(res)
        return self.memo[f.f]
    def assigned(self, f, y, stack):
        k = y.get("k"); out = set()
        if k == "asg" and y.get("op") == "=":
            n = this_field(y["a"][0])
            if n: out.add(n)
            b = strip(y["a"][0])
            if b.get("k") == "un" and b.get("op") == "*" and strip(b["a"][0]).get("k") == "this": out |= self.allf(f.cls)
        elif k in ("call", "ctor"):
            if k == "call":
                o = strip(y.get("o")) if y.get("o") else None
                if y.get("op") == "=" :
                    a = ([y["o"]] if y.get("o") else []) + y.get("a", [])
                    n = this_field(a[0]) if a else None
                    if n: out.add(n)
                    if a and (strip(a[0]).get("k") == "this" or (strip(a[0]).get("k") == "un" and strip(strip(a[0])["a"][0]).get("k") == "this")): out |= self.allf(f.cls)
                t = self.P.fns.get(y.get("f"))
                if t is not None and o is not None and (o.get("k") == "this" or (o.get("k") == "un" and o.get("op") == "*" and strip(o["a"][0]).get("k") == "this")):
                    out |= self.of(t, stack + (f.f,))
                    for s in self.P.overriders(y["f"]) if y.get("virt") else ():
                        g = self.P.fns.get(s)
                        if g is not None and g.cls == f.cls: out |= self.of(g, stack + (f.f,))
            pts = split_params(y.get("f") or "")
            for i, a in enumerate(y.get("a", [])):
                pt = pts[i] if i < len(pts) else ("void *" if y.get("n") in ("memcpy", "memset", "memmove", "__builtin_memcpy") and i == 0 else "")
                if writable_param(pt):
                    n = this_field(a)
                    if n: out.add(n)
        return out
    def allf(self, cls):
        return {x["n"] for c in self.P.bases(cls) for x in self.P.classes.get(c, {}).get("fields", [])}

SC = {"bool", "int", "unsigned int", "float", "double", "char", "unsigned char", "signed char", "short", "unsigned short", "unsigned long", "long", "long long", "unsigned long long"}
def scalar(P, t):
    t0 = t.replace("const ", "").replace(" const", "").strip()
    return t0 in SC or t0.endswith("*") or t0 in P.enums

def scalar_fields(P, c):
    return [x for x in P.classes[c]["fields"] if (scalar(P, x["t"]) or (x["t"].endswith("]") and scalar(P, x["t"][:x["t"].index("[")].strip()))) and not x.get("static")]

def undefined_after(P, F, c, f):
    """scalar fields of class c that constructor f leaves undefined on some path"""
    got = F.of(f)
    return [x["n"] for x in scalar_fields(P, c) if x["n"] not in got and not x.get("init")]

def own(f): return f.file.startswith(("src/", "include/"))

def undefined_reads(P, f, badctors=()):
    """(variable, node) for scalar locals of f that are read on a path on which they have not been assigned"""
    cand = {}
    for n in f.nodes():
        if n.get("k") == "decl":
            for v in n["a"]:
                if v.get("i") is None and scalar(P, v["t"]) and not v.get("static") and not v.get("staticlocal"): cand[v["d"]] = v
                elif isinstance(v.get("i"), dict) and v["i"].get("k") == "ctor" and v["i"].get("f") in badctors: cand[v["d"]] = v
    if not cand: return [], 0
    G = cfg(f)
    def refs(x):
        """evaluation-ordered list of ('w'|'r', d, node)"""
        out = []
        def lval(e):
            e0 = strip(e)
            return e0.get("d") if e0.get("k") == "ref" and e0.get("d") in cand else None
        def go(e):
            if not isinstance(e, dict): return
            k = e.get("k")
            if k == "asg":
                go(e["a"][1])
                d = lval(e["a"][0])
                if d is not None:
                    if e.get("op") != "=": out.append(("r", d, e))
                    out.append(("w", d, e))
                else: go(e["a"][0])
                return
            if k == "call":
                pts = split_params(e.get("f") or "")
                args = e.get("a", [])
                if e.get("op") == "=":
                    tgt = e.get("o") or (args[0] if args else None)
                    d = lval(tgt) if tgt is not None else None
                    if d is not None:
                        for a in (args if e.get("o") else args[1:]): go(a)
                        out.append(("w", d, e)); return
                if e.get("o"): go(e["o"])
                if e.get("fe"): go(e["fe"])
                late = []
                for i, a in enumerate(args):
                    pt = pts[i] if i < len(pts) else ""
                    d = lval(a)
                    a0 = strip(a)
                    if d is not None and pt.endswith("&"):
                        if writable_param(pt): late.append(("w", d, e))
                        else: out.append(("r", d, a))
                    elif a0.get("k") == "un" and a0.get("op") == "&" and lval(a0["a"][0]) is not None: late.append(("w", lval(a0["a"][0]), e))
                    else: go(a)
                out.extend(late); return
            if k == "ctor":
                pts = split_params(e.get("f") or "")
                for i, a in enumerate(e.get("a", [])):
                    pt = pts[i] if i < len(pts) else ""
                    d = lval(a)
                    if d is not None and pt.endswith("&") and writable_param(pt): out.append(("w", d, e))
                    else: go(a)
                return
            if k == "un" and e.get("op") == "&" and lval(e["a"][0]) is not None: out.append(("w", lval(e["a"][0]), e)); return
            if k == "ref":
                if e.get("d") in cand: out.append(("r", e["d"], e))
                return
            if k == "var":
                if e.get("isref") and e.get("i") is not None and lval(e["i"]) is not None: out.append(("w", lval(e["i"]), e)); return
                go(e.get("i"))
                if e["d"] in cand: out.append(("k", e["d"], e))
                return
            if k == "lambda":
                for y in walk(e):
                    if y.get("k") == "ref" and y.get("d") in cand: out.append(("w", y["d"], y))
                return
            for c in children(e): go(c)
        go(x); return out
    R = {n.i: refs(n.x) if isinstance(n.x, dict) else [] for n in G.nodes}
    # the analysis is disjunctive in the locals that still hold a known constant, so that a test of such a local (entry == INVALID)
    # separates the paths on which the others have been assigned
    cmpv = {}
    def constkey(e):
        e = strip(e)
        if e.get("k") == "lit": return str(e.get("v"))
        if e.get("k") in ("enum", "null"): return str(e.get("n", "null"))
        if e.get("k") == "ref" and e.get("dk") == "global": return e["d"]
        if e.get("k") == "mem" and e.get("static"): return e["n"]
        if e.get("k") == "un" and e.get("op") == "-" and strip(e["a"][0]).get("k") == "lit": return "-" + str(strip(e["a"][0]).get("v"))
        return None
    for n in G.nodes:
        if n.kind == "c" and isinstance(n.x, dict):
            x = strip(n.x)
            if x.get("k") == "ref" and x.get("t") == "bool": cmpv.setdefault(x.get("d"), set())
            if x.get("k") == "bin" and x.get("op") in ("==", "!="):
                l, r = strip(x["a"][0]), strip(x["a"][1])
                for u, w in ((l, r), (r, l)):
                    if u.get("k") == "ref" and constkey(w) is not None: cmpv.setdefault(u.get("d"), set())
    def known_before(n, c):
        """constants after node n, given those before"""
        c = dict(c)
        for y in walk(n.x):
            k = y.get("k")
            if k == "var" and y["d"] in cmpv:
                ck = constkey(y["i"]) if y.get("i") is not None else None
                if ck is not None: c[y["d"]] = ck
                else: c.pop(y["d"], None)
            elif k == "asg":
                t = strip(y["a"][0])
                if t.get("k") == "ref" and t.get("d") in cmpv:
                    ck = constkey(y["a"][1]) if y.get("op") == "=" else None
                    if ck is not None: c[t["d"]] = ck
                    else: c.pop(t["d"], None)
            elif k == "un" and y.get("op", "")[:2] in ("++", "--", "&"):
                t = strip(y["a"][0])
                if t.get("k") == "ref": c.pop(t.get("d"), None)
            elif k == "call":
                for a in y.get("a", []):
                    t = strip(a)
                    if t.get("k") == "ref" and t.get("d") in c and not t.get("t", "").startswith("const"):
                        pts = split_params(y.get("f") or "")
                        if any(writable_param(p) for p in pts): c.pop(t["d"], None)
        return c
    def feasible(n, lab, c):
        if n.kind != "c" or lab not in (True, False): return True
        x = strip(n.x)
        if x.get("k") == "ref" and x.get("t") == "bool" and x.get("d") in c:
            return (c[x["d"]] in ("1", "True", "true")) == lab
        if x.get("k") == "bin" and x.get("op") in ("==", "!="):
            l, r = strip(x["a"][0]), strip(x["a"][1])
            for u, w in ((l, r), (r, l)):
                if u.get("k") == "ref" and u.get("d") in c and constkey(w) is not None:
                    same = c[u["d"]] == constkey(w)
                    if same: return (x["op"] == "==") == lab
                    lits = all(z.lstrip("-").replace(".", "").isdigit() for z in (c[u["d"]], constkey(w)))
                    if lits: return (x["op"] == "!=") == lab
        return True
    def transfer(s, n, report=None):
        s = set(s)
        for a, d, y in R[n.i]:
            if a == "w": s.add(d)
            elif a == "k": s.discard(d)
            elif report is not None and d not in s: report.append((cand[d], y))
        return frozenset(s)
    IN = {}; work = []
    def push(n, st):
        cur = IN.setdefault(n.i, {})
        s, c = st
        key = frozenset(c.items())
        if key in cur:
            new = cur[key] & s
            if new == cur[key]: return
            cur[key] = new
        else:
            if len(cur) > 40: key = frozenset(); s = s & cur[key] if key in cur else s
            if cur.get(key) == s: return
            cur[key] = s
        work.append((n, key))
    push(G.entry, (frozenset(), {})); steps = 0
    while work and steps < 50000:
        steps += 1
        n, key = work.pop(); s = IN[n.i].get(key)
        if s is None: continue
        out = transfer(s, n); c = dict(key)
        c2 = known_before(n, c) if isinstance(n.x, dict) else c
        for t, l in n.succ:
            if feasible(n, l, c2): push(t, (out, c2))
    rep = []
    for n in G.nodes:
        for key, s in IN.get(n.i, {}).items(): transfer(s, n, rep)
    seen = set(); out = []
    for v, y in rep:
        if (v["d"], id(y)) not in seen: seen.add((v["d"], id(y))); out.append((v, y))
    return out, len(cand)

def must_assign_after(P, F, f, creation, cls, fields):
    """fields of class cls that are not assigned on every path from the creation of an object to the end of f (or to the next creation)"""
    G = cfg(f); start = G.node_of(creation)
    if start is None: return list(fields)
    def gen(n):
        out = set()
        if not isinstance(n.x, dict): return out
        for y in walk(n.x):
            if y.get("k") == "asg" or (y.get("k") == "call" and y.get("op") == "="):
                a = y["a"][0] if y.get("k") == "asg" or not y.get("o") else y["o"]
                e = strip(a)
                while isinstance(e, dict) and e.get("k") in ("idx", "mem"):
                    if e["k"] == "mem" and e.get("c") == cls: out.add(e["n"]); break
                    e = strip(e["a"][0] if e["k"] == "idx" else (e.get("b") or {}))
            elif y.get("k") == "call":
                t = P.fns.get(y.get("f"))
                if t is not None and t.cls == cls and y.get("o") is not None: out |= F.of(t)
                elif t is not None and t is not f:
                    if t.cls == f.cls or any(cls in p["t"] for p in t.ps): out |= set(assigns_of(P, F, t, cls))
        return out
    # must analysis started at the creation
    IN = {}; work = []
    def push(n, s):
        o = IN.get(n.i); new = s if o is None else o & s
        if o is None or new != o: IN[n.i] = new; work.append(n)
    g0 = frozenset(gen(start))
    for t, l in start.succ: push(t, g0)
    missing = set(); ends = {G.exit.i}
    while work:
        n = work.pop()
        if n.i in ends: continue
        if n is start or n.kind == "r" and strip((n.x or {}).get("e") or {}).get("k") == "null": continue
        out = frozenset(IN[n.i] | gen(n))
        for t, l in n.succ: push(t, out)
    final = [IN[i] for i in (G.exit.i, start.i) if i in IN]
    got = frozenset.intersection(*final) if final else frozenset()
    return [x for x in fields if x not in got]

def assigns_of(P, F, t, cls, depth=0):
    """fields of class cls assigned on every path through t (through a reference or pointer parameter)"""
    key = (t.f, cls)
    if not hasattr(F, "am"): F.am = {}
    if key in F.am: return F.am[key]
    F.am[key] = ()
    if depth > 3: return ()
    G = cfg(t)
    def gen(n):
        out = set()
        if isinstance(n.x, dict):
            for y in walk(n.x):
                if y.get("k") == "asg" or (y.get("k") == "call" and y.get("op") == "="):
                    e = strip(y["a"][0] if y.get("k") == "asg" or not y.get("o") else y["o"])
                    while isinstance(e, dict) and e.get("k") in ("idx", "mem"):
                        if e["k"] == "mem" and e.get("c") == cls: out.add(e["n"]); break
                        e = strip(e["a"][0] if e["k"] == "idx" else (e.get("b") or {}))
                elif y.get("k") == "call":
                    u = P.fns.get(y.get("f"))
                    if u is not None and u.cls == cls and y.get("o") is not None: out |= F.of(u)
                    elif u is not None and u is not t and (u.cls == t.cls or any(cls in p["t"] for p in u.ps)): out |= set(assigns_of(P, F, u, cls, depth + 1))
        return out
    IN, _ = flow(G, (), gen)
    F.am[key] = IN.get(G.exit.i, frozenset())
    return F.am[key]

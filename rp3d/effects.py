"""Interprocedural, field-sensitive side-effect (write/read) analysis over the resolved program.

Abstract location = (root, label): root says through what the storage is reached
('this', ('param', k), ('global', name), 'heap', 'fresh', 'local'), label is the last field of an entity-level
(not math/container) class on the access path ("RigidBodyComponents.mMasses"), or None for the root object itself.
Writes performed by a callee are mapped to the caller through the actual arguments; virtual calls take every overrider."""
import re
from .model import walk, children, show, AnalysisBroken

VALUE_DIRS = ("include/reactphysics3d/mathematics/", "include/reactphysics3d/containers/")
SWAP = {"swap"}

def base_type(t):
    t = t.strip()
    t = re.sub(r"^const ", "", t)
    t = re.sub(r"( const)?( ?[*&]+( const)?)+$", "", t)
    return t.strip()

def split_params(key):
    # parameter types from a function key "X::f(a, b<c, d>) const"
    i = key.find("(")
    # operator() has "operator()(": take the matching last group
    d = 0; j = len(key)
    if key.endswith(" const"): key = key[:-6]
    if " @" in key: key = key[:key.index(" @")]
    if not key.endswith(")"): return []
    d = 0
    for j in range(len(key) - 1, -1, -1):
        if key[j] == ")": d += 1
        elif key[j] == "(":
            d -= 1
            if d == 0: break
    s = key[j + 1:-1]
    out = []; d = 0; cur = ""
    for ch in s:
        if ch in "<([": d += 1
        elif ch in ">)]": d -= 1
        if ch == "," and d == 0: out.append(cur.strip()); cur = ""
        else: cur += ch
    if cur.strip(): out.append(cur.strip())
    return out

def writable_param(t):
    t = t.strip()
    if t.endswith("&&"): return True
    if t.endswith("&"): return not t.startswith("const ") and "*const &" not in t.replace("* const", "*const")
    if t.endswith("*"): return not t.startswith("const ")
    return False

class Effects:
    def __init__(self, prog, extra_value=()):
        self.P = prog
        self.valuecls = {c for c, d in prog.classes.items() if d["file"].startswith(VALUE_DIRS)} | set(extra_value)
        self.W = {}      # fn key -> set of (root,label)
        self.R = {}      # fn key -> set of labels read (non local)
        self.RET = {}    # fn key -> set of locations the returned ref/pointer designates
        self.sites = {}  # fn key -> {(root,label): (node, via callee key or None)}
        self.env = {}; self._refs = {}
        for k in prog.fns: self.W[k] = {}; self.R[k] = set(); self.RET[k] = set()
        for k, f in prog.fns.items(): self._prep(f)
        self._callers = prog.callers()
        work = list(reversed(self._postorder())); inw = set(work); n = 0
        while work:
            k = work.pop(); inw.discard(k); n += 1
            if self._fn(prog.fns[k]):
                for c, _ in self._callers.get(k, ()):
                    if c.f not in inw: inw.add(c.f); work.append(c.f)
                # self is re-run (points-to may grow)
                if k not in inw: inw.add(k); work.append(k)
            if n > 200000: raise AnalysisBroken("effects fixpoint")

    def _postorder(self):
        P = self.P; seen = set(); out = []
        for r in P.fns:
            if r in seen: continue
            seen.add(r); st = [(r, iter([t for _, t in P.callees(P.fns[r])]))]
            while st:
                k, it = st[-1]
                for t in it:
                    if t in P.fns and t not in seen:
                        seen.add(t); st.append((t, iter([u for _, u in P.callees(P.fns[t])]))); break
                else: out.append(k); st.pop()
        return out

    # ---- locals' points-to
    def _prep(self, f):
        own = {p["d"]: i for i, p in enumerate(f.ps)}
        f._x["pidx"] = own
        f._x["locals"] = set()
        f._x["ptype"] = {p["d"]: p["t"] for p in f.ps}
        rel = f._x["rel"] = []
        for n in f.nodes():
            k = n.get("k")
            if k == "var": f._x["locals"].add(n["d"])
            if k in ("var", "forr", "asg", "un", "delete", "call", "ctor", "mem", "ret"): rel.append(n)
        self.env[f.f] = {}

    def islabelled(self, cls): return cls not in self.valuecls

    def isref(self, cls, name):
        k = (cls, name)
        if k not in self._refs:
            fl = self.P.field(cls, name); self._refs[k] = bool(fl and fl["t"].endswith("&"))
        return self._refs[k]

    def lv(self, f, x):
        """locations designated by an lvalue expression (or by a class-typed prvalue: local)"""
        k = x.get("k")
        if k == "this": return {("this", None)}
        if k == "ref":
            dk = x.get("dk")
            if dk == "param" and x["d"] in f._x["pidx"]:
                t = f._x["ptype"][x["d"]]
                if t.endswith("&"): return {(("param", f._x["pidx"][x["d"]]), None)}
                return {("local", None)}
            if dk == "global": return {(("global", x["d"]), None)}
            if x.get("isref"):
                e = self.env[f.f].get(x["d"])
                return e if e else {("heap", None)}
            if x["d"] in f._x["locals"]: return {("local", None)}
            return {("local", None)}
        if k == "mem":
            b = x["b"]
            base = self.pv(f, b) if x.get("ar") else self.lv(f, b)
            rf = self.isref(x["c"], x["n"])
            if not self.islabelled(x["c"]): return {("heap", None)} if rf else base
            lab = x["c"] + "." + x["n"]
            if rf: return {("heap", lab)}
            return {(r, lab) for r, _ in base} or {("heap", lab)}
        if k == "idx":
            b = x["a"][0]
            if b.get("t", "").endswith("]"): return self.lv(f, b)
            return self.pv(f, b)
        if k == "un" and x["op"] == "*": return self.pv(f, x["a"][0])
        if k == "un" and x["op"] in ("++", "--"): return self.lv(f, x["a"][0])
        if k == "asg": return self.lv(f, x["a"][0])
        if k == "cast": return self.lv(f, x["a"][0])
        if k == "cond": return self.lv(f, x["a"][1]) | self.lv(f, x["a"][2])
        if k == "bin" and x["op"] == ",": return self.lv(f, x["a"][1])
        if k == "call":
            return self.callret(f, x)
        return {("local", None)}

    def pv(self, f, x):
        """locations designated by dereferencing a pointer-valued expression"""
        k = x.get("k")
        if k == "this": return {("this", None)}
        if k == "un" and x["op"] == "&": return self.lv(f, x["a"][0])
        if k == "un" and x["op"].startswith(("++", "--")): return self.pv(f, x["a"][0])
        if k == "ref":
            if x.get("t", "").endswith("]"): return self.lv(f, x)
            if x.get("dk") == "param" and x["d"] in f._x["pidx"] and not x.get("isref"):
                e = set(self.env[f.f].get(x["d"], ()))
                e.add((("param", f._x["pidx"][x["d"]]), None)); return e
            if x["d"] in f._x["locals"]:
                e = self.env[f.f].get(x["d"])
                if e:
                    if x.get("isref"): return {("heap", l) for r, l in e}
                    return e
                return {("heap", None)}
            return {("heap", None)}
        if k == "mem":
            if x.get("t", "").endswith("]"): return self.lv(f, x)
            l = self.lv(f, x)
            if not self.islabelled(x["c"]): return l
            return {("heap", lab) for _, lab in l}
        if k == "idx":
            return {("heap", lab) for _, lab in self.lv(f, x)}
        if k == "cast": return self.pv(f, x["a"][0])
        if k == "cond": return self.pv(f, x["a"][1]) | self.pv(f, x["a"][2])
        if k == "bin": # pointer arithmetic
            out = set()
            for a in x["a"]:
                if a.get("t", "").endswith("*") or a.get("t", "").endswith("]") or a.get("k") in ("un", "cast", "mem", "ref", "call", "bin", "idx"):
                    if a.get("t") is None or a.get("t", "").endswith(("*", "]")): out |= self.pv(f, a)
            return out or {("heap", None)}
        if k == "asg": return self.pv(f, x["a"][0])
        if k == "call":
            if x.get("t", "").endswith("*"):
                return self.callret(f, x)
            if x.get("op") in ("->", "*"): return self.callret(f, x)
            # reference to a pointer cell
            return {("heap", l) for r, l in self.callret(f, x)}
        if k == "new": return {("fresh", None)}
        if k == "null": return set()
        if k == "ref": return {("heap", None)}
        return {("heap", None)}

    def callret(self, f, x):
        out = set(); known = False
        for t in self.P.targets(x):
            if t in self.P.fns:
                known = True
                for loc in self.RET[t]: out |= self.subst(f, x, loc, t)
        if not known:
            n = x.get("n")
            if n in ("move", "forward", "min", "max", "get") and x.get("a"):
                for a in x["a"]: out |= self.lv(f, a)
                return out
            if n in ("allocate", "malloc"): return {("fresh", None)}
            return {("heap", None)}
        if not out and not known: out = {("heap", None)}
        return out

    def subst(self, f, call, loc, target):
        root, lab = loc
        if root == "this":
            if call.get("k") == "ctor": return {("fresh" if call.get("_new") else "local", lab)} if lab else {("local", None)}
            o = call.get("o")
            if o is None: return {("heap", lab)}
            base = self.pv(f, o) if call.get("ar") or (o.get("t", "").endswith("*") and not call.get("op")) or o.get("k") == "this" else self.lv(f, o)
            return {(r, lab or l) for r, l in base}
        if isinstance(root, tuple) and root[0] == "param":
            i = root[1]; a = call.get("a", [])
            if i >= len(a): return set()
            pt = split_params(target); t = pt[i] if i < len(pt) else ""
            base = self.pv(f, a[i]) if t.endswith("*") or t.endswith("* const") or t.endswith("*const") else self.lv(f, a[i])
            return {(r, lab or l) for r, l in base}
        if root == "local": return set()
        return {(root, lab)}

    def _fn(self, f):
        key = f.f; W = self.W[key]; env = self.env[key]; changed = [False]
        def addw(loc, node, via=None):
            if loc[0] == "local": return
            if loc not in W: W[loc] = (node, via); changed[0] = True
        def adde(d, locs):
            s = env.setdefault(d, set())
            if not locs <= s: s |= locs; changed[0] = True
        R = self.R[key]
        ctor = f.n == "ctor"
        for i in f.inits:
            if i.get("field"):
                addw(("this", f.cls + "." + i["field"]) if self.islabelled(f.cls) else ("this", None), i.get("e") or {"l": i["l"]})
                fld = self.P.field(f.cls, i["field"])
        for n in f._x["rel"]:
            k = n.get("k")
            if k == "var":
                i = n.get("i")
                if i is not None:
                    if n.get("isref"): adde(n["d"], set(self.lv(f, i)))
                    elif n["t"].endswith("*") or n["t"].endswith("*const") or n["t"].endswith("* const"): adde(n["d"], set(self.pv(f, i)))
            elif k == "forr":
                v = n["v"]
                locs = self.lv(f, n["range"])
                if v.get("isref"): adde(v["d"], set(locs))
                elif v["t"].endswith("*"): adde(v["d"], {("heap", l) for r, l in locs})
            elif k == "asg":
                lhs, rhs = n["a"]
                for loc in self.lv(f, lhs): addw(loc, n)
                if lhs.get("k") == "ref" and lhs.get("t", "").endswith("*") and n["op"] == "=":
                    adde(lhs["d"], set(self.pv(f, rhs)))
            elif k == "un" and n["op"][:2] in ("++", "--"):
                for loc in self.lv(f, n["a"][0]): addw(loc, n)
            elif k == "delete":
                for loc in self.pv(f, n["a"][0]): addw(loc, n)
            elif k in ("call", "ctor"):
                known = False
                for t in self.P.targets(n):
                    if t in self.P.fns:
                        known = True
                        for loc in list(self.W[t]):
                            for l2 in self.subst(f, n, loc, t): addw(l2, n, t)
                        self_r = self.R[t]
                        if not self_r <= R: R |= self_r; changed[0] = True
                if not known: self._ext(f, n, addw)
            elif k == "mem":
                if self.islabelled(n["c"]):
                    lab = n["c"] + "." + n["n"]
                    if lab not in R: R.add(lab); changed[0] = True
            elif k == "ret" and n.get("e") is not None:
                rt = f.rt or ""
                locs = None
                if rt.endswith("&"): locs = self.lv(f, n["e"])
                elif rt.endswith("*"): locs = self.pv(f, n["e"])
                if locs and not locs <= self.RET[key]: self.RET[key] |= locs; changed[0] = True
        return changed[0]

    def _ext(self, f, n, addw):
        """callee outside the analysed program"""
        name = n.get("n"); key = n.get("f")
        if name in ("memcpy", "memset", "memmove", "memcpy_s") and n["a"]:
            for loc in self.pv(f, n["a"][0]): addw(loc, n)
            return
        if key is None: return
        if n["k"] == "ctor": 
            return
        pts = split_params(key)
        for i, a in enumerate(n.get("a", [])):
            t = pts[i] if i < len(pts) else ""
            if not t: continue
            if name in ("move", "forward", "get"): continue
            if t.endswith("&&") : continue
            if writable_param(t):
                if name in ("addressof",): continue
                locs = self.pv(f, a) if t.endswith("*") else self.lv(f, a)
                for loc in locs: addw(loc, n)
        if n.get("o") is not None and not n.get("cm") and n["k"] == "call" and name not in ("dtor", "begin", "end", "size", "operator*", "operator->", "lock", "get"):
            o = n["o"]
            locs = self.pv(f, o) if o.get("t", "").endswith("*") else self.lv(f, o)
            for loc in locs: addw(loc, n)

    # ---- results
    def writes(self, key, labels_only=True):
        """labels written by key, ignoring writes to locals and freshly allocated objects"""
        out = set()
        for (r, l) in self.W.get(key, {}):
            if r in ("local", "fresh"): continue
            if isinstance(r, tuple) and r[0] == "global": out.add("::" + r[1] if not l else l); continue
            out.add(l if l else "*" + (r if isinstance(r, str) else "%s%d" % r))
        return out

    def site_writes(self, f, x):
        """locations written by evaluating the syntax tree x inside f: [(root, label, node, via)]"""
        out = []
        def addw(loc, node, via=None):
            if loc[0] not in ("local", "fresh"): out.append((loc[0], loc[1], node, via))
        for n in walk(x):
            k = n.get("k")
            if k == "asg":
                for loc in self.lv(f, n["a"][0]): addw(loc, n)
            elif k == "un" and n["op"][:2] in ("++", "--"):
                for loc in self.lv(f, n["a"][0]): addw(loc, n)
            elif k == "delete":
                for loc in self.pv(f, n["a"][0]): addw(loc, n)
            elif k in ("call", "ctor"):
                known = False
                for t in self.P.targets(n):
                    if t in self.P.fns:
                        known = True
                        for loc in self.W[t]:
                            for l2 in self.subst(f, n, loc, t): addw(l2, n, t)
                if not known: self._ext(f, n, addw)
        return out

    def trace(self, key, label, depth=12):
        """call chain from key down to a direct write of label"""
        out = []; seen = set()
        while depth and key and key not in seen:
            seen.add(key); depth -= 1
            f = self.P.fns.get(key)
            if not f: break
            best = None
            for (r, l), (node, via) in self.W[key].items():
                lab = l if l else ("::" + r[1] if isinstance(r, tuple) and r[0] == "global" else "*" + (r if isinstance(r, str) else "%s%d" % r))
                if lab == label and r not in ("local", "fresh"):
                    if best is None or via is None: best = (node, via)
            if best is None: 
                break
            node, via = best
            out.append((f, node))
            if via is None: break
            key2 = None
            key2 = via
            key = key2
        return out

_cache = {}
def effects(prog):
    if id(prog) not in _cache: _cache[id(prog)] = Effects(prog)
    return _cache[id(prog)]

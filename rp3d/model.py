"""The resolved program: functions, classes, enums, globals, call resolution (incl. virtual dispatch)."""
import json, re, collections
from . import extract
from .extract import AnalysisBroken, REPO

KEYS = ("a", "o", "fe", "b", "c", "th", "el", "init", "cv", "inc", "range", "v", "i", "e", "body", "pl", "begin")

def children(n):
    """direct child nodes in (approximate) evaluation order"""
    k = n.get("k")
    out = []
    if k == "for": order = ("init", "c", "b", "inc")
    elif k == "do": order = ("b", "c")
    elif k == "asg":
        a = n["a"]; return [x for x in (a[1], a[0]) if isinstance(x, dict)]
    elif k == "call": order = ("fe", "o", "a")
    elif k == "if": order = ("init", "cv", "c", "th", "el")
    elif k == "mem": order = ("b",)
    elif k == "new": order = ("pl", "init")
    else: order = KEYS
    for key in order:
        v = n.get(key)
        if isinstance(v, dict): out.append(v)
        elif isinstance(v, list): out.extend(x for x in v if isinstance(x, dict))
    return out

def walk(n):
    if n is None: return
    stack = [n]
    while stack:
        x = stack.pop()
        yield x
        stack.extend(reversed(children(x)))

def is_assert(n):
    """the expansion of assert(e): (e) ? void(0) : __assert_fail(...)"""
    if n.get("k") == "cond":
        for x in n["a"][1:]:
            for y in walk(x):
                if y.get("k") == "call" and y.get("n") in ("__assert_fail", "__assert", "__assert_rtn"): return True
    return False

def strip_asserts(n):
    """returns a copy of the statement tree without assert() expansions"""
    if isinstance(n, list):
        return [strip_asserts(x) for x in n]
    if not isinstance(n, dict): return n
    if is_assert(n): return {"k": "null_s", "l": n.get("l")}
    return {k: (strip_asserts(v) if isinstance(v, (dict, list)) else v) for k, v in n.items()}

class Fn:
    __slots__ = ("d", "f", "n", "cls", "file", "l", "body", "ps", "inits", "const", "static", "acc", "rt", "q", "_x")
    def __init__(self, d):
        self.d = d; self.f = d["f"]; self.n = d["n"]; self.cls = d.get("cls", ""); self.file = d["file"]; self.l = d["l"]
        self.body = d.get("body"); self.ps = d.get("ps", []); self.inits = d.get("inits", [])
        self.const = d.get("const", False); self.static = d.get("static", False); self.acc = d.get("acc"); self.rt = d.get("rt"); self.q = d.get("q")
        self._x = {}
    def where(self, node=None):
        return "%s:%d (%s)" % (self.file, (node or {}).get("l", self.l), self.short())
    def short(self):
        return (self.cls + "::" if self.cls else "") + self.n
    def nodes(self):
        for i in self.inits:
            if isinstance(i.get("e"), dict):
                yield from walk(i["e"])
        if self.body: yield from walk(self.body)
    def __repr__(self): return "<Fn %s>" % self.f

class Program:
    def __init__(self, config="single", keep_asserts=False):
        self.config = config
        parts, files = extract.dump(config)
        self.files = [f for f in files]
        self.fns = {}; self.classes = {}; self.enums = {}; self.vars = {}
        for p in parts:
            with open(p) as fh:
                for line in fh:
                    d = json.loads(line)
                    r = d["rec"]
                    if r == "fn":
                        if d["f"] not in self.fns:
                            if not keep_asserts:
                                d["body"] = strip_asserts(d.get("body"))
                            self.fns[d["f"]] = Fn(d)
                    elif r == "class": self.classes.setdefault(d["n"], d)
                    elif r == "enum": self.enums.setdefault(d["n"], d)
                    elif r == "var":
                        o = self.vars.get(d["d"])
                        if o is None or (d["def"] and not o["def"]): self.vars[d["d"]] = d
        if len(self.fns) < 500: raise AnalysisBroken("only %d functions parsed" % len(self.fns))
        self.derived = collections.defaultdict(set)
        for n, c in self.classes.items():
            for b in c["bases"]: self.derived[b].add(n)
        # overriders
        self.over = collections.defaultdict(set)
        for n, c in self.classes.items():
            for m in c["methods"]:
                for b in m.get("ov", []): self.over[b].add(m["f"])
        self.bymeth = collections.defaultdict(list)
        for f in self.fns.values(): self.bymeth[(f.cls, f.n)].append(f)
        self._callers = None

    def subclasses(self, c, strict=False):
        out = set() if strict else {c}
        st = [c]
        while st:
            for d in self.derived.get(st.pop(), ()):
                if d not in out: out.add(d); st.append(d)
        return out

    def bases(self, c):
        out = [c]; st = [c]
        while st:
            for b in self.classes.get(st.pop(), {}).get("bases", []):
                if b not in out: out.append(b); st.append(b)
        return out

    def method(self, cls, name, nparams=None, required=True):
        """the definition of cls::name (searching the bases)"""
        for c in self.bases(cls):
            l = self.bymeth.get((c, name), [])
            if nparams is not None: l = [f for f in l if len(f.ps) == nparams]
            if l: return l[0]
        if required: raise AnalysisBroken("anchor vanished: %s::%s" % (cls, name))
        return None

    def methods(self, cls, name=None):
        return [f for f in self.fns.values() if f.cls == cls and (name is None or f.n == name)]

    def cls(self, n):
        if n not in self.classes: raise AnalysisBroken("anchor vanished: class " + n)
        return self.classes[n]

    def field(self, cls, name):
        for c in self.bases(cls):
            for f in self.classes.get(c, {}).get("fields", []):
                if f["n"] == name: return f
        return None

    def overriders(self, key):
        out = {key}; st = [key]
        while st:
            for o in self.over.get(st.pop(), ()):
                if o not in out: out.add(o); st.append(o)
        return out

    def targets(self, call):
        """possible callee keys of a call/ctor node"""
        f = call.get("f")
        if not f: return []
        if call.get("virt"): return sorted(self.overriders(f))
        return [f]

    def callees(self, fn):
        if "callees" in fn._x: return fn._x["callees"]
        out = []
        for n in fn.nodes():
            if n.get("k") in ("call", "ctor"):
                for t in self.targets(n): out.append((n, t))
            elif n.get("k") == "lambda" and n.get("f"): out.append((n, n["f"]))
            elif n.get("k") == "fref": out.append((n, n["f"]))
        fn._x["callees"] = out
        return out

    def callers(self):
        if self._callers is None:
            self._callers = collections.defaultdict(list)
            for f in self.fns.values():
                for n, t in self.callees(f): self._callers[t].append((f, n))
        return self._callers

    def reachable(self, roots, stop=lambda k: False):
        seen = {}; st = []
        for r in roots:
            k = r if isinstance(r, str) else r.f
            if k not in seen: seen[k] = None; st.append(k)
        while st:
            k = st.pop()
            f = self.fns.get(k)
            if f is None: continue
            for n, t in self.callees(f):
                if t not in seen and not stop(t):
                    seen[t] = k; st.append(t)
        return seen

    def path_to(self, seen, k):
        out = []
        while k is not None: out.append(k); k = seen.get(k)
        return list(reversed(out))

_cache = {}
def load(config="single", keep_asserts=False):
    key = (config, keep_asserts)
    if key not in _cache: _cache[key] = Program(config, keep_asserts)
    return _cache[key]

# ---------------------------------------------------------------- printing
def show(n):
    """compact source-like rendering of an expression"""
    if n is None: return ""
    if isinstance(n, list): return ", ".join(show(x) for x in n)
    k = n.get("k")
    if k == "ref": return n["n"]
    if k == "this": return "this"
    if k == "mem":
        b = n["b"]
        if b and b.get("k") == "this": return n["n"]
        return show(b) + ("->" if n.get("ar") else ".") + n["n"]
    if k == "call":
        op = n.get("op")
        if op:
            a = ([n["o"]] if n.get("o") else []) + n["a"]
            if op == "[]": return "%s[%s]" % (show(a[0]), show(a[1]))
            if op == "()": return "%s(%s)" % (show(a[0]), show(a[1:]))
            if len(a) == 1: return op + show(a[0])
            if len(a) == 2: return "(%s %s %s)" % (show(a[0]), op, show(a[1]))
        if n.get("o"):
            o = show(n["o"]); return ("" if o == "this" else o + ".") + "%s(%s)" % (n.get("n"), show(n["a"]))
        return "%s(%s)" % (n.get("n") or show(n.get("fe")), show(n["a"]))
    if k == "ctor": return "%s(%s)" % (n.get("cls"), show(n["a"]))
    if k in ("bin", "asg"): return "%s %s %s" % (show(n["a"][0]), n["op"], show(n["a"][1])) if k == "asg" else "(%s %s %s)" % (show(n["a"][0]), n["op"], show(n["a"][1]))
    if k == "un": return n["op"].rstrip("p") + show(n["a"][0]) if not n["op"].endswith("p") else show(n["a"][0]) + n["op"][:-1]
    if k == "idx": return "%s[%s]" % (show(n["a"][0]), show(n["a"][1]))
    if k == "cast": return show(n["a"][0]) if n.get("imp") else "(%s)%s" % (n["t"], show(n["a"][0]))
    if k == "lit": return str(n["v"])
    if k == "enum": return n["n"].split("::")[-1]
    if k == "cond": return "%s ? %s : %s" % tuple(show(x) for x in n["a"])
    if k == "null": return "nullptr"
    if k == "sizeof": return "sizeof(%s)" % n["st"]
    if k == "str": return '"..."'
    if k == "new": return "new(%s) %s(%s)" % (show(n["pl"]), n["t"], show(n.get("init")))
    if k == "fref": return n["n"]
    if k == "ret": return "return " + show(n.get("e"))
    if k == "decl": return "; ".join("%s %s = %s" % (v["t"], v["n"], show(v.get("i"))) for v in n["a"])
    return k + "(" + ", ".join(show(x) for x in children(n)) + ")"

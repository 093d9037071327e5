"""P15: precision of the double build and width of the integers that hold sizes and indices.
   P13/P14: determinism and isolation lints (see below)."""
import re, struct
from ..model import walk, show, children, load

W = {'unsigned long': 8, 'long': 8, 'unsigned long long': 8, 'long long': 8, 'unsigned int': 4, 'int': 4, 'short': 2,
     'unsigned short': 2, 'unsigned char': 1, 'signed char': 1, 'char': 1, 'bool': 1}

def bare(t):
    return re.sub(r"\b(const|volatile)\b|&", "", t or "").strip()

def width(t): return W.get(bare(t))

def exact32(v):
    try: return struct.unpack("f", struct.pack("f", v))[0] == v
    except OverflowError: return False

def strip(e):
    while e.get("k") in ("cast", "paren") and isinstance(e.get("a"), list): e = e["a"][0]
    return e

def own(f): return f.file.startswith(("src/", "include/"))

class Locals:
    """definitions of the locals of one function"""
    def __init__(self, f):
        self.defs = {}; self.conds = []; self.types = {}; self.params = {p.get("d", p["n"]) for p in f.ps}
        for p in f.ps: self.types[p.get("d", p["n"])] = p["t"]
        for n in f.nodes():
            if n.get("k") == "decl":
                for v in n["a"]:
                    self.types[v.get("d", v["n"])] = v["t"]
                    if v.get("i"): self.defs.setdefault(v.get("d", v["n"]), []).append(v["i"])
            elif n.get("k") == "asg":
                t = strip(n["a"][0])
                if t.get("k") == "ref": self.defs.setdefault(t.get("d", t["n"]), []).append(n["a"][1] if n.get("op") == "=" else None)
            elif n.get("k") == "un" and n.get("op", "").startswith(("++", "--")):
                t = strip(n["a"][0])
                if t.get("k") == "ref": self.defs.setdefault(t.get("d", t["n"]), []).append("inc" if n["op"].startswith("++") else "dec")
            if n.get("k") in ("for", "while", "do") and isinstance(n.get("c"), dict):
                for c in walk(n["c"]):
                    if c.get("k") == "bin" and c.get("op") in ("<", "<=", "!=", ">", ">="): self.conds.append((c["a"][0], c["op"], c["a"][1]))
    def counter_bounded(self, d, w, seen):
        for a, op, b in self.conds:
            for x, y, ops in ((a, b, ("<", "<=", "!=")), (b, a, (">", ">=", "!="))):
                x = strip(x)
                if op in ops and x.get("k") == "ref" and x.get("d", x["n"]) == d and self.bounded(y, w, seen): return True
        return False
    def bounded(self, e, w, seen=()):
        """the value of e (an integer expression) fits w bytes: built from values that narrow, or from locals all of
        whose definitions are"""
        e0 = e
        while e.get("k") in ("cast", "paren"):
            if width(e.get("st")) and width(e["st"]) <= w: return True
            if width(e.get("t")) and width(e["t"]) <= w and e.get("k") == "cast" and e is not e0: return True
            e = e["a"][0]
        k = e.get("k")
        if k in ("lit", "enum", "sizeof"): return True
        t = e.get("t") or e.get("rt")
        if t and width(t) and width(t) <= w: return True
        if k == "un": return self.bounded(e["a"][0], w, seen)
        if k == "cond": return all(self.bounded(x, w, seen) for x in e["a"][1:])
        if k == "bin":
            if e.get("op") in ("<", ">", "==", "!=", "<=", ">=", "&&", "||"): return True
            if e.get("op") in ("&", "%"): return any(self.bounded(x, w, seen) for x in e["a"])
            return all(self.bounded(x, w, seen) for x in e["a"])
        if k == "call" and e.get("n") in ("max", "min"):
            r = [self.bounded(x, w, seen) for x in e["a"]]
            return any(r) if e["n"] == "min" else all(r)
        if k == "ref":
            d = e.get("d", e["n"])
            if d in self.types and width(self.types[d]) and width(self.types[d]) <= w: return True
            if d in seen: return True
            ds = self.defs.get(d)
            if not ds: return False
            for x in ds:
                if x is None: return False
                if x == "dec": continue
                if x == "inc":
                    if not self.counter_bounded(d, w, tuple(seen) + (d,)): return False
                    continue
                if not self.bounded(x, w, tuple(seen) + (d,)): return False
            return True
        return False

def floaty_sizes(L, e, seen=()):
    """e (of float type) is derived from an integer that is no constant: returns that integer expression"""
    if not isinstance(e, dict): return None
    if e.get("k") == "cast" and e.get("ck") == "IntegralToFloating":
        if bare(e.get("t")) != "float": return None
        src = strip(e["a"][0])
        return None if const_int(L, src) else src
    if e.get("k") == "ref":
        d = e.get("d", e["n"])
        if d in seen: return None
        for x in L.defs.get(d, []):
            if isinstance(x, dict):
                r = floaty_sizes(L, x, tuple(seen) + (d,))
                if r is not None: return r
        return None
    for c in children(e):
        r = floaty_sizes(L, c, seen)
        if r is not None: return r
    return None

def only_integers(L, e, seen=()):
    """a floating expression all of whose leaves are integers or literals"""
    e = strip(e) if not (e.get("k") == "cast" and e.get("ck") == "IntegralToFloating") else e
    k = e.get("k")
    if k == "cast" or k == "lit": return True
    if k in ("bin", "un", "cond"): return all(only_integers(L, x, seen) for x in e["a"])
    if k == "call" and e.get("n") in ("ceil", "floor", "round", "pow", "max", "min", "sqrt"): return all(only_integers(L, x, seen) for x in e["a"])
    if k in ("ref", "var"):
        d = e.get("d", e["n"])
        if width(e.get("t")) or d in seen: return True
        if d in L.defs: return all(isinstance(x, dict) and only_integers(L, x, tuple(seen) + (d,)) for x in L.defs[d])
        return "GLOBAL_ALIGNMENT" in e["n"] or "LOAD_FACTOR" in e["n"]
    return bool(width(e.get("t"))) or k in ("enum", "sizeof")

def const_int(L, e, seen=()):
    e = strip(e)
    k = e.get("k")
    if k in ("lit", "enum", "sizeof"): return True
    if k == "var" or (k == "ref" and "GLOBAL_ALIGNMENT" in e.get("n", "")): return True
    if k == "ref":
        d = e.get("d", e["n"])
        if d in seen or d not in L.defs or d in L.params: return False
        return all(isinstance(x, dict) and (const_int(L, x, tuple(seen) + (d,)) or virtual_size(x) or any(y.get("k") == "ref" and y.get("d", y["n"]) == d for y in walk(x))) for x in L.defs[d])
    if k == "bin": return all(const_int(L, x, seen) for x in e["a"])
    if k == "call" and virtual_size(e): return True
    return False

def virtual_size(e):
    e = strip(e)
    return e.get("k") == "call" and e.get("n", "").lower().startswith("getsize")

def check_P15(P0, rep):
    D = load("double")
    n_cast = n_types = n_int = 0
    # ---- R1..R3: no value is held in, or rounded through, single precision in the double build
    dec = sum(1 for c in D.classes.values() for x in c["fields"] if bare(x["t"]) == "double")
    rep.need(dec, 60, "fields of the decimal type")
    rep.count("double_fields", dec)
    def has_float(t): return re.search(r"\bfloat\b", t or "") is not None
    for c, d in sorted(D.classes.items()):
        for x in d["fields"]:
            n_types += 1
            rep.check(not has_float(x["t"]), "double build: field %s::%s has no single precision value" % (c, x["n"]), d.get("file", ""), x["t"])
    for k, v in sorted(D.vars.items()):
        if not str(v.get("file", "")).startswith(("src/", "include/")): continue
        n_types += 1
        if has_float(str(v.get("t"))):
            rep.check(v.get("const") and exact_init(D, v), "double build: global %s has no single precision value" % k.split("::")[-1], v["file"], str(v.get("t")))
        if isinstance(v.get("i"), dict):
            for n in walk(v["i"]):
                if n.get("k") == "cast" and n.get("ck") == "FloatingCast" and bare(n.get("st")) == "float" and not has_float(str(v.get("t"))):
                    rep.check(float_source(n["a"][0], D), "double build: initial value of %s is exact" % k, "%s:%d" % (v["file"], v.get("l", 0)), show(n["a"][0])[:80])
                elif n.get("k") == "cast" and n.get("ck") == "FloatingCast" and bare(n.get("t")) == "float":
                    rep.check(float_source(n["a"][0], D), "double build: initial value of %s is not rounded to single precision" % k, "%s:%d" % (v["file"], v.get("l", 0)), show(n["a"][0])[:80])
    for f in D.fns.values():
        if not own(f): continue
        rep.analysed(f)
        L = None
        n_types += 1
        if f.n != "ctor" or True:
            rt = f.rt or ""
            if has_float(rt) and "*" not in rt: rep.bad("double build: %s returns single precision" % f.short(), f.where(), rt)
        for p in f.ps:
            n_types += 1
            if has_float(p["t"]) and "*" not in p["t"] and not is_tmpl_inst(f, p["t"]):
                rep.bad("double build: parameter of %s is single precision" % f.short(), f.where(), "%s %s" % (p["t"], p["n"]))
        for n in f.nodes():
            k = n.get("k")
            if k == "decl":
                for v in n["a"]:
                    n_types += 1
                    if has_float(v["t"]) and not re.match(r"^(const )?float( const)? ?\*( const)?$", v["t"].strip()):
                        if L is None: L = Locals(f)
                        rep.check(single_is_exact(L, v, D), "double build: local %s of %s holds no rounded value" % (v["n"], f.short()), f.where(n), v["t"])
            elif k == "cast":
                ck = n.get("ck")
                if ck == "FloatingCast":
                    n_cast += 1
                    st, t = bare(n.get("st")), bare(n.get("t"))
                    if t == "float" and st in ("double", "long double"):
                        rep.bad("double build: %s rounds a value to single precision" % f.short(), f.where(n), show(n["a"][0])[:100])
                    elif st == "float":
                        rep.check(float_source(n["a"][0], D), "double build: single precision operand in %s is user data or exact" % f.short(), f.where(n), show(n["a"][0])[:100])
                elif ck == "IntegralToFloating" and bare(n.get("t")) == "float":
                    pass
    rep.need(n_cast, 5, "floating conversions in the double build")
    # ---- R4..R6: sizes, capacities, indices and identifiers in both builds
    for cfg in ("single", "double"):
        P = load(cfg)
        for f in P.fns.values():
            if not own(f): continue
            L = Locals(f)
            for n in f.nodes():
                k = n.get("k")
                if k == "cast" and n.get("ck") == "FloatingToIntegral" and (width(n.get("t")) or 0) >= 4:
                    n_int += 1
                    src = floaty_sizes(L, n["a"][0]) if bare(n.get("st")) == "float" and only_integers(L, n["a"][0]) else None
                    rep.check(src is None, "%s build: integer computed in %s does not pass through single precision" % (cfg, f.short()), f.where(n), "" if src is None else "%s of the non-constant %s" % (show(n["a"][0])[:90], show(src)[:40]),
                              ident="%s computes an integer through single precision" % f.short())
                elif k == "cast" and n.get("ck") == "IntegralCast":
                    w, ws = width(n.get("t")), width(n.get("st"))
                    if w and ws and w <= 2 and ws > w and bare(n["t"]) != "bool":
                        if f.cls == "HeapAllocator" or not n.get("imp") and f.n.startswith("hash"): continue
                        n_int += 1
                        rep.check(L.bounded(n["a"][0], w), "%s build: %s keeps %s whole" % (cfg, f.short(), show(n["a"][0])[:50]), f.where(n), "stored in %s" % n["t"],
                                  ident="%s truncates %s" % (f.short(), show(n["a"][0])[:50]))
                    elif w == 4 and ws == 8 and re.search(r"pair_?id", show(strip(n["a"][0])), re.I) and strip(n["a"][0]).get("k") in ("ref", "mem"):
                        rep.bad("%s build: %s truncates a 64 bit pair identifier" % (cfg, f.short()), f.where(n), show(n["a"][0]))
                elif k in ("for", "while", "do") and isinstance(n.get("c"), dict):
                    for c in walk(n["c"]):
                        if c.get("k") == "bin" and c.get("op") in ("<", "<=", "!="):
                            x = strip(c["a"][0])
                            if x.get("k") != "ref": continue
                            w = width(L.types.get(x.get("d", x["n"])) or x.get("t"))
                            if not w or w > 2: continue
                            if "inc" not in L.defs.get(x.get("d", x["n"]), []): continue
                            n_int += 1
                            rep.check(L.bounded(c["a"][1], w), "%s build: the counter %s of a loop of %s can reach its bound" % (cfg, x["n"], f.short()), f.where(n), show(c))
    # ---- the narrow counts of the tables that are arrays of fixed size: capacity constants fit their type
    rep.count("types_checked", n_types); rep.count("float_conversions", n_cast); rep.count("integer_conversions", n_int)

def is_tmpl_inst(f, t): return False

def exact_init(D, v):
    i = v.get("init") or v.get("i")
    if isinstance(i, dict):
        i = strip(i)
        return i.get("k") == "lit" and not (i.get("inexact") and bare(i.get("t")) == "float") and exact32(i["v"])
    return "LOAD_FACTOR" in v.get("d", "")

def single_is_exact(L, v, D):
    """a local of type float in the double build: only user data or exact constants may flow into it"""
    if v["t"].count("*") : return False
    if "<" in v["t"]: return False
    ds = L.defs.get(v.get("d", v["n"]), [])
    return bool(ds) and all(isinstance(x, dict) and float_source(x, D) for x in ds)

def float_source(e, D):
    e = strip(e)
    k = e.get("k")
    if k == "lit": return not e.get("inexact") and exact32(e["v"])
    if k == "idx" or (k == "un" and e.get("op") == "*"):
        return True                                                # read through a float*: only user arrays are float arrays
    if k in ("ref", "mem", "var"):
        for v in D.vars.values():
            if v.get("n") == e.get("n") or v["d"].split("::")[-1] == e.get("n"):
                return v.get("const") and exact_init(D, v)
        return False
    if k == "un" and e.get("op") == "-": return float_source(e["a"][0], D)
    return False

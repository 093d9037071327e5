"""P06: the parallel arrays of the component tables."""
import re
from ..model import walk, children, show, AnalysisBroken
from ..terms import Interp, Sc, Op, Ptr, St, pkey, const, pstr, psub
from ..effects import base_type

def opq(fn):
    c = fn.cls.split("<")[0]
    return c in ("Map", "Set", "Stack", "Deque", "LinkedList", "Pair") or (c == "Array" and fn.n not in ("operator[]",))

def run(P, f):
    it = Interp(P, opq, maxterms=40); it.run(f); return it

def tables(P):
    out = [c for c in P.subclasses("Components", strict=True) if any(f["t"].endswith("*") for f in P.classes[c]["fields"])]
    return sorted(out)
def columns(P, c): return [(f["n"], f["t"]) for f in P.classes[c]["fields"] if f["t"].endswith("*") and not f.get("static")]

def elem(t): return t[:-1].strip()

def cell(it, col, idx, t):
    v = it.load(("*this." + col, "[%s]" % idx), elem(t))
    return v

def init_key(P, col, idx, t):
    it = Interp(P, opq); it.loops = getattr(it, "loops", [])
    return it.load(("*this." + col, "[%s]" % idx), elem(t)).key()

def same(v, col, idx, t):
    """v is the initial content of column col at idx (field-wise or whole)"""
    base = "*this.%s[%s]" % (col, idx)
    def rec(v, pre):
        if isinstance(v, Sc): return v.key() == pre
        if isinstance(v, Op): return v.key() == "<%s>" % pre
        if isinstance(v, Ptr): return v.key() == pre
        if isinstance(v, St):
            if v.base is not None and not v.f: return rec(v.base, pre)
            okf = all(rec(x, pre + (s if s.startswith("[") else "." + s)) for s, x in v.f.items())
            return okf and bool(v.f)
        return False
    return rec(v, base)

def loc(f, it, col):
    for e in reversed(it.events):
        if len(e.path) > 1 and e.path[0] == "*this." + col: return f.where(e.node if isinstance(getattr(e, "node", None), dict) else None)
    return f.where()

def check_P06(P, rep):
    T = tables(P)
    rep.need(len(T), 8, "component tables")
    rep.count("tables", len(T))
    for c in T:
        C = columns(P, c); rep.count("columns", len(C))
        names = [n for n, _ in C]
        # --- swap
        f = P.method(c, "swapComponents"); rep.analysed(f); it = run(P, f)
        i1, i2 = ["$" + p["n"] for p in f.ps[:2]]
        for n, t in C:
            a = cell(it, n, i1, t); b = cell(it, n, i2, t)
            rep.check(same(a, n, i2, t) and same(b, n, i1, t), "swapping two rows of %s exchanges %s" % (c, n), loc(f, it, n), "row1 := %s, row2 := %s" % (a.key()[:150], b.key()[:150]))
        ent = entity_column(P, c, C)
        rep.check(maps_to(it, "*this.%s[%s]" % (ent, i1), i2) and maps_to(it, "*this.%s[%s]" % (ent, i2), i1), "swapping two rows of %s updates the index of both objects" % c, f.where())
        # --- move
        f = P.method(c, "moveComponentToIndex"); rep.analysed(f); it = run(P, f)
        s, d = ["$" + p["n"] for p in f.ps[:2]]
        for n, t in C:
            v = cell(it, n, d, t)
            rep.check(same(v, n, s, t), "moving a row of %s moves %s" % (c, n), loc(f, it, n), "destination := %s" % v.key()[:200])
        rep.check(maps_to(it, "*this.%s[%s]" % (ent, s), d), "moving a row of %s updates the index of its object" % c, f.where())
        # --- add
        f = P.method(c, "addComponent"); rep.analysed(f); it = run(P, f)
        idxs = {}
        params = set()
        for n, t in C:
            cs = {p[1] for p in it.mem if len(p) > 1 and p[0] == "*this." + n}
            cs |= {e.path[1] for e in it.events if len(e.path) > 1 and e.path[0] == "*this." + n}
            cs = {x for x in cs if "$isDisabled" in x or "phi" in x or "prepare" in x or True}
            if not rep.check(len(cs) == 1, "adding a row to %s initialises %s" % (c, n), f.where(), "rows written: %s" % sorted(cs)): continue
            idxs.setdefault(cs.pop(), []).append(n)
        if rep.check(len(idxs) == 1, "adding a row to %s writes all columns of one row" % c, f.where(), str({k: v[:4] for k, v in idxs.items()})):
            ix = next(iter(idxs))[1:-1]
            for n, t in C:
                v = cell(it, n, ix, t); k = v.key()
                params |= set(re.findall(r"\$component\.(\w+)", full(it, v)))
                rep.check(("*this.%s[" % n not in k or complete(P, v, n)) and not k.startswith("undef") and not undefined(v), "a new row of %s gets a defined value of %s" % (c, n), loc(f, it, n), k[:200])
            rep.check(maps_to(it, "$" + f.ps[0]["n"], ix), "adding a row to %s records the index of the object" % c, f.where())
            v = it.load(("this", "mNbComponents"), "unsigned int")
            rep.check(pkey(v.p) == "1 + this.mNbComponents", "adding a row to %s counts it" % c, f.where(), v.key())
            # every attribute given by the creator reaches its own column
            cp = base_type(f.ps[2]["t"]) if len(f.ps) > 2 else None
            if cp in P.classes:
                used = fields_read(P)
                for fd in P.classes[cp]["fields"]:
                    if (cp, fd["n"]) not in used: continue
                    rep.check(fd["n"] in params, "%s::%s given at creation is stored in the table" % (cp, fd["n"]), f.where())
            seen = {}
            for n, t in C:
                k = cell(it, n, ix, t).key()
                m = re.fullmatch(r"<?\$component\.(\w+)>?", k)
                if m:
                    rep.check(same_word(m.group(1), n) or m.group(1) not in seen, "distinct creation attributes of %s go to distinct columns (%s)" % (c, n), loc(f, it, n), "%s also stored in %s" % (m.group(1), seen.get(m.group(1))))
                    seen[m.group(1)] = n
        forgets(P, rep, c, C, ent)
        # --- grow
        f = P.method(c, "allocate"); rep.analysed(f); it = run(P, f)
        nb = it.load(("this", "mNbAllocatedComponents"), "unsigned int")
        sizes = {}; finals = {}
        cp = [e for e in it.calls if e.path[0].startswith(("memcpy", "std::memcpy", "memmove"))]
        for n, t in C:
            v = it.load(("this", n), t); finals.setdefault(v.key(), []).append(n)
            src = "<this.%s>" % n
            ms = [e for e in cp if e.old[1].key() in (src, "this." + n)]
            okk = len(ms) == 1 and ms[0].old[0].key() == v.key()
            if okk:
                sz = ms[0].old[2]
                okk = isinstance(sz, Sc) and len(sz.p) == 1 and next(iter(sz.p)) == ("this.mNbComponents",)
                if okk: sizes[n] = int(next(iter(sz.p.values())))
            if okk:
                esz = elemsize(P, elem(t))
                okk = esz is None or esz == sizes[n]
            if not okk and not cp:
                rep.note("growth of %s not done with memcpy" % c)
            rep.check(okk, "growing %s preserves every row of %s" % (c, n), f.where(ms[0].node if ms else None), "copies: %s" % [(e.old[0].key()[:60], e.old[2].key()) for e in ms])
        for k, ns in finals.items():
            rep.check(len(ns) == 1, "the columns of %s do not overlap" % c, f.where(), "same storage: %s" % ns)
        rep.check("this.mNbAllocatedComponents" not in nb.key() and "$" + f.ps[0]["n"] in nb.key(), "growing %s records the new capacity" % c, f.where(), nb.key())
        guard = [e for e in cp if any("mNbComponents" not in g[0] for g in e.guards if True)]
        rep.check(not guard, "growing %s copies whenever there are rows" % c, f.where(guard[0].node) if guard else "", str(guard[0].guards) if guard else "")
        layout(P, rep, c, C, f)
        # --- row size
        ctor = [g for g in P.methods(c, "ctor") if g.inits]
        if ctor:
            g = ctor[0]; rep.analysed(g)
            arg = None
            for i in g.inits:
                e = i.get("e")
                if isinstance(e, dict) and e.get("k") == "ctor" and e.get("cls") == "Components" and len(e.get("a", [])) >= 2: arg = e["a"][1]
            if arg is not None and len(sizes) == len(C):
                it2 = Interp(P, opq, maxterms=200); st = {"env": {"this": ("this",)}, "fr": 0, "ret": None, "fn": g}
                v = it2.ev(arg, st)
                tot = sum(sizes.values())
                rep.check(isinstance(v, Sc) and (set(v.p) - {()} or v.p.get((), 0) >= tot), "the row size of %s covers all its columns" % c, g.where(arg), "declared %s, columns need %d" % (v.key()[:80], tot))
                mg = [i["e"] for i in g.inits if isinstance(i.get("e"), dict) and i["e"].get("cls") == "Components"][0]["a"]
                if len(mg) >= 3:
                    v3 = it2.ev(mg[2], st)
                    m = re.match(r"(\d+)?\*?(::)?GLOBAL_ALIGNMENT", v3.key()) if isinstance(v3, Sc) else None
                    k = int(m.group(1) or 1) if m else None
                    rep.check(k is None or k >= len(C) - 1, "the alignment margin of %s covers all its columns" % c, g.where(), v3.key())
    partition(P, rep)
    stale_rows(P, rep, T)

def entity_column(P, c, C):
    """the column of table objects by which the table is indexed: the one whose element destroyComponent removes from the map"""
    f = P.method(c, "destroyComponent"); it = run(P, f)
    for e in it.calls:
        if re.match(r"Map<.*::remove\(", e.path[0]):
            for v in e.old[1:]:
                m = re.match(r"<?\*this\.(\w+)\[", v.key())
                if m: return m.group(1)
    return C[0][0]

def full(it, v):
    """key with abbreviated atoms expanded"""
    k = v.key()
    for _ in range(4):
        n = k
        for short, info in it.I.short.items() if False else (): pass
        if n == k: break
        k = n
    if isinstance(v, St):
        k += " " + " ".join(full(it, x) for x in v.f.values()) + (" " + full(it, v.base) if v.base is not None else "")
    if isinstance(v, Ptr): k += pstr(v.path)
    return k

def complete(P, v, n):
    """every field of the object is given a value that does not come from the old content of the column"""
    if not isinstance(v, St): return "*this.%s[" % n not in v.key()
    fs = [f for f in P.classes.get(base_type(v.t or ""), {}).get("fields", []) if not f.get("static")]
    return bool(fs) and all(f["n"] in v.f and complete(P, v.f[f["n"]], n) for f in fs)

def undefined(v):
    if isinstance(v, St):
        if not v.f and v.base is None: return True
        return any(undefined(x) for x in v.f.values())
    return isinstance(v, (Sc, Op)) and ("undef" in v.key() or "uninit" in v.key())

def same_word(a, b):
    a = a.lower(); b = b.lower().lstrip("m")
    return a == b or a + "s" == b or a in b

def maps_to(it, entkey, idx):
    """some Map::add(Pair(entity, idx)) call, the last one for that entity"""
    hit = None
    for e in it.calls:
        if re.match(r"Map<.*::(add|operator\[\])", e.path[0]) and len(e.old) > 1:
            full = e.old[1].key()
            n = full.strip("<>")
            info = it.I.info.get(n) or it.I.info.get(full)
            if info and info[0] == "app" and len(info) > 2: ks = [a.key() for a in info[2]]
            else: ks = None
            if ks is None:
                s = it.I_expand(full) if hasattr(it, "I_expand") else full
                ks = [s]
                if ("<%s>" % entkey in s or entkey in s): hit = hit or (idx in s)
                continue
            if any(k.strip("<>") == entkey for k in ks): hit = any(k == idx or k == "<%s>" % idx for k in ks)
    return bool(hit)

def elemsize(P, t):
    prim = {"bool": 1, "float": 4, "double": 8, "int": 4, "unsigned int": 4, "unsigned short": 2, "Entity": 4}
    if t.endswith("*"): return 8
    if t in prim: return prim[t]
    if t in P.enums: return 4
    if not hasattr(P, "_sizes"): P._sizes = {base_type(n["st"]): n["v"] for f in P.fns.values() for n in f.nodes() if n.get("k") == "sizeof" and n.get("st") and not n["st"].rstrip().endswith("*")}
    return P._sizes.get(t)

def layout(P, rep, c, C, f):
    """each new column starts behind the end of another one: the chain of base pointers is a permutation"""
    ptrs = {}
    for n in f.nodes():
        if n.get("k") == "var" and re.sub(r"\s*const$", "", n["t"]).endswith("*") and n.get("i") is not None: ptrs[n["d"]] = n
    col_of = {}
    for n in f.nodes():
        if n.get("k") == "asg" and n["a"][0].get("k") == "mem" and n["a"][0]["n"] in dict(C):
            r = n["a"][1]
            while r.get("k") == "cast": r = r["a"][0]
            if r.get("k") == "ref" and r["d"] in ptrs: col_of[r["d"]] = n["a"][0]["n"]
    if len(col_of) != len(C): return
    prev = {}
    def through(e, depth=3):
        for y in walk(e):
            yield y
            if depth and y.get("k") == "ref" and y.get("d") in ptrs and y["d"] not in col_of: yield from through(ptrs[y["d"]]["i"], depth - 1)
    for d, col in col_of.items():
        srcs = []
        for y in through(ptrs[d]["i"]):
            if y.get("k") == "bin" and y["op"] == "+" and y["a"][0].get("t", "").endswith("*") or y.get("k") == "idx":
                for z in walk(y["a"][0]):
                    if z.get("k") == "ref" and z["d"] in col_of: srcs.append((z["d"], y))
        if len(srcs) == 1: prev[d] = srcs[0]
    firsts = [d for d in col_of if d not in prev]
    rep.check(len(firsts) == 1 and len({p for p, _ in prev.values()}) == len(prev), "the columns of %s are laid out one behind the other" % c, f.where(), "columns: %s" % {col_of[d]: col_of[p[0]] for d, p in prev.items()})
    cap = f.ps[0]["d"]; order = {id(n): k for k, n in enumerate(f.nodes())}
    inits = {n["d"]: n["i"] for n in f.nodes() if n.get("k") == "var" and n.get("i") is not None}
    set_at = [order[id(n)] for n in f.nodes() if n.get("k") == "asg" and n["a"][0].get("k") == "mem" and n["a"][0]["n"] == "mNbAllocatedComponents"]
    def rows(e, depth=3):
        """is the distance the new number of rows: True, False, None"""
        while e.get("k") in ("cast", "paren"): e = e["a"][0] if "a" in e else e["e"]
        if e.get("k") == "ref": return True if e.get("d") == cap else rows(inits[e["d"]], depth - 1) if depth and e.get("d") in inits else None
        if e.get("k") == "mem" and e.get("n") in ("mNbAllocatedComponents", "mNbComponents"): return None if e["n"] == "mNbAllocatedComponents" and set_at and id(e) in order and min(set_at) < order[id(e)] else False
        if e.get("k") == "bin" and e.get("op") in ("-", "/", ">>"): return False if rows(e["a"][0], depth) in (True, False) else None
        if e.get("k") == "int": return False
        return None
    for d, (q, y) in prev.items():
        back = any(z.get("k") == "bin" and z.get("op") == "-" and z["a"][0].get("t", "").endswith("*") for z in through(ptrs[d]["i"]))
        rep.check(rows(y["a"][1]) is not False and not back, "a column of %s has room for all rows (%s)" % (c, col_of[q]), f.where(y), "the next column starts too close")

def fields_read(P):
    """creation attributes read anywhere outside the constructor"""
    if not hasattr(P, "_fr"):
        P._fr = {(n["c"], n["n"]) for f in P.fns.values() for n in f.nodes() if n.get("k") == "mem"}
    return P._fr

def guard_has(guards, atom_sub, pol):
    return any(atom_sub in g[0] for g in guards)

def norm_guard(it, g):
    n, pol = g
    while n.startswith("!(") and n.endswith(")"): n = n[2:-1]; pol = not pol
    return n, pol

def forgets(P, rep, c, C, ent):
    f = P.method(c, "destroyComponent"); rep.analysed(f); it = run(P, f)
    ix = "$" + f.ps[0]["n"]
    dt = set(); rm = False
    for e in it.calls:
        if e.path[0].split("(")[0].endswith("dtor") and e.old:
            m = re.match(r"<?\*this\.(\w+)\[%s\]" % re.escape(ix), e.old[0].key())
            if m: dt.add(m.group(1))
        if re.match(r"Map<.*::remove\(", e.path[0]) and any("*this.%s[%s]" % (ent, ix) in v.key() for v in e.old[1:]): rm = True
    for n, t in C:
        b = elem(t)
        if re.match(r"(Array|Map|Set|Deque|Stack|LinkedList|std::)", b) :
            rep.check(n in dt, "removing a row of %s destroys the container in %s" % (c, n), f.where())
        others = {p[1] for p in it.mem if len(p) > 1 and p[0] == "*this." + n and p[1] != "[%s]" % ix}
        rep.check(not others, "removing a row of %s leaves the other rows' %s alone" % (c, n), f.where(), str(others))
    rep.check(rm, "removing a row of %s forgets the object's index" % c, f.where())

def removal(P, rep):
    S, N = "this.mDisabledStartIndex", "this.mNbComponents"
    # remove
    f = P.method("Components", "removeComponent"); rep.analysed(f); it = run2(P, f)
    I = "this.mMapEntityToComponentIndex[<$%s>]" % f.ps[0]["n"]
    mv = {(e.old[1].key(), e.old[2].key()): e for e in it.calls if "moveComponentToIndex" in e.path[0]}
    ds = [e for e in it.calls if "destroyComponent" in e.path[0]]
    rep.check(len(ds) == 1 and ds[0].old[1].key() == I, "removing an object destroys its own row", f.where())
    exp = {("-1 + " + N, I): True, ("-1 + " + S, I): False, ("-1 + " + N, "-1 + " + S): False}
    rep.check(set(mv) == set(exp), "removing a row fills the hole with the last row of the same part, keeping the parts contiguous", f.where(), str(sorted(mv)))
    for k, dis in exp.items():
        if k in mv:
            p = polcmp(it, mv[k], S, I)
            rep.check(p is None or p == dis, "the hole is filled from the part the removed row was in (%s -> %s)" % k, f.where(mv[k].node), str(mv[k].guards))
    for k, e in mv.items():
        # never a move of a row onto itself (the guard compares the two)
        d = pkey(psub(e.old[1].p, e.old[2].p)); d2 = pkey(psub(e.old[2].p, e.old[1].p))
        if k[0] == "-1 + " + N and k[1] == "-1 + " + S:
            d = pkey(psub({(S,): 1}, {(N,): 1})); d2 = pkey(psub({(N,): 1}, {(S,): 1}))
        rep.check(any(d in g[0] or d2 in g[0] for g in e.guards), "a row is not moved onto itself (%s -> %s)" % k, f.where(e.node), str(e.guards))
    v = it.load(("this", "mDisabledStartIndex"), "unsigned int"); w = it.load(("this", "mNbComponents"), "unsigned int")
    inf = it.I.info.get(next(iter(v.p))[0]) if len(v.p) == 1 and next(iter(v.p)) else None
    rep.check(pkey(w.p) == "-1 + " + N, "removing a row decrements the row count", f.where(), w.key())
    rep.check(S in v.key() and "-1 + " + S in v.key() and v.key() != "-1 + " + S, "removing an enabled row, and only that, shrinks the enabled part", f.where(), v.key())

def partition(P, rep):
    """enabled rows come first: the three operations that keep the partition"""
    S, N = "this.mDisabledStartIndex", "this.mNbComponents"
    # prepareAdd
    f = P.method("Components", "prepareAddComponent"); rep.analysed(f); it = run2(P, f)
    mv = [e for e in it.calls if "moveComponentToIndex" in e.path[0]]
    al = [e for e in it.calls if "::allocate(" in e.path[0]]
    rep.check(len(mv) == 1 and mv[0].old[1].key() == S and mv[0].old[2].key() == N and pol(it, mv[0], "$" + f.ps[0]["n"]) is False,
              "a new enabled row displaces the first disabled row to the end", f.where(mv[0].node if mv else None), str([[v.key() for v in e.old[1:]] for e in mv]))
    v = it.load(("this", "mDisabledStartIndex"), "unsigned int")
    rep.check(isphi(it, v, "$" + f.ps[0]["n"], S, "1 + " + S), "adding an enabled row extends the enabled part by one", f.where(), v.key())
    rep.check(len(al) == 1 and any("mNbAllocatedComponents" in g[0] and N in g[0] for g in al[0].guards), "a full table grows before a row is added", f.where(al[0].node if al else None))
    r = it.ret if hasattr(it, "ret") else None
    if r is not None: rep.check(isphi(it, r, "$" + f.ps[0]["n"], N, S), "the new row's index is the end of its part", f.where(), r.key())
    removal(P, rep)
    # enable / disable
    f = P.method("Components", "setIsEntityDisabled"); rep.analysed(f); it = run2(P, f)
    I = "this.mMapEntityToComponentIndex[<$%s>]" % f.ps[0]["n"]; D = "$" + f.ps[1]["n"]
    sw = [e for e in it.calls if "swapComponents" in e.path[0]]
    seen = set()
    for e in sw:
        a = {e.old[1].key(), e.old[2].key()}
        if a == {I, S}: seen.add("enable")
        elif a == {I, "-1 + " + S}: seen.add("disable")
        else: rep.bad("enabling or disabling a row swaps it with the row next to the border", f.where(e.node), str(a))
    rep.check(seen == {"enable", "disable"}, "enabling swaps a row with the first disabled one, disabling with the last enabled one", f.where(), str(seen))
    v = it.load(("this", "mDisabledStartIndex"), "unsigned int"); ex = {x.key() for x in it.leaves(v)}
    rep.check({"1 + " + S, "-1 + " + S} <= ex <= {"1 + " + S, "-1 + " + S, S}, "enabling extends and disabling shrinks the enabled part", f.where(), str(ex)[:300])
    wr = [e for e in it.events if e.path == ("this", "mDisabledStartIndex")]
    for e in wr:
        up = pkey(e.new.p) == "1 + " + S; down = pkey(e.new.p) == "-1 + " + S
        gs = " ".join(("" if p else "NOT ") + n for n, p in e.guards)
        first = polarity_of(it, e.guards, D)
        rep.check((up and first is False) or (down and first is True) or first is None, "the border moves in the direction of the change", f.where(e.node), gs[:300])

def run2(P, f):
    def o2(fn): return opq(fn) or fn.n in ("moveComponentToIndex", "swapComponents", "destroyComponent", "allocate")
    it = Interp(P, o2, maxterms=40); it.ret = it.run(f); return it

def pol(it, e, atom):
    """polarity under which the event happens with respect to a boolean atom"""
    return polarity_of(it, e.guards, atom)
def polarity_of(it, guards, atom):
    def rec(n, p):
        if n == atom: return p
        inf = it.I.info.get(n)
        if inf is None: 
            return None
        if inf[0] == "not": return recv(inf[1], not p)
        if inf[0] == "logic" and ((inf[1] == "&&") == p):
            for v in inf[2:]:
                r = recv(v, p)
                if r is not None: return r
        return None
    def recv(v, p):
        if isinstance(v, Sc) and len(v.p) == 1 and len(next(iter(v.p))) == 1: return rec(next(iter(v.p))[0], p)
        return None
    for n, p in guards:
        r = rec(n, p)
        if r is not None: return r
    return None
def polcmp(it, e, S, I):
    """True: the removed row is in the disabled part (I >= S) under the guards of e"""
    for n, p in e.guards:
        inf = it.I.info.get(n)
        while inf and inf[0] == "not":
            p = not p; a = inf[1]; n = next(iter(a.p))[0]; inf = it.I.info.get(n)
        if inf and inf[0] == "cmp":
            d = inf[2]
            if d == {(S,): 1, (I,): -1} and inf[1] == "<=": return p          # S - I <= 0
            if d == {(I,): 1, (S,): -1} and inf[1] == "<": return not p       # I - S < 0
    return None
def isphi(it, v, cond, a, b):
    """v is a if cond else b"""
    cs = it.cases(v)
    if {x.key() for _, x in cs} != {a, b}: return False
    for g, x in cs:
        p = polarity_of(it, g, cond)
        if p is not None and p != (x.key() == a): return False
    return True

# ------------------------------------------------------------------------------------ rows held across table changes
def touched_tables(P, T):
    """function -> set of tables whose rows may move when it runs"""
    if "_touched" in P.__dict__: return P._touched
    direct = {}
    for f in P.fns.values():
        s = set()
        for n in f.nodes():
            if n.get("k") == "call":
                if n.get("n") in ("addComponent", "removeComponent", "setIsEntityDisabled", "prepareAddComponent") and n.get("o"):
                    t = base_type(n["o"].get("t", ""))
                    if t in T: s.add(t)
        direct[f.f] = s
    ch = True; tot = {k: set(v) for k, v in direct.items()}
    callers = P.callers(); work = [k for k, v in tot.items() if v]
    while work:
        k = work.pop()
        for g, _ in callers.get(k, ()):
            if not tot[k] <= tot[g.f]: tot[g.f] |= tot[k]; work.append(g.f)
    P._touched = tot
    return tot

def stale_rows(P, rep, T):
    """a row number (or reference into a column) obtained before a call that may move rows is not used after it"""
    from ..cfg import cfg
    T = set(T); tot = touched_tables(P, T); nsites = 0
    for f in sorted(P.fns.values(), key=lambda x: x.f):
        if f.body is None or f.cls in T or f.cls == "Components" or not f.file.startswith(("src/", "include/")): continue
        vs = {}
        for n in f.nodes():
            if n.get("k") == "var" and n.get("i") is not None:
                for y in walk(n["i"]):
                    if y.get("k") == "call" and y.get("n") == "getEntityIndex" and y.get("o"):
                        t = base_type(y["o"].get("t", ""))
                        if t in T and (n["t"].replace("const ", "").strip() in ("unsigned int", "uint32", "uint") or n.get("isref")): vs[n["d"]] = (n, t)
                if n.get("isref") and n["d"] not in vs:
                    i = n["i"]
                    for y in walk(i):
                        if y.get("k") == "mem" and y["c"] in T and y["t"].endswith("*"): vs[n["d"]] = (n, y["c"])
        if not vs: continue
        kill = []
        for n in f.nodes():
            if n.get("k") == "call":
                ts = set()
                for t in P.targets(n): ts |= tot.get(t, set())
                if n.get("n") in ("addComponent", "removeComponent", "setIsEntityDisabled") and n.get("o"):
                    t = base_type(n["o"].get("t", ""))
                    if t in T: ts.add(t)
                if ts: kill.append((n, ts))
        nsites += len(vs); rep.analysed(f)
        if not kill: rep.ok("%s: rows are not held across table changes" % f.short()); continue
        G = cfg(f)
        for d, (v, t) in vs.items():
            dn = G.node_of(v)
            uses = [(cn, y) for cn, y in G.find(lambda y: y.get("k") == "ref" and y.get("d") == d)]
            for kn, ts in kill:
                if t not in ts: continue
                k = G.node_of(kn)
                if k is None or dn is None: continue
                # def reaches kill without redefinition, kill reaches a use without passing the definition again
                if k.i not in G.reach([s for s, _ in dn.succ]): continue
                after = G.reach([s for s, _ in k.succ], blocked={dn.i})
                for cn, y in uses:
                    if cn.i in after and cn is not dn:
                        rep.bad("%s uses a row of %s after a call that may move rows" % (f.short(), t), f.where(y), "row %s obtained at line %s, moved by %s at line %s" % (v["n"], v.get("l"), kn.get("n"), kn.get("l")), ident="stale row %s in %s" % (v["n"], f.short())); break
        rep.ok("%s: rows are not held across table changes" % f.short())
    rep.count("row_variables", nsites)
    rep.need(nsites, 60, "row variables")

"""P19: an overlapping pair is recorded once, everywhere or nowhere, on the side its bodies belong to."""
import re
from ..api import *
from ..terms import *
from ..trace import Trace, loop_range, leaves_early
from ..model import walk
from .sleeping import key, argkey, nonloop
from .islands import NEnv, Names, count_when, value_under

OP = ("OverlappingPairs", "OverlappingPair", "ConvexOverlappingPair", "ConcaveOverlappingPair", "ColliderComponents", "Components")
TABLES = ("Convex", "Concave", "DisabledConvex", "DisabledConcave")
ARR = {"m%sPairs" % t: t for t in TABLES}; MAP = {"mMap%sPairIdToPairIndex" % t: t for t in TABLES}
ROOTS = ("addPair", "removePair", "enablePair", "disablePair", "removeConvexPairWithIndex", "removeConcavePairWithIndex")
def base(c): return c.split("<")[0].split("::")[-1]
def other(t): return t[8:] if t.startswith("Disabled") else "Disabled" + t
def kind(t): return t.replace("Disabled", "")
def inl(f): return base(f.cls) in OP and f.n != "destroyLastFrameCollisionInfos"

class Unit:
    """the changes of the pair tables in one entry point"""
    def __init__(self, P, fn):
        self.fn = fn; self.T = T = Trace(P, fn, inl, maxterms=200); self.it = it = T.it
        self.nm = Names(it); self.TA = []; self.TR = []; self.MA = []; self.MR = []; self.MW = []; self.LA = []; self.LR = []; self.odd = []
        def field(t):
            m = re.match(r"^[<*&x]*this\.(?:mOverlappingPairs\.)?(m\w+)>?$", t); return m.group(1) if m else None
        for c in T.calls:
            if not c.args: continue
            f = field(full_text(it.I, key(c.args[0])))
            if c.cls not in ("Array", "Map"): continue
            if f in ARR:
                c.t = ARR[f]
                if c.n in ("emplace", "add"): self.TA.append(c)
                elif c.n == "removeAtAndReplaceByLast": self.TR.append(c)
                elif c.n not in ("size", "capacity", "reserve", "begin", "end", "operator[]") and not c.node.get("cm"): self.odd.append(c)
            elif f in MAP:
                c.t = MAP[f]
                if c.n == "add": self.MA.append(c)
                elif c.n == "remove": self.MR.append(c)
                elif c.n not in ("find", "containsKey", "size", "end", "begin", "operator[]") and not c.node.get("cm"): self.odd.append(c)
            elif re.search(r"mOverlappingPairs\[", full_text(it.I, key(c.args[0]))):
                if c.n == "add": self.LA.append(c)
                elif c.n == "remove": self.LR.append(c)
                elif c.n not in ("size", "find", "begin", "end", "operator[]", "capacity") and not c.node.get("cm"): self.odd.append(c)
        self.events = []
        for e in it.events:
            t = full_text(it.I, pstr(e.path)); m = re.match(r"^this\.(m\w+)\[", t)
            if m and m.group(1) in MAP: self.MW.append((MAP[m.group(1)], e))
            elif m and m.group(1) in ARR: self.events.append((ARR[m.group(1)], e))
    def txt(self, v): return full_text(self.it.I, key(v)).strip("<>")
    def at(self, c): return c.fn.where(c.node if isinstance(c.node, dict) else None) if c.fn else self.fn.where()

def found(tab): return [(r"operator!=\(<?this\.%s\[.*::end\(<?this\.%s|containsKey\(<?this\.%s>?;" % (m, m, m), 1 if t == tab else 0) for m, t in MAP.items()] + \
                       [(r"operator==\(<?this\.%s\[.*::end\(<?this\.%s" % (m, m), 0 if t == tab else 1) for m, t in MAP.items()]

def fields_of(P):
    out = []
    for c in P.classes:
        if c.endswith("OverlappingPairs::OverlappingPair") or c.endswith("::ConvexOverlappingPair") or c.endswith("::ConcaveOverlappingPair"):
            for f in P.classes[c].get("fields", []): out.append((base(c), f["n"]))
    return out

def param_fields(P, fn):
    """parameter position -> field it initialises (through the base constructors)"""
    out = {}
    def par(e):
        while isinstance(e, dict) and e.get("k") in ("cast", "paren") or isinstance(e, dict) and e.get("k") == "ctor" and len(e.get("a", [])) == 1: e = e.get("e") or e["a"][0]
        return e.get("d") if isinstance(e, dict) and e.get("k") == "ref" and e.get("dk") == "param" else None
    pos = {p["d"]: k for k, p in enumerate(fn.ps)}
    for i in fn.inits or []:
        e = i.get("e") or {}
        if "base" in i:
            b = P.fns.get(e.get("f"))
            if b is None: continue
            inner = param_fields(P, b)
            for k, a in enumerate(e.get("a", [])):
                if k in inner and par(a) in pos: out[pos[par(a)]] = inner[k]
        elif "field" in i and par(e) in pos: out[pos[par(e)]] = i["field"]
    return out

def ctor_of(P, tab, nargs):
    c = [f for f in P.fns.values() if f.n == "ctor" and f.cls.endswith("::%sOverlappingPair" % kind(tab)) and len(f.ps) >= nargs and len(f.ps) > 1]
    return c[0] if c else None

def evaluate(t, subs):
    """value of an arithmetic text"""
    for a, v in subs: t = re.sub(a, " %d " % v, t)
    return eval(t) if re.fullmatch(r"[-+*x() \d]+", t) and "x" not in t else None

def simulate(rep, U, tab, n, i, env, what, idx=None, fromlists=None):
    """run the changes of one table on the small model with n pairs, removing pair i (None: no removal); the table must stay consistent"""
    it = U.it; A = ["p%d" % k for k in range(n)]; A0 = list(A); M = {a: k for k, a in enumerate(A)}; lists = []
    I = re.escape(U.txt(U_tr(U, tab).args[1])) if i is not None else None
    size = r"Array<[\w:]+>::size\(<this\.m%sPairs>\)" % tab; size2 = r"Array<[\w:]+>::size\(<removeAtAndReplaceByLast!\(<this\.m%sPairs>[^()]*(\([^()]*\)[^()]*)*\)>\)" % tab
    def num(t, m): return evaluate(t, ([(re.escape(U.txt(U_tr(U, tab).args[1])), i)] if i is not None else []) + [(size2, m), (size, n)])
    def ident(t, A):
        m = re.match(r"^[*x]*this\.m%sPairs\[(.*)\]\.pairID$" % tab, t); after = False
        if not m: m = re.match(r"^removeAtAndReplaceByLast!\(<this\.m%sPairs>.*?\)>?\[(.*)\]\.pairID$" % tab, t); after = True
        if m:
            k = num(m.group(1), len(A)); a = A if after else A0
            return a[k] if k is not None and 0 <= k < len(a) else None
        if t == "$pairId" and i is not None and idx: return A0[i]
        return None
    ops = [(c.k, 0, c) for c in U.TR + U.MR + U.LR if getattr(c, "t", tab) == tab] + [(e.seq, 1, e) for t, e in U.MW if t == tab]
    def order(o): return (o[2].ev.seq, 1, o[0]) if o[1] == 0 else (U.it.events.index(o[2]), 2, 0)
    evs = U.it.events; seqs = [(c.ev.seq, 0, c.k, "call", c) for k, z, c in ops if z == 0] + [(evs.index(e), 1, 0, "ev", e) for k, z, e in ops if z == 1]
    for s, z, k, w, o in sorted(seqs, key=lambda q: q[:3]):
        h = holds(it, [g for g in o.guards if not g[0].startswith("L:")], env)
        if h is None: return "undecided: %s" % str([U.nm(g[0])[:80] for g in o.guards])
        if not h: continue
        if w == "ev":
            m = re.match(r"^this\.mMap%sPairIdToPairIndex\[(.*)\](\.second)?$" % tab, full_text(it.I, pstr(o.path)))
            a = ident(m.group(1), A) if m else None; v = num(U.txt(o.new), len(A))
            if a is None or v is None: return "index entry not understood: %s = %s" % (full_text(it.I, pstr(o.path))[:120], U.txt(o.new)[:60])
            M[a] = v
        elif o in U.TR:
            if num(U.txt(o.args[1]), n) != i: return "removes another pair"
            A[i] = A[-1]; A.pop()
        elif o in U.MR:
            a = ident(U.txt(o.args[1]), A)
            if a is None: return "removes an unknown id from the index: " + U.txt(o.args[1])[:100]
            M.pop(a, None)
        elif o in U.LR:
            t = full_text(it.I, key(o.args[0])); m = re.search(r"mOverlappingPairs\[@?[*x]*(this\.m%sPairs\[.*\]|removeAt.*\])\.(collider[12])[\]>]" % tab, t)
            if m is None: continue
            lists.append((m.group(2), ident(m.group(1) + ".pairID", A), ident(U.txt(o.args[1]), A)))
    if M != {a: k for k, a in enumerate(A)}: return "index after the change: %s, table: %s" % (M, A)
    if fromlists is not None:
        want = sorted([("collider1", A0[i], A0[i]), ("collider2", A0[i], A0[i])]) if fromlists else []
        if sorted(lists, key=str) != want: return "removed from the lists of: %s" % lists
    return None

def U_tr(U, tab):
    return next((c for c in U.TR if c.t == tab), None)

def env(U, tab, n, i, rm=1, more=()):
    c = U_tr(U, tab); I = U.txt(c.args[1]) if c else None
    p = [(r"size\(<this\.m%sPairs>\)$" % tab, n)] + [(r"size\(<this\.m%sPairs>\)$" % t, 5) for t in TABLES if t != tab]
    p += [(r"^<?removeAtAndReplaceByLast!.*this\.m%sPairs" % tab, n - 1), (r"size\(<?removeAtAndReplaceByLast!.*this\.m%sPairs" % tab, n - 1), (r"^\$removeFromColliders$", rm)] + found(tab) + list(more)
    if I is not None: p.append((r"^%s$" % re.escape(I), i))
    return NEnv(U.it, U.nm, p)

def removals(P, rep, units):
    n = 0
    for r in ROOTS:
        if r == "addPair": continue
        U = units[r]; wh = U.fn.where()
        tabs = {"removePair": TABLES, "enablePair": TABLES[2:], "disablePair": TABLES[:2], "removeConvexPairWithIndex": ("Convex",), "removeConcavePairWithIndex": ("Concave",)}[r]
        byid = r in ("removePair", "enablePair", "disablePair")
        for t in tabs:
            cs = [c for c in U.TR if c.t == t]
            if not rep.check(len(cs) == 1, "%s removes a pair from the %s table" % (r, t), wh, str(len(cs))): continue
            I = U.txt(cs[0].args[1])
            if byid: rep.check(re.search(r"this\.mMap%sPairIdToPairIndex\[\$pairId\]" % t, I), "%s finds the pair in the index of the %s table" % (r, t), U.at(cs[0]), I[:120]); n += 1
            else: rep.check(I == "$" + U.fn.ps[0]["n"], "%s removes the pair asked for" % r, U.at(cs[0]), I[:120]); n += 1
            for size in (1, 2, 3):
                for i in range(size):
                    for rm in ((1,) if byid else (1, 0)):
                        e = env(U, t, size, i, rm)
                        why = simulate(rep, U, t, size, i, e, r, idx=byid, fromlists=(r == "removePair" if byid else bool(rm))); n += 1
                        rep.check(why is None, "%s keeps the %s table, its index and the lists of the colliders consistent" % (r, t), U.at(cs[0]), "%d pairs, removing pair %d%s: %s" % (size, i, "" if rm else " without the lists", why))
            if byid:   # a pair in one table leaves the others alone
                e = env(U, t, 2, 0); n += 1
                for o in U.TR + U.MR + U.TA + U.MA + U.LR + [e2 for _, e2 in U.MW]:
                    ot = getattr(o, "t", None) or next((a for a, b in U.MW if b is o), None)
                    if ot in (None, t) or (r != "removePair" and ot == other(t)): continue
                    rep.check(holds(U.it, [g for g in o.guards if not g[0].startswith("L:")], e) is False, "%s of a pair of the %s table leaves the other tables alone" % (r, t), U.at(o), ot)
    return n

def transfers(P, rep, units):
    n = 0
    for r, tabs in (("enablePair", TABLES[2:]), ("disablePair", TABLES[:2])):
        U = units[r]; it = U.it; wh = U.fn.where()
        for t in tabs:
            d = other(t); e = env(U, t, 3, 1)
            on = lambda cs: [c for c in cs if c.t == d and holds(it, [g for g in c.guards if not g[0].startswith("L:")], e)]
            ta, ma = on(U.TA), on(U.MA); n += 1
            if not rep.check(len(ta) == 1 and len(ma) == 1, "%s moves the pair from the %s to the %s table" % (r, t, d), wh, "%d %d" % (len(ta), len(ma))): continue
            ta, ma = ta[0], ma[0]; I = U.txt(U_tr(U, t).args[1]); src = "this.m%sPairs[%s]." % (t, I)
            tr = U_tr(U, t)
            rep.check(ta.k < tr.k, "the pair is copied before it is removed", U.at(ta)); n += 1
            got = {}
            if ta.n == "emplace":
                cf = ctor_of(P, d, len(ta.args) - 1)
                if not rep.check(cf is not None, "the constructor of the pair is found", U.at(ta)): continue
                pf = param_fields(P, cf); rep.analysed(cf)
                for k, a in enumerate(ta.args[1:]):
                    if k in pf: got[pf[k]] = a
            else:
                for c, f in fields_of(P):
                    if c == "OverlappingPair" or c.startswith(kind(t)): got[f] = None
                rep.check(U.txt(ta.args[1]).startswith(src.rstrip(".")), "the pair itself is copied", U.at(ta), U.txt(ta.args[1])[:100])
            for tt, ev in U.events:
                m = re.match(r"^this\.m%sPairs\[(.*)\]\.(\w+)$" % d, full_text(it.I, pstr(ev.path)))
                if tt == d and m and holds(it, [g for g in ev.guards if not g[0].startswith("L:")], e): got[m.group(2)] = ev.new
            for c, f in fields_of(P):
                if c not in ("OverlappingPair", kind(t) + "OverlappingPair") or f in ("needToTestOverlap", "lastFrameCollisionInfo", "lastFrameCollisionInfos", "mPoolAllocator"): continue
                n += 1; v = got.get(f, "-")
                if f == "isEnabled":
                    ok = isinstance(v, Sc) and v.p == (const(1) if not d.startswith("Disabled") else ZERO)
                    rep.check(ok, "the pair knows the side it is on", U.at(ta), "%s: isEnabled = %s" % (d, U.txt(v)[:40] if v != "-" and v is not None else v))
                else:
                    ok = v is None or v != "-" and U.txt(v) in (src + f, src + f + " ") or v != "-" and v is not None and U.txt(v) == src + f
                    rep.check(ok, "moving a pair keeps its %s" % f, U.at(ta), U.txt(v)[:120] if v not in ("-", None) else "not copied")
            n += entry(rep, U, ta, ma, d, src + "pairID")
    return n

def entry(rep, U, ta, ma, d, ident):
    """the index entry added for a new pair names it and its place at the end of the table"""
    m = re.match(r"^(?:ctor:)?Pair<[^()]*>\((.*)\)$|^(.*)$", U.txt(ma.args[1])); v = ma.args[1]
    parts = pair_parts(U, v); n = 1
    if not rep.check(parts is not None, "an index entry is added for the pair", U.at(ma), U.txt(v)[:120]): return n
    a, b = parts; size = r"Array<[\w:]+>::size\(<this\.m%sPairs>\)" % d
    rep.check(a == ident or ident is None, "the index entry is for the id of the pair", U.at(ma), a[:120])
    sz = [c.k for c in U.T.calls if c.n == "size" and c.args and U.txt(c.args[0]) == "this.m%sPairs" % d and all(any(x[0] == g[0] and x[1] == g[1] for x in ma.guards) for g in c.guards)]
    ok = bool(re.fullmatch(size, b)) and any(k < ta.k for k in sz) or bool(re.fullmatch(r"-1 \+ " + size, b)) and ma.k > ta.k and any(ta.k < k for k in sz)
    rep.check(ok, "the index entry leads to the place of the new pair", U.at(ma), b[:120])
    return n

def pair_parts(U, v):
    t = full_text(U.it.I, key(v)).strip("<>")
    if isinstance(v, St) and "first" in v.f: return U.txt(v.f["first"]), U.txt(v.f["second"])
    m = re.match(r"^ctor:Pair<[\w ,]+>\((.*)\)$", t)
    if not m: return None
    d = 0; s = m.group(1)
    for k, ch in enumerate(s):
        if ch in "([{<" : d += 1
        elif ch in ")]}" or ch == ">" and s[k-1] != "-": d -= 1
        elif ch in ",;" and d == 0: return s[:k].strip(), s[k+1:].strip()
    return None

def additions(P, rep, units):
    n = 0; U = units["addPair"]; it = U.it; fn = U.fn; wh = fn.where()
    tas = {}
    for t in ("Convex", "Concave"):
        ta = [c for c in U.TA if c.t == t]; ma = [c for c in U.MA if c.t == t]
        if not rep.check(len(ta) == 1 and len(ma) == 1, "a new %s pair is recorded once in the table and in the index" % t.lower(), wh, "%d %d" % (len(ta), len(ma))): continue
        ta, ma = ta[0], ma[0]; tas[t] = ta
        flag = "$" + fn.ps[2]["n"]
        for v in (0, 1):
            e = NEnv(it, U.nm, [(r"^%s$" % re.escape(flag), v)]); want = (v == 1) == (t == "Convex"); n += 1
            for c, w in ((ta, "table"), (ma, "index")): rep.check(holds(it, nonloop(it, c), e) is want, "a pair enters the %s of its kind" % w, U.at(c), t)
        n += entry(rep, U, ta, ma, t, None)
        parts = pair_parts(U, ma.args[1]); cf = ctor_of(P, t, len(ta.args) - 1)
        if parts is None or cf is None or ta.n != "emplace": rep.check(ta.n == "emplace", "a new pair is constructed in place", U.at(ta)); continue
        pf = param_fields(P, cf); got = {pf[k]: U.txt(a) for k, a in enumerate(ta.args[1:]) if k in pf}; n += 6
        rep.check(got.get("pairID") == parts[0], "the id of the pair and of its index entry agree", U.at(ta), "%s / %s" % (got.get("pairID", "")[:80], parts[0][:80]))
        P1, P2 = ["$" + fn.ps[k]["n"] for k in (0, 1)]
        for f, col, row in (("collider1", "mCollidersEntities", P1), ("collider2", "mCollidersEntities", P2), ("broadPhaseId1", "mBroadPhaseIds", P1), ("broadPhaseId2", "mBroadPhaseIds", P2)):
            rep.check(re.match(r"^[*x]*this\.mColliderComponents\.%s\[%s\]$" % (col, re.escape(row)), got.get(f, "")), "the new pair holds its %s" % f, U.at(ta), got.get(f, "")[:100])
        rep.check(got.get("isEnabled") == "1", "a new pair is enabled", U.at(ta), got.get("isEnabled"))
        b1, b2 = ["this.mColliderComponents.mBroadPhaseIds[%s]" % p for p in (P1, P2)]
        tt = parts[0].replace("*this", "this")
        rep.check(re.search(r"pairNumbers\(.*max\(", tt) and tt.count("max(") == 1 and tt.count("min(") == 1 and tt.index("max(") < tt.index("min(") and tt.count(b1) == 2 and tt.count(b2) == 2, "the id of a pair is that of its two broad-phase ids, greatest first", U.at(ma), tt[:160])
        for p in (P1, P2):
            la = [c for c in U.LA if re.search(r"mOverlappingPairs\[%s\]" % re.escape(p), full_text(it.I, key(c.args[0])))]; n += 1
            ok = len(la) == 1 and not nonloop(it, la[0]) and U.txt(la[0].args[1]) in (parts[0], "phi") or len(la) == 1 and not nonloop(it, la[0]) and parts[0] in U.txt(la[0].args[1])
            rep.check(ok, "a new pair enters the list of both its colliders", wh, "%s: %s" % (p, [U.txt(c.args[1])[:60] for c in la]))
    rep.check(len(U.LA) == 2, "a new pair enters the list of both its colliders once", wh, str(len(U.LA)))
    rr = U.txt(U.T.ret) if U.T.ret is not None else ""
    return n

def infos(P, rep, units):
    """what a concave pair owns is destroyed with it"""
    n = 0
    for r in ("removePair", "removeConcavePairWithIndex", "disablePair"):
        U = units[r]; tr = U_tr(U, "Concave"); cs = [c for c in U.T.calls if c.n == "destroyLastFrameCollisionInfos"]; n += 1
        ok = [c for c in cs if re.search(r"this\.mConcavePairs\[", full_text(U.it.I, key(c.args[0]))) and U.txt(tr.args[1]) in full_text(U.it.I, key(c.args[0])) and c.k < tr.k and all(tuple(g) in {tuple(x) for x in tr.guards} for g in c.guards)]
        rep.check(ok, "the collision infos of a concave pair are destroyed before it is removed", U.at(tr))
    return n

def resolve(it, path, e):
    """the place a path means when the pointer it starts from is chosen by tests"""
    r = path[0]
    for _ in range(4):
        if not r.startswith("*") or it.I.info.get(r[1:], ("",))[0] != "phi": break
        v = value_under(it, Op(r[1:], ""), e)
        if not isinstance(v, Ptr): break
        path = v.path + path[1:]; r = path[0]
    return full_text(it.I, pstr(path))

def number_under(it, p, e, depth=4):
    """a polynomial with the alternatives the assignment selects"""
    for _ in range(depth):
        sub = {}
        for a in {a for m in p for a in m}:
            if it.I.info.get(a, ("",))[0] in ("phi", "sel"):
                v = value_under(it, Sc(atom(a)), e)
                if isinstance(v, Sc): sub[a] = v.p
        if not sub: break
        p = psubst(p, sub)
    return p

def lookups(P, rep):
    n = 0
    for name in ("getOverlappingPair", "setNeedToTestOverlap", "isPairDisabled"):
        fn = P.method("OverlappingPairs", name); rep.analysed(fn); U = Unit(P, fn); it = U.it
        for t in TABLES:
            e = env(U, t, 3, 1); n += 1; wh = fn.where()
            if name == "getOverlappingPair":
                v = value_under(it, U.T.ret, e); x = U.txt(v) if v is not None else "?"
                rep.check(re.match(r"^[&<]*this\.m%sPairs\[.*mMap%sPairIdToPairIndex\[\$pairId\]" % (t, t), x), "a pair of the %s table is found under its id" % t, wh, x[:140])
            elif name == "setNeedToTestOverlap":
                got = []
                for q in it.events:
                    if q.kind != "store" and q.path[-1] != ".needToTestOverlap" or not holds(it, [g for g in q.guards if not g[0].startswith("L:")], e): continue
                    got.append((resolve(it, q.path, e), U.txt(q.new)))
                ok = len(got) == 1 and re.match(r"^this\.m%sPairs\[.*mMap%sPairIdToPairIndex\[\$pairId\].*\.needToTestOverlap$" % (t, t), got[0][0]) and got[0][1] == "$" + fn.ps[1]["n"]
                rep.check(ok, "a pair of the %s table can be told to test its overlap" % t, wh, str(got)[:160])
            else:
                v = truth_v(it, U.T.ret, e)
                rep.check(v is not None and bool(v) == t.startswith("Disabled"), "a pair is disabled exactly if it is in a table of disabled pairs", wh, "%s: %s" % (t, v))
    return n

def tables(P, rep):
    n = 0; covered = set()
    units = {}
    for r in ROOTS:
        fn = P.method("OverlappingPairs", r); rep.analysed(fn); U = units[r] = Unit(P, fn)
        for c in U.T.calls:
            for f in c.chain: covered.add(f.f); rep.analysed(f)
        covered.add(fn.f)
        for c in U.odd: rep.bad("the pair tables are only changed by adding and removing pairs", U.at(c), c.n); n += 1
    # nobody else touches the tables
    for f in P.fns.values():
        if f.f in covered or f.body is None: continue
        for x in f.nodes():
            if x.get("k") != "call" or x.get("o") is None or x.get("cm"): continue
            o = x["o"]; nm = o.get("n") or ""
            if nm in ARR or nm in MAP:
                if x.get("n") in ("add", "emplace", "remove", "removeAt", "removeAtAndReplaceByLast", "clear", "swap"):
                    n += 1; rep.check(False, "the pair tables are only changed by the functions that keep them consistent", f.where(x), "%s %s" % (nm, x["n"]))
    return n, units

REMOVE = ("removePair", "removeConvexPairWithIndex", "removeConcavePairWithIndex", "removeDisabledConvexPairWithIndex", "removeDisabledConcavePairWithIndex")
LOST = {"removeNonOverlappingPairs": 1, "addNoCollisionPair": 1, "updateOverlappingPairs": 1, "removeCollider": 0}

def departures(P, rep):
    """every way a pair leaves the world: whether its lost contact is recorded, and that stale pairs are found"""
    n = 0; seen = set(); CDS = "CollisionDetectionSystem"
    for r, lost in LOST.items():
        fn = P.method(CDS, r); rep.analysed(fn); wh = fn.where()
        T = Trace(P, fn, lambda f: f.cls == CDS, maxterms=200); it = T.it; nm = Names(it)
        rem = [c for c in T.calls if c.cls == "OverlappingPairs" and c.n in REMOVE]
        add = [c for c in T.calls if c.cls == "Array" and c.n in ("add", "emplace") and full_text(it.I, key(c.args[0])).strip("<>&*") == "this.mLostContactPairs"]
        for c in T.calls:
            for f in c.chain: rep.analysed(f)
        at = lambda c: c.fn.where(c.node if isinstance(c.node, dict) else None) if c.fn else wh
        rep.check(bool(rem), "%s removes pairs" % r, wh)
        for c in rem:
            n += 1; seen.add(id(c.node))
            t = full_text(it.I, key(c.args[1])).strip("<>&")
            tab = {"removeConvexPairWithIndex": "Convex", "removeConcavePairWithIndex": "Concave"}.get(c.n)
            pair = re.escape("this.mOverlappingPairs.m%sPairs[%s]." % (tab, t)) if tab else r"\*?<?&?OverlappingPairs::getOverlappingPair'?\(<this\.mOverlappingPairs>; %s\)>?\." % re.escape(t)
            prev = re.compile(pair + "collidingInPreviousFrame$")
            mine = [a for a in add if a.k < c.k and set(map(tuple, c.guards)) <= set(map(tuple, a.guards)) and [l[0] for l in a.loops] == [l[0] for l in c.loops]]
            if not lost:
                rep.check(not mine, "a removed collider leaves no lost contact behind", at(c)); continue
            if not rep.check(len(mine) == 1, "the lost contact of a removed pair is recorded before the pair is gone", at(c), str(len(mine))): continue
            own = [g for g in mine[0].guards if tuple(g) not in set(map(tuple, c.guards))]
            g = [full_text(it.I, x[0]).strip("<>") for x in own]
            rep.check(len(own) == 1 and own[0][1] is True and prev.search(g[0].lstrip("*x")) is not None, "a pair that was colliding, and no other, is recorded as a lost contact", at(mine[0]), str(g)[:200])
            v = full_text(it.I, key(mine[0].args[1]))
            rep.check(re.search(pair + "pairID", v) is not None or re.search(r"ContactPair\(" + re.escape(t), v) is not None, "the lost contact is that of the removed pair", at(mine[0]), v[:160])
        if r == "removeNonOverlappingPairs":
            for tab in ("Convex", "Concave"):
                cs = [c for c in rem if c.n == "remove%sPairWithIndex" % tab]
                if not rep.check(len(cs) == 1, "stale %s pairs are removed" % tab.lower(), wh, str(len(cs))): continue
                c = cs[0]; t = full_text(it.I, key(c.args[1])); el = re.escape("this.mOverlappingPairs.m%sPairs[%s]" % (tab, t))
                for need in (0, 1):
                    for ov in (0, 1):
                        e = NEnv(it, nm, [(r"^[*x]*%s\.needToTestOverlap$" % el, need), (r"^[*x]*BroadPhaseSystem::testOverlappingShapes\(.*%s\.broadPhaseId1.*%s\.broadPhaseId2" % (el, el), ov)])
                        h = holds(it, [g for g in nonloop(it, c)], e); n += 1
                        rep.check(h is bool(need and not ov), "a pair is removed exactly if its shapes were moved apart", at(c), "%s table, test asked: %d, overlapping: %d -> removed: %s" % (tab, need, ov, h))
                        clr = [q for q in it.events if re.match("^%s\\.needToTestOverlap$" % el, full_text(it.I, pstr(q.path)))]
                        k = [holds(it, [g for g in q.guards if not g[0].startswith("L:")], e) for q in clr if isinstance(q.new, Sc) and not q.new.p]
                        if need: rep.check((True in k) is bool(ov) or not ov, "the request to test a pair is answered once", at(c), str(k)); n += 1
                        # how the walk goes on
                        for path, before, after, ty, node in {(pstr(q[0]), q[4]): q[:5] for q in it.accumulations}.values():
                            if not c.loops or node != c.loops[-1][0]: continue
                            st = it.loopstart.get((c.loops[-1][0], path))
                            if not isinstance(st, Sc) or not isinstance(after, Sc) or pkey(st.p) not in t and st.key() not in t: continue
                            a = number_under(it, after.p, e); n += 1
                            d = psub(a, st.p); up = pkey(st.p) == t.strip("<>") or st.key() == t
                            d = cval(d) if isconst(d) else None
                            gone = need and not ov
                            rep.check(d == (0 if gone else 1) if up else d == -1, "the walk over the pairs misses none", at(c), "%s table, step %s after %s" % (tab, d, "a removal" if gone else "a pair that stays"))
    # every removal has been looked at
    for f in P.fns.values():
        if f.body is None or f.cls == "OverlappingPairs": continue
        for x in f.nodes():
            if x.get("k") == "call" and x.get("n") in REMOVE and any(g in P.fns and P.fns[g].cls == "OverlappingPairs" for g in P.targets(x)):
                n += 1; rep.check(id(x) in seen, "a pair is only removed where its lost contact is considered", f.where(x), x["n"])
    # a collider that moved has all its pairs tested
    fn = P.method("BroadPhaseSystem", "addMovedCollider"); rep.analysed(fn)
    T = Trace(P, fn, lambda f: f.cls in (CDS, "BroadPhaseSystem")); it = T.it; cs = [c for c in T.calls if c.n == "setNeedToTestOverlap"]
    if rep.check(len(cs) == 1, "the pairs of a moved collider are to be tested for overlap", fn.where(), str(len(cs))):
        c = cs[0]; rep.analysed(c.fn); n += 2
        rep.check(not nonloop(it, c) and len(c.loops) == 1 and key(c.args[2]) in ("1", "true"), "the pairs of a moved collider are all to be tested for overlap", c.fn.where(c.node), str([g[0][:80] for g in nonloop(it, c)]))
        v = full_text(it.I, key(c.args[1])); lr = loop_range(it, c.loops[0], c.guards)
        rep.check("getOverlappingPairs" in v and re.search(r"getEntity\(&?<?\$%s" % fn.ps[1]["n"], v) is not None, "the pairs tested are those of the moved collider", c.fn.where(c.node), v[:140])
        rep.check(lr[0] == "each" or lr[0] == "iter" or lr[0] in ("up",) and not lr[2] and re.search(r"^Array<[\w ]+>::size\(.*getOverlappingPairs", full_text(it.I, pkey(lr[3]))) is not None or lr[0] == "down", "all pairs of a moved collider are visited", c.fn.where(c.node), str(lr)[:160])
    rep.check(any(c.n == "add" and re.search("mMovedShapes", full_text(it.I, key(c.args[0]))) and not nonloop(it, c) for c in T.calls), "a moved collider is looked up in the broad phase", fn.where())
    # the broad phase of a step
    fn = P.method(CDS, "computeBroadPhase"); rep.analysed(fn); T = Trace(P, fn, lambda f: False)
    for name in ("computeOverlappingPairs", "updateOverlappingPairs", "removeNonOverlappingPairs"):
        n += 1; rep.check(any(c.n == name and not c.guards and not c.loops for c in T.calls), "each broad phase finds the new pairs and removes the stale ones", fn.where(), name)
    return n

def destruction(P, rep):
    fn = next((f for f in P.fns.values() if f.cls == "OverlappingPairs" and f.n in ("dtor", "~OverlappingPairs") and f.body is not None), None); n = 0
    if not rep.check(fn is not None, "the pair tables are emptied at the end", "include/reactphysics3d/engine/OverlappingPairs.h"): return 0
    rep.analysed(fn); U = Unit(P, fn); it = U.it
    for t in TABLES:
        cs = [c for c in U.TR if c.t == t]; n += 1
        if not rep.check(len(cs) == 1 and len(cs[0].loops) == 1 and not nonloop(it, cs[0]), "the %s table is emptied at the end" % t, fn.where(), str(len(cs))): continue
        e = NEnv(it, U.nm, [(r"size\(<this\.m%sPairs>\)$" % t, 1)]); g = [(x[0][2:] if x[0].startswith("L:") else x[0], x[1]) for x in cs[0].guards]
        h = holds(it, g, e)
        rep.check(h is not False and re.search(r"size\(<this\.m%sPairs>\)" % t, "".join(full_text(it.I, x[0]) for x in g)) is not None, "the %s table is emptied until nothing is left" % t, U.at(cs[0]), str(g)[:160])
    return n

def check_P19(P, rep):
    n, units = tables(P, rep)
    n += removals(P, rep, units) + transfers(P, rep, units) + additions(P, rep, units) + infos(P, rep, units) + lookups(P, rep) + departures(P, rep) + destruction(P, rep)
    rep.count("cases_evaluated", n); rep.need(n, 180, "cases")

"""Ordered, guarded call traces of a function with everything outside a chosen set of classes kept abstract, and loop ranges."""
import re
from .terms import *
from .api import rowname
from .cfg import cfg
from .model import walk, show

class Trace:
    """calls of fn in program order; .it the interpretation"""
    def __init__(self, P, fn, inline, maxterms=60, depth=14, stop=()):
        self.P = P; self.fn = fn
        self.it = Interp(P, lambda f: not inline(f), maxterms=maxterms, depth=depth, mapname=rowname)
        self.ret = self.it.run(fn); self.calls = []
        for k, e in enumerate(self.it.calls):
            f = P.fns.get(e.path[0]); c = Call(); c.ev = e; c.k = k; c.guards = e.guards; c.loops = e.loops; c.args = e.old; c.node = e.node; c.fn = e.fn; c.chain = e.chain
            c.f = e.path[0]; c.cls = (f.cls if f else e.node.get("cls", "")).split("<")[0]; c.n = f.n if f else e.node.get("n")
            self.calls.append(c)
    def find(self, cls, n): return [c for c in self.calls if c.n == n and (cls is None or c.cls == cls)]
    def conds(self, c):
        """guards that are not loop conditions"""
        return [g for g in c.guards if not g[0].startswith("L:") and not (g[0] in ("true",))]
    def ranges(self, c):
        return [loop_range(self.it, l, c.guards) for l in c.loops]

class Call: pass

def loop_range(it, loop, guards=None):
    """(kind, index path, from, to key) of a loop: ('up', path, start poly, bound poly) ascending by one below a bound,
    ('each', None, None, range text) for a range-for, or ('?',)"""
    sid, s = loop
    if s["k"] == "forr": return ("each", None, None, show(s["range"]))
    acc = [a for a in it.accumulations if a[4] == sid]
    best = None
    for name, info in list(it.I.info.items()):
        if info[0] not in ("cmp", "not"): continue
        op, d = (info[1], info[2]) if info[0] == "cmp" else (None, None)
        if op is None: continue
        d = d.p if isinstance(d, Sc) else d
        for path, before, after, t, node, final in acc:
            st = it.loopstart.get((sid, path))
            if not isinstance(st, Sc) or not isinstance(after, Sc) or not isinstance(before, Sc) or len(st.p) != 1: continue
            a = next(iter(next(iter(st.p))), None)
            if a is None or (a,) not in d: continue
            step = psub(after.p, st.p)
            if not isconst(step): continue
            k = d[(a,)]; bound = psub(d, {(a,): k})
            if k == 1 and cval(step) == 1 and op in ("<", "<=", "=="): 
                b = pneg(bound)
                if op == "<=": b = padd(b, const(1))
                r = ("up", path, before.p, b)
            elif k == -1 and cval(step) == -1 and op in ("<", "<=", "=="):
                lo = bound
                if op == "<": lo = padd(lo, const(1))
                r = ("down", path, before.p, lo)
            elif k == -1 and cval(step) == 1 and op == "==": r = ("up", path, before.p, bound)
            else: continue
            # the condition must be the one of this loop
            if guards is None or any(g[0] == "L:" + name or g[0] == "L:!" + name or name in g[0] for g in guards): best = best or r
    if best is None:
        for path, before, after, t, node, final in acc:
            if isinstance(before, St) and "mCurrentIndex" in before.f and "mBuffer" in before.f and guards is not None:
                b = before.f["mBuffer"].key() if hasattr(before.f["mBuffer"], "key") else ""; i = before.f["mCurrentIndex"]
                buf = b.strip("<>&*")
                if isinstance(i, Sc) and not i.p and any(g[0].startswith("L:") and re.search(r"%s\[[^\]]*mSize\]" % re.escape(buf), g[0]) for g in guards): best = ("iter", path, i.p, buf)
    return best or ("?",)

def leaves_early(fn, s):
    """syntax nodes from which loop s of fn is left other than through its condition (break, return)"""
    G = cfg(fn); sid = id(s); out = []
    own = {id(y) for y in walk(s["c"])} if isinstance(s.get("c"), dict) else set()
    for n in G.nodes:
        if sid not in n.loops: continue
        for t, l in n.succ:
            if sid in t.loops: continue
            if isinstance(n.x, dict) and (id(n.x) in own or n.x.get("k") == "more" and n.loops[-1] == sid and l is False): continue
            out.append(n)
    return out

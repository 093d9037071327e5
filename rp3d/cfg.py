"""Control-flow graph of a function built from the resolved syntax tree, with path rules (reachability, must-pass, guards)."""
from .model import walk, children, show

class Node:
    __slots__ = ("i", "kind", "x", "succ", "pred", "loops")
    def __init__(self, i, kind, x, loops=()):
        self.i = i; self.kind = kind; self.x = x; self.succ = []; self.pred = []; self.loops = loops
    def __repr__(self): return "<%d %s %s>" % (self.i, self.kind, show(self.x)[:60] if isinstance(self.x, dict) else self.x)

def _norm(c):
    while isinstance(c, dict) and c.get("k") == "cast" and c.get("imp"): c = c["a"][0]
    return c

class CFG:
    """nodes: 'e' evaluates expression x; 'c' branches on atomic condition x (edge labels True/False); 'r' return; entry; exit"""
    def __init__(self, fn):
        self.fn = fn; self.nodes = []
        self.entry = self.new("entry", None); self.exit = self.new("exit", None)
        self.owner = {}          # id(syntax node) -> cfg node
        self._loopstack = []
        self._brk = []; self._cnt = []
        cur = [(self.entry, None)]
        for i in fn.inits:
            if isinstance(i.get("e"), dict): cur = self.ev(cur, i["e"])
        if fn.body: cur = self.st(cur, fn.body)
        for n, l in cur: self.edge(n, self.exit, l)
        for n in self.nodes:
            for s, l in n.succ: s.pred.append((n, l))

    def new(self, kind, x):
        n = Node(len(self.nodes), kind, x, tuple(self._loopstack) if hasattr(self, "_loopstack") else ()); self.nodes.append(n)
        if isinstance(x, dict):
            for y in walk(x): self.owner.setdefault(id(y), n)
        return n
    def edge(self, a, b, l): a.succ.append((b, l))
    def join(self, cur, n):
        for p, l in cur: self.edge(p, n, l)
        return [(n, None)]

    def ev(self, cur, x):
        """evaluate an expression: conditional sub-expressions become branches"""
        x0 = _norm(x)
        if x0.get("k") == "bin" and x0["op"] in ("&&", "||") or (x0.get("k") == "un" and x0["op"] == "!" and _norm(x0["a"][0]).get("k") == "bin" and _norm(x0["a"][0])["op"] in ("&&", "||")):
            t, f = self.cond(cur, x0)
            return t + f
        if x0.get("k") == "cond":
            t, f = self.cond(cur, x0["a"][0])
            n = self.new("e", {"k": "phi", "l": x0.get("l"), "a": []})
            t = self.ev(t, x0["a"][1]); f = self.ev(f, x0["a"][2])
            return self.join(t + f, n)
        return self.join(cur, self.new("e", x))

    def cond(self, cur, c):
        c = _norm(c)
        k = c.get("k")
        if k == "un" and c["op"] == "!":
            t, f = self.cond(cur, c["a"][0]); return f, t
        if k == "bin" and c["op"] == "&&":
            t1, f1 = self.cond(cur, c["a"][0]); t2, f2 = self.cond(t1, c["a"][1]); return t2, f1 + f2
        if k == "bin" and c["op"] == "||":
            t1, f1 = self.cond(cur, c["a"][0]); t2, f2 = self.cond(f1, c["a"][1]); return t1 + t2, f2
        if k == "lit":
            return (cur, []) if c["v"] else ([], cur)
        n = self.new("c", c)
        self.join(cur, n)
        return [(n, True)], [(n, False)]

    def st(self, cur, s):
        if s is None: return cur
        k = s.get("k")
        if k == "block":
            for x in s["a"]: cur = self.st(cur, x)
            return cur
        if k == "decl":
            for v in s["a"]:
                n = self.new("e", v); cur = self.join(cur, n)
            return cur
        if k == "null_s": return cur
        if k == "if":
            if s.get("init"): cur = self.st(cur, s["init"])
            if s.get("cv"): cur = self.st(cur, s["cv"])
            t, f = self.cond(cur, s["c"])
            t = self.st(t, s["th"])
            if s.get("el") and isinstance(s["el"], dict): f = self.st(f, s["el"])
            return t + f
        if k in ("for", "while", "do", "forr"):
            if k == "for" and s.get("init"): cur = self.st(cur, s["init"])
            if k == "forr":
                cur = self.ev(cur, s["range"])
            self._loopstack.append(id(s))
            head = self.new("e", {"k": "loop", "l": s.get("l"), "s": id(s), "a": []})
            self.join(cur, head)
            brk = []; cnt = []
            self._brk.append(brk); self._cnt.append(cnt)
            if k == "do":
                b = self.st([(head, None)], s["b"])
                t, f = self.cond(b + cnt, s["c"])
                for n, l in t: self.edge(n, head, l)
                out = f
            else:
                if k == "forr":
                    n = self.new("c", {"k": "more", "l": s.get("l"), "a": []}); self.join([(head, None)], n)
                    t, f = [(n, True)], [(n, False)]
                    vn = self.new("e", s["v"]); t = self.join(t, vn)
                elif s.get("c"): t, f = self.cond([(head, None)], s["c"])
                else: t, f = [(head, None)], []
                b = self.st(t, s["b"])
                b = b + cnt
                if k == "for" and s.get("inc"): b = self.ev(b, s["inc"])
                for n, l in b: self.edge(n, head, l)
                out = f
            self._brk.pop(); self._cnt.pop(); self._loopstack.pop()
            return out + brk
        if k == "switch":
            n = self.new("c", s["c"]); self.join(cur, n)
            brk = []; self._brk.append(brk)
            body = s["b"]["a"] if s["b"] and s["b"].get("k") == "block" else [s["b"]]
            cur2 = []; hasdef = False
            for x in body:
                y = x
                while isinstance(y, dict) and y.get("k") in ("case", "default"):
                    if y["k"] == "default": hasdef = True; cur2 = cur2 + [(n, ("default",))]
                    else: cur2 = cur2 + [(n, ("case", y["v"].get("n") or y["v"].get("v")))]
                    y = y["b"]
                cur2 = self.st(cur2, y)
            if not hasdef: cur2 = cur2 + [(n, ("nocase",))]
            self._brk.pop()
            return cur2 + brk
        if k == "ret":
            if s.get("e"): cur = self.ev(cur, s["e"])
            n = self.new("r", s); self.join(cur, n); self.edge(n, self.exit, None)
            return []
        if k == "break":
            self._brk[-1].extend(cur); return []
        if k == "continue":
            self._cnt[-1].extend(cur); return []
        if k.startswith("s:"):
            for x in children(s): cur = self.st(cur, x)
            return cur
        return self.ev(cur, s)

    # ------------------------------------------------------------ queries
    def node_of(self, x): return self.owner.get(id(x))

    def reach(self, starts, blocked=frozenset(), blocked_edges=frozenset(), forward=True):
        """nodes reachable from starts (inclusive) without entering a blocked node"""
        seen = set(); st = [s for s in starts if s.i not in blocked]
        while st:
            n = st.pop()
            if n.i in seen: continue
            seen.add(n.i)
            for s, l in (n.succ if forward else n.pred):
                if s.i in blocked or s.i in seen: continue
                e = (n.i, s.i, l) if forward else (s.i, n.i, l)
                if e in blocked_edges or (e[0], l) in blocked_edges: continue
                st.append(s)
        return seen

    def must_pass(self, start, targets, end=None):
        """True if every path from start to the exit (or end) passes a target node (ids)"""
        end = end or self.exit
        if start.i in targets: return True
        r = self.reach([s for s, l in start.succ] if start.kind != "entry" else [start], blocked=targets)
        return end.i not in r

    def guards(self, n):
        """list of (cond node, polarity) that hold on every path from the entry to n"""
        out = []
        for c in self.nodes:
            if c.kind != "c" or c is n: continue
            labels = {l for s, l in c.succ}
            for l in labels:
                # all paths to n take edge (c,l): removing it makes n unreachable
                r = self.reach([self.entry], blocked_edges={(c.i, l)})
                if n.i not in r: out.append((c, l))
        return out

    def find(self, pred):
        """(cfg node, syntax node) for all syntax nodes satisfying pred, in cfg nodes"""
        out = []
        for n in self.nodes:
            if isinstance(n.x, dict):
                for y in walk(n.x):
                    if pred(y): out.append((n, y))
        return out

def cfg(fn):
    if "cfg" not in fn._x: fn._x["cfg"] = CFG(fn)
    return fn._x["cfg"]

"""P03, P04, P05, P27: laws of the rows of the constraint solver, on top of the interpretation of solverlaws."""
import re
from ..terms import *
from ..solver import *
from .solverlaws import *

IMP = re.compile(r"[iI]mpulse\w*(\[\w+\])?(\.[xyz])?$")

class Row:
    __slots__ = ("name", "old", "new", "ev", "guards", "loops", "alts")

def gkey(e): return tuple(x for x in e.guards if not x[0].startswith("L:")), tuple(l[0] for l in e.loops)

def scalar_writes(S, ph):
    """writes of accumulated impulses by scalar component: [(name, old poly, new poly, event)]"""
    it = S.it[ph]; out = []
    for e in it.events:
        if e.path[0].startswith("%") or e.path[0].startswith("new"): continue
        n = S.C.name(pstr(e.path))
        if not re.search(r"[iI]mpulse", n.split(".")[-1] if not re.search(r"\.[xyz]$", n) else n.split(".")[-2]): continue
        if any(x in n for x in VEL + POS): continue
        if isinstance(e.new, Sc): out.append((n, e.old, e.new, e))
        else:
            for c in XYZ:
                nw = it.select(e.new, c, "float"); od = it.select(e.old, c, "float")
                if isinstance(nw, Sc): out.append((n + "." + c, od, nw, e))
    return out

def rows(S, ph="solve"):
    r = {}
    for n, od, nw, e in scalar_writes(S, ph):
        k = (n,) + gkey(e)
        if k in r: r[k].new = nw; r[k].ev = e; continue
        x = Row(); x.name = n; x.old = od; x.new = nw; x.ev = e; x.guards, x.loops = gkey(e); r[k] = x
    return list(r.values())

def components(G):
    """the impulse and torque given to each body: {(body, 'P'/'T', k): polynomial}"""
    out = {}
    for b in ("B1", "B2"):
        for nm, d in (("P", G.P), ("T", G.tau)):
            v = d.get(b)
            if v is None: continue
            for k in range(3):
                if v[k]: out[(b, nm, k)] = v[k]
    return out

def total(S, ph):
    tot = {}
    for g, l, G, ev, _ in S.G[ph]:
        if G.err: continue
        split = any("Split" in c for c in getattr(G, "cols", ()))
        for k, p in components(G).items(): tot[k] = padd(tot.get(k, {}), p)
    return tot

def warm_map(S):
    """impulse atom -> {(body, kind, k): coefficient polynomial}"""
    out = {}
    for k, p in total(S, "warm").items():
        for m, c in p.items():
            a = [x for x in m if IMP.search(x)]
            if len(a) != 1: return None, "term %s is not linear in one accumulated impulse" % "*".join(m)
            d = out.setdefault(a[0], {}).setdefault(k, {}); mm = mono_without(m, a[0]); d[mm] = d.get(mm, 0) + c
    return out, ""

def solve_row_guards(R): 
    out = {}
    for r in R: out.setdefault(r.name, []).append(set(r.guards))
    return out

def group_rows(R, g, l): return [r for r in R if r.guards == g and r.loops == l]

def short(n): return re.sub(r"\[\w+\]", "", n).split(".", 1)[-1]

def textset(S, it, v): return {S.C.name(t) for t in closure_text(it.I, v.key())}

# ------------------------------------------------------------------ P03
def check_P03(P, rep):
    nrow = 0
    for n in NAMES:
        S = prepare(P, n); L = label(n)
        if n == "contact": S.stored = stored_fields(P, S)
        wfn = S.fn["warm"]; rep.analysed(wfn); rep.analysed(S.fn["solve"]); rep.analysed(S.fn["init"])
        W, err = warm_map(S)
        if not rep.check(W is not None, "warm starting of %s is linear in the accumulated impulses" % L, wfn.where(), err): continue
        R = rows(S); RG = solve_row_guards(R)
        # 1. the velocity solver accumulates what it applies, along the directions of warm starting
        for g, l, G, ev, _ in S.G["solve"]:
            mine = group_rows(R, g, l); have = components(G); tot = {}
            for r in mine:
                nrow += 1
                base = W.get(r.name)
                if base is None and "Split" in r.name: base = W.get(r.name.replace("Split", ""))
                for k, c in (base or {}).items(): tot[k] = padd(tot.get(k, {}), pmul(c, S.expand(psub(r.new.p, r.old.p))))
            bad = [(k, psub(tot.get(k, {}), have.get(k, {}))) for k in sorted(set(tot) | set(have))]
            bad = [(k, x) for k, x in bad if x]
            rep.check(not bad, "%s of %s%s: the impulse applied is the impulse accumulated, along the directions of warm starting" % (PHN["solve"], L, guardtext(g)), where(S, "solve", ev),
                      "impulses %s; differs for %s" % ([short(r.name) for r in mine], ["%s %s: %s" % (k[0], k[1], pkey(x)[:160]) for k, x in bad[:2]]))
        # 2. each accumulated impulse is replayed, each replayed impulse is accumulated
        for name in sorted({r.name for r in R}):
            if "Split" in name: continue
            rep.check(name in W, "%s of %s is replayed by warm starting" % (short(name), L), wfn.where())
        for name in sorted(W): rep.check(name in RG, "%s of %s replayed by warm starting is accumulated by the velocity solver" % (short(name), L), S.fn["solve"].where())
        # 3. warm starting is skipped only where the impulse is also reset or never accumulated
        resets = [(nm, set(gkey(e)[0])) for nm, od, nw, e in scalar_writes(S, "warm") if isinstance(nw, Sc) and not nw.p]
        for g, l, G, ev, _ in S.G["warm"]:
            names = {a for p in components(G).values() for m in p for a in m if IMP.search(a)}
            for name in sorted(names):
                extra = [x for x in g if not any(x in sg for sg in RG.get(name, []))]
                ok_ = True
                for i, x in enumerate(extra):
                    neg = (x[0], not x[1])
                    if not any(nm == name and neg in rg for nm, rg in resets): ok_ = False
                rep.check(ok_, "%s of %s is replayed or reset" % (short(name), L), where(S, "warm", ev), str([S.C.name(x[0])[:100] for x in extra]))
        # 4. impulses are only changed by warm starting to reset them or to project friction on the new directions
        for nm, od, nw, e in scalar_writes(S, "warm"):
            if not nw.p: continue
            rep.check(n == "contact" and projection(S, W, nm, nw), "warm starting of %s leaves %s as accumulated (or projects it on the new direction)" % (L, short(nm)), wfn.where(e.node), S.C.name(nw.key())[:300])
        # 5. origin of the impulse in the initialisation
        origin(P, S, n, L, R, rep)
        stale(S, n, L, rep)
    contact_walk(P, rep)
    rep.count("rows", nrow); rep.need(nrow, 25, "accumulated impulses")

def stored_fields(P, S):
    """storeImpulses: field of the external manifold / point -> value of the solver"""
    f = P.method("ContactSolverSystem", "storeImpulses")
    it = Interp(P, opaque, mapname=entname, maxterms=60); it.run(f); C = S.C; out = {}
    for e in it.events:
        if e.path[0].startswith("%"): continue
        n = C.name(pstr(e.path)); parts = n.split(".")
        c = parts[-1] if parts[-1] in XYZ else ""
        if c: out[parts[-2] + "." + c] = (C.name(e.new.key()).strip("<>"), e, f)
        elif isinstance(e.new, Sc): out[parts[-1]] = (C.name(e.new.key()), e, f)
        else:
            for c in XYZ: out[parts[-1] + "." + c] = (C.name(it.select(e.new, c, "float").key()), e, f)
    return out

def projection(S, W, name, nw):
    """new impulse = (sum_j old impulse_j * stored direction_j) . own direction"""
    st = getattr(S, "stored", None)
    if st is None: return False
    D = [W[name].get(("B2", "P", k), {}) for k in range(3)]
    exp = {}; ext = set(x[:-2] for x in st if x[-2:-1] == ".")
    for other in W:
        if not any(v == other for v, e, f in st.values()): continue
        # the external field that receives the direction of the other impulse
        for x in ext:
            vec = [S.expand(atom(st[x + "." + c][0])) if x + "." + c in st else {} for c in XYZ]
            Dj = [W[other].get(("B2", "P", k), {}) for k in range(3)]
            if vec == Dj and all(vec):
                for k in range(3): exp = padd(exp, pmul(pmul(atom(other), atom("mAllContactManifolds[i].%s.%s" % (x, XYZ[k]))), D[k]))
    got = S.expand(nw.p)
    return bool(exp) and not psub(exp, got)

def origin(P, S, n, L, R, rep):
    names = sorted({r.name for r in R})
    if n == "contact":
        st = S.stored
        for name in names:
            d = S.lookup(S.defs, name)
            ev = S.fn["init"].where()
            if "Split" in name: rep.check(d is not None and not d, "%s of %s starts from zero" % (short(name), L), ev, str(d)[:100]); continue
            a = next(iter(next(iter(d)))) if d and len(d) == 1 and len(next(iter(d))) == 1 else "?"
            field = S.C.name(a).split(".")[-1]
            src = [k for k, (v, e, f) in st.items() if v == name]
            alt = {field, "m" + field[:1].upper() + field[1:]}
            rep.check(any(k in alt for k in src), "%s of %s is initialised from the impulse stored in the previous step" % (short(name), L), ev, "initialised from %s, stored to %s" % (field, src))
    else:
        for name in names:
            z = []
            for nm, od, nw, e in scalar_writes(S, "init"):
                if nm != name: continue
                gs = gkey(e)[0]
                if not nw.p: z.append((gs, e))
                else: rep.bad("initialisation of %s leaves %s as accumulated or resets it" % (L, short(name)), S.fn["init"].where(e.node), S.C.name(nw.key())[:200])
            rep.check(any(len(g) == 1 and "mIsWarmStartingActive" in g[0][0] and (g[0][0].startswith("!") == g[0][1]) for g, e in z), "%s of %s starts from zero without warm starting" % (short(name), L), S.fn["init"].where())
            # a reset may only depend on the warm starting flag or on a limit that is (newly) not violated
            for g, e in z:
                rep.check(all("mIsWarmStartingActive" in x[0] or limit_guard(S, x, name) for x in g) and bool(g), "%s of %s is reset only without warm starting or when its limit is inactive" % (short(name), L), S.fn["init"].where(e.node), str([S.C.name(x[0])[:120] for x in g]))

def limit_guard(S, x, name):
    return "Limit" in name and any("Limit" in t for t in closure_text(S.it["init"].I, x[0]))

def stale(S, n, L, rep):
    """per-step constraint data that initialisation recomputes is not read before it is recomputed"""
    it = S.it["init"]
    if n == "contact": return
    table = "m%sComponents" % n
    first = {}
    for e in it.events:
        m = re.match(re.escape(table) + r"\.(\w+)\[", S.C.name(pstr(e.path)))
        if m: first.setdefault(m.group(1), e)
    seen = set()
    for path, seq, loops, guards, fn, at in it.reads:
        m = re.match(re.escape(table) + r"\.(\w+)\[", S.C.name(pstr(path)))
        if not m or m.group(1) not in first or IMPC.search(m.group(1)) or first[m.group(1)].seq < seq: continue
        c = m.group(1)
        a = pstr(path); used = set()
        for nm, v in S.defs.items():
            k = re.match(re.escape(table) + r"\.(\w+)\[", nm)
            if k and k.group(1) != c and not IMPC.search(k.group(1)) and k.group(1) not in used and any(a in t for t in closure_text(it.I, v.key())): used.add(k.group(1))
        # a value kept where it is not recomputed stands for itself
        if (c, tuple(sorted(used))) in seen: continue
        seen.add((c, tuple(sorted(used))))
        rep.check(not used, "%s of %s is not read before it is recomputed" % (c, L), (fn or S.fn["init"]).where(at), "its previous value is used by %s" % sorted(used))

def contact_walk(P, rep):
    """every phase walks the contact points in the order in which they were created: one step of the running index per point"""
    from ..cfg import cfg
    from ..model import walk
    for name in ("warmStart", "solve", "storeImpulses"):
        f = P.method("ContactSolverSystem", name); rep.analysed(f); G = cfg(f)
        idx = {}
        for x in f.nodes():
            if x.get("k") == "idx":
                b, i = x["a"]
                while i.get("k") == "cast": i = i["a"][0]
                if b.get("k") == "mem" and b.get("n", "").endswith("mContactPoints") and i.get("k") == "ref": idx.setdefault(i.get("d"), []).append(x)
        for d, uses in idx.items():
            isinc = lambda nd: sum(1 for y in (walk(nd.x) if isinstance(nd.x, dict) else ()) if y.get("k") == "un" and y["op"][:2] == "++" and y["a"][0].get("d") == d) + \
                               sum(1 for y in (walk(nd.x) if isinstance(nd.x, dict) else ()) if y.get("k") == "asg" and y["a"][0].get("d") == d)
            incs = [nd for nd in G.nodes if isinc(nd)]
            if not incs: continue
            loops = {G.node_of(x).loops for x in uses if G.node_of(x) is not None}
            for lp in loops:
                if not lp: continue
                body = [nd for nd in G.nodes if nd.loops[:len(lp)] == lp]
                bs = {nd.i for nd in body}
                heads = [nd for nd in body if any(p.i not in bs for p, _ in nd.pred)]
                ends = {}
                def cnt(nd, seen=()):
                    """set of numbers of increments from nd to the next iteration"""
                    if nd.i in ends: return ends[nd.i]
                    c = isinc(nd); out = set()
                    for s2, _ in nd.succ:
                        if s2 in heads: out.add(c)
                        elif s2.i in bs: out |= {c + k for k in cnt(s2)}
                    ends[nd.i] = out; return out
                res = set()
                for h in heads: res |= cnt(h)
                rep.check(res == {1}, "%s advances the contact point index once per contact point" % f.short(), f.where(uses[0]), "advances per iteration: %s" % sorted(res))


# ------------------------------------------------------------------ P04
def nonneg(a): return re.search(r"(frictionCoefficient|mMaxMotorTorque\[\w+\]|mMaxMotorForce\[\w+\]|mTimeStep)$", a) is not None

class Bounds:
    """lower and upper bounds of a value, from the clamps it is built of"""
    def __init__(self, S, it, extra=()): self.S = S; self.I = it.I; self.extra = set(extra)
    def info(self, p):
        if isinstance(p, Sc): p = p.p
        if len(p) != 1: return None
        m, c = next(iter(p.items()))
        if c != 1 or len(m) != 1: return None
        return self.I.info.get(m[0])
    def poly(self, v): return v.p if isinstance(v, Sc) else v
    def pos(self, p):
        """p >= 0 because it is a sum of products of quantities that are not negative"""
        return all(c >= 0 and all(nonneg(self.S.C.name(a)) or a in self.extra for a in m) for m, c in p.items())
    def ge(self, v, L, d=8):
        v = self.poly(v); L = self.poly(L)
        if self.pos(psub(v, L)): return True
        i = self.info(v)
        if i is None or d == 0: return False
        if i[0] == "app":
            f, a = i[1].split("::")[-1], i[2]
            if f in ("max", "fmax"): return any(self.ge(x, L, d - 1) for x in a)
            if f in ("min", "fmin"): return all(self.ge(x, L, d - 1) for x in a)
            if f in ("abs", "fabs"): return self.pos(pneg(L))
            if f == "clamp": return self.ge(a[1], L, d - 1)
            return False
        if i[0] in ("phi", "sel"):
            c = i[1]
            return self.under(c, True, i[2], L, d, "ge") and self.under(c, False, i[3], L, d, "ge")
        return False
    def le(self, v, U, d=8):
        v = self.poly(v); U = self.poly(U)
        if self.pos(psub(U, v)): return True
        i = self.info(v)
        if i is None or d == 0: return False
        if i[0] == "app":
            f, a = i[1].split("::")[-1], i[2]
            if f in ("max", "fmax"): return all(self.le(x, U, d - 1) for x in a)
            if f in ("min", "fmin"): return any(self.le(x, U, d - 1) for x in a)
            if f == "clamp": return self.le(a[2], U, d - 1)
            return False
        if i[0] in ("phi", "sel"):
            c = i[1]
            return self.under(c, True, i[2], U, d, "le") and self.under(c, False, i[3], U, d, "le")
        return False
    def under(self, c, pol, x, B, d, how):
        if (self.ge if how == "ge" else self.le)(x, B, d - 1): return True
        f = self.fact(c, pol)          # a polynomial known to be >= 0
        if f is None: return False
        x = self.poly(x); B = self.poly(B)
        diff = psub(psub(x, B) if how == "ge" else psub(B, x), f)
        return self.pos(diff)
    def fact(self, c, pol):
        while True:
            i = self.I.info.get(c if isinstance(c, str) else c.key())
            if i is None: return None
            if i[0] == "not": c = i[1] if isinstance(i[1], str) else i[1].key(); pol = not pol; continue
            break
        if i[0] != "cmp": return None
        op, dd = i[1], self.poly(i[2])      # dd op 0
        neg = {"<": ">=", "<=": ">", ">": "<=", ">=": "<", "==": "!=", "!=": "=="}
        if not pol: op = neg[op]
        if op in (">", ">="): return dd
        if op in ("<", "<="): return pneg(dd)
        return None

def check_P04(P, rep):
    n1 = n2 = 0
    for n in NAMES:
        S = prepare(P, n); L = label(n); it = S.it["solve"]; rep.analysed(S.fn["solve"]); W, err = warm_map(S)
        R = rows(S); B = Bounds(S, it); sums = friction_sums(S, it, R, rep) if n == "contact" else {}
        B.extra |= set(sums)
        for r in R:
            nm = short(r.name); wh = S.fn["solve"].where(r.ev.node)
            if re.search(r"[pP]enetration|Limit", nm):
                n1 += 1
                rep.check(B.ge(r.new, {}), "%s of %s never becomes negative" % (nm, L), wh, S.C.name(r.new.key())[:300])
            elif "riction" in nm:
                n2 += 1; mu = frictioncoef(r, it, S); ok = False
                for s in sums:
                    for m in mu:
                        M = pmul(atom(m), atom(s))
                        if B.le(r.new, M) and B.ge(r.new, pneg(M)): ok = True
                rep.check(ok, "%s of %s stays within the friction coefficient times the accumulated normal impulse" % (nm, L), wh, S.C.name(r.new.key())[:300])
            elif "Motor" in nm:
                n2 += 1; ok = False
                for a in atoms_of(it, r.new):
                    if re.search(r"mMaxMotor(Torque|Force)\[", a):
                        for t in [x for x in atoms_of(it, r.new) if x.endswith("mTimeStep")]:
                            M = pmul(atom(a), atom(t))
                            if B.le(r.new, M) and B.ge(r.new, pneg(M)): ok = True
                rep.check(ok, "%s of %s stays within the maximum of the motor times the time step" % (nm, L), wh, S.C.name(r.new.key())[:300])
        # a vector friction or an unclamped row of the families above would have been reported; now the directions
        if W: directions(S, n, L, W, R, rep)
    rep.count("one_sided", n1); rep.count("two_sided", n2); rep.need(n1, 7, "one-sided impulses"); rep.need(n2, 5, "two-sided impulses")

def atoms_of(it, v, depth=10):
    out = set(); todo = [(v, depth)]
    while todo:
        x, d = todo.pop()
        if not isinstance(x, Sc): continue
        for m in x.p:
            for a in m:
                if a in out: continue
                out.add(a); i = it.I.info.get(a)
                if i and d:
                    if i[0] == "app": todo += [(y, d - 1) for y in i[2]]
                    else: todo += [(y, d - 1) for y in i[1:] if isinstance(y, Sc)]
    return out

def frictioncoef(r, it, S): return [a for a in atoms_of(it, r.new) if a.endswith("frictionCoefficient")]

def friction_sums(S, it, R, rep):
    """locals that hold the sum of the accumulated penetration impulses of the manifold"""
    pen = [r for r in R if short(r.name) == "penetrationImpulse"]
    out = {}
    for path, before, after, t, node, final in it.accumulations:
        if not path[0].startswith("%") or not isinstance(before, Sc) or not isinstance(after, Sc): continue
        start = it.loopstart.get((node, path))
        if start is None: continue
        d = psub(after.p, start.p)
        if before.p: continue              # does not start from zero
        if any(d == r.new.p or pkey(d) == pkey(atom(pstr(r.ev.path))) for r in pen): out[final] = path
    rep.check(bool(out), "the bound of friction is the sum of the normal impulses of the manifold after clamping, from zero", S.fn["solve"].where())
    return out

LIMITDIR = {"HingeJoint": ("T", "mHingeJointComponents.mA1[i]"), "SliderJoint": ("P", "mSliderJointComponents.mSliderAxisWorld[i]")}

def directions(S, n, L, W, R, rep):
    wh = S.fn["warm"].where()
    def expect(name, kind, vec, sgn, what):
        for b, s in (("B1", -sgn), ("B2", sgn)):
            for k in range(3):
                have = S.expand(W.get(name, {}).get((b, kind, k), {})); want = S.expand(vec[k])
                rep.check(have == {m: c * s for m, c in want.items()}, "%s of %s pushes body %s %s" % (short(name), L, b[1], what), wh, pkey(have)[:200])
    for r in R:
        nm = short(r.name)
        if n == "contact" and nm == "penetrationImpulse":
            expect(r.name, "P", [atom("mContactPoints[i].normal." + c) for c in XYZ], 1, "apart along the contact normal")
        elif n in LIMITDIR and "Limit" in nm:
            kind, ax = LIMITDIR[n]
            expect(r.name, kind, [atom("%s.%s" % (ax, c)) for c in XYZ], 1 if "Lower" in nm else -1, "away from the %s limit" % ("lower" if "Lower" in nm else "upper"))
        elif n == "BallAndSocketJoint" and "Limit" in nm:
            # the cone angle is acos(a.b), a fixed to body 1 and b to body 2: it decreases when body 2 turns about b x a
            q = [v[2][0].p for v in S.it["init"].I.info.values() if v[0] == "app" and v[1].split("::")[-1] == "acos" and isinstance(v[2][0], Sc)]
            q = [x for x in q if len(x) == 3 and all(len(m) == 2 for m in x)]
            if not rep.check(len(q) == 1, "the cone angle of %s is the angle between one axis of each body" % L, S.fn["init"].where(), str(len(q))): continue
            a = [None] * 3; b = [None] * 3
            for m, c in q[0].items():
                for x in m:
                    t = " ".join(closure_text(S.it["init"].I, x)); k = XYZ.find(x[-1])
                    if k < 0: continue
                    if "LocalAnchorPointBody1" in t and "LocalAnchorPointBody2" not in t: a[k] = atom(x)
                    if "LocalAnchorPointBody2" in t and "LocalAnchorPointBody1" not in t: b[k] = {(x,): c}
            if not rep.check(all(a) and all(b), "the cone angle of %s is the angle between one axis of each body" % L, S.fn["init"].where()): continue
            a = [S.expand(x) for x in a]; b = [S.expand(x) for x in b]
            cr = [psub(pmul(b[(k + 1) % 3], a[(k + 2) % 3]), pmul(b[(k + 2) % 3], a[(k + 1) % 3])) for k in range(3)]
            expect(r.name, "T", cr, 1, "back into the cone")


# ------------------------------------------------------------------ P27
MASS = re.compile(r"[iI]nverse(?!Masses|Inertia)\w*[mM]ass")
VELA = re.compile(r"m(Constrained|Split)(Linear|Angular)Velocities\[(B[12])\]\.([xyz])$")
def plain(p):
    """velocities that an earlier loop may have changed are still the velocities of that body"""
    out = {}
    for m, c in p.items():
        m = tuple(sorted(re.sub(r"(Velocities\[B[12]\]\.[xyz])\?\d+$", r"\1", a) for a in m)); v = out.get(m, 0) + c
        if v: out[m] = v
        else: out.pop(m, None)
    return out
def isK(a): return MASS.search(a.split(".", 1)[-1].split("[")[0]) is not None and not a.startswith("phi") and "(" not in a

def core(it, p, old):
    """the candidate impulse before clamping: the argument that is the old impulse plus a correction"""
    todo = [p]; seen = set()
    while todo:
        x = todo.pop()
        if pkey(x) in seen: continue
        seen.add(pkey(x))
        d = psub(x, old)
        if any(old == {m: c} for m, c in x.items()) and d and not any(next(iter(old)) == m for m in d): return d
        for m in x:
            for a in m:
                i = it.I.info.get(a)
                if not i: continue
                if i[0] == "app" and i[1].split("::")[-1] in ("max", "min", "clamp", "fmax", "fmin"): todo += [y.p for y in i[2] if isinstance(y, Sc)]
                elif i[0] in ("phi", "sel"): todo += [y.p for y in i[2:] if isinstance(y, Sc)]
    return None

def unphi(it, p, extra=4):
    """alternatives of a polynomial whose atoms are chosen by a test"""
    return it.cases(Sc(p)) if hasattr(it, "cases") else [Sc(p)]

def check_P27(P, rep):
    n1 = n2 = n3 = n4 = 0
    for n in NAMES:
        S = prepare(P, n); L = label(n); it = S.it["solve"]; rep.analysed(S.fn["solve"]); rep.analysed(S.fn["init"]); W, err = warm_map(S)
        if W is None: continue
        R = rows(S); vec = {}
        for r in R:
            m = re.match(r"(.*)\.([xyz])$", r.name)
            vec.setdefault((m.group(1) if m else r.name, r.guards, r.loops), {})[XYZ.index(m.group(2)) if m else 0] = r
        D = {}
        for r in R:
            b = r.name if r.name in W else r.name.replace("Split", "")
            D[r.name] = W.get(b, {})
        def Jv(name, split):
            out = {}
            for (b, kind, k), c in D[name].items():
                col = "m%s%sVelocities" % ("Split" if split else "Constrained", "Linear" if kind == "P" else "Angular")
                out = padd(out, pmul(c, atom("mRigidBodyComponents.%s[%s].%s" % (col, b, XYZ[k]))))
            return out
        for (base, g, l), comps in sorted(vec.items(), key=lambda x: str(x[0])):
            split = "Split" in base
            for ri, r in sorted(comps.items()):
                wh = S.fn["solve"].where(r.ev.node); nm = short(r.name)
                old = r.old.p
                ds = core(it, r.new.p, old)
                if not rep.check(ds is not None, "%s of %s grows by a correction" % (nm, L), wh, S.C.name(r.new.key())[:200]): continue
                n1 += 1
                # a correction chosen by a test (e.g. contact bias with or without split impulses): every alternative
                for alt in cases_of(it, ds):
                    e = plain(S.expand(alt, skip=isK))
                    vp = {}; rest = {}; bad = None
                    for m, c in e.items():
                        va = [a for a in m if VELA.search(a)]; ks = [a for a in m if isK(a)]
                        if len(va) > 1: bad = "quadratic in the velocities"; break
                        if len(ks) != 1: bad = "term %s has %d effective masses" % ("*".join(m)[:80], len(ks)); break
                        mm = mono_without(m, ks[0]); t = vp if va else rest
                        t.setdefault(ks[0], {})[mm] = c
                    if not rep.check(bad is None, "the correction of %s of %s is an effective mass times a velocity error" % (nm, L), wh, bad or ""): continue
                    js = {}
                    for kk, p in vp.items():
                        m = re.search(r"mRows\[(\d)\]\.([xyz])$", kk)
                        j = 0 if not m else (XYZ.index(m.group(2)) if int(m.group(1)) == ri else (int(m.group(1)) if XYZ.index(m.group(2)) == ri else None))
                        if len(comps) == 1 and m: j = None
                        js[j] = p
                    names = {j: comps[j].name for j in comps}
                    ok = set(js) == set(names) and all(not padd(js[j], Jv(names[j], split)) for j in names)
                    det = ""
                    if not ok:
                        for j in names:
                            x = padd(js.get(j, {}), Jv(names[j], split))
                            if x: det += "row %d: %s; " % (j, pkey(x)[:160])
                    rep.check(ok, "%s of %s corrects the velocity along the directions its impulse acts in, against it" % (nm, L), wh, det or str(sorted(map(str, js))))
                    # target speed of a motor
                    if "Motor" in nm:
                        n2 += 1
                        motor(S, it, n, L, nm, D[r.name], rest, rep, wh)
                    elif n == "contact" and "enetration" in nm: n3 += pushout(S, nm, L, plain(S.expand(alt, skip=lambda a: isK(a) or a.endswith("restitutionBias"))), split, rep, wh)
                    elif not split:
                        n3 += bias(S, n, L, nm, names, rest, D, rep, wh, ri)
        if n == "contact": restitution(S, rep, Jv)
        else: n4 += limits(P, n, S, rep) + posdiag(S, n, rep)
    rep.count("rows", n1); rep.count("motor_rows", n2); rep.count("bias_rows", n3); rep.count("limit_and_position_rows", n4); rep.need(n1, 25, "rows"); rep.need(n2, 2 if not rep.viol else 0, "motors")

def cases_of(it, p, depth=3):
    out = [p]
    for _ in range(depth):
        nxt = []
        for q in out:
            a = next((a for m in q for a in m if it.I.info.get(a, ("",))[0] in ("phi", "sel")), None)
            if a is None: nxt.append(q); continue
            i = it.I.info[a]
            for y in i[2:4]: nxt.append(psubst(q, {a: y.p}))
        if len(nxt) == len(out): break
        out = nxt
    return out

def init_cases(S, p, depth=3):
    """alternatives of a value set at initialisation under a test"""
    ci = S.__dict__.get("cinfo")
    if ci is None:
        ci = S.cinfo = {}
        for a, i in S.it["init"].I.info.items():
            if i[0] in ("phi", "sel") and isinstance(i[2], Sc) and isinstance(i[3], Sc): ci[S.C.name(a)] = i
    out = [p]
    for _ in range(depth):
        nxt = []
        for q in out:
            a = next((a for m in q for a in m if a in ci and any("mCentersOfMassWorld" in pkey(S.C.poly(y.p)) or any("mCentersOfMassWorld" in t for t in closure_text(S.it["init"].I, y.key())) for y in ci[a][2:4])), None)
            if a is None: nxt.append(q); continue
            for y in ci[a][2:4]: nxt.append(psubst(q, {a: S.C.poly(y.p)}))
        if len(nxt) == len(out): break
        out = nxt
    # a column that keeps its value where it is not recomputed stands for itself
    return [S.expand(q, skip=lambda a: isK(a) or re.search(r"Components\.mB\w*\[", a) is not None) for q in out]

def motor(S, it, n, L, nm, D, rest, rep, wh):
    """speed term: +K * s * speed where the impulse turns / moves body 2 along s * axis"""
    kind, ax = LIMITDIR[n]
    sg = None
    for s in (1, -1):
        if all(S.expand(D.get(("B2", kind, k), {})) == {m: c * s for m, c in S.expand(atom("%s.%s" % (ax, XYZ[k]))).items()} for k in range(3)): sg = s
    if not rep.check(sg is not None, "%s of %s acts along the joint axis" % (nm, L), wh): return
    t = {}
    for p in rest.values(): t = padd(t, p)
    sp = [m for m in t if any("mMotorSpeed" in a for a in m)]
    rep.check(len(t) == 1 and len(sp) == 1 and len(sp[0]) == 1 and t[sp[0]] == sg, "%s of %s drives body 2 along the joint axis at the motor speed" % (nm, L), wh, pkey(t)[:200])

def bias(S, n, L, nm, names, rest, D, rep, wh, ri):
    """position error term: -K * b, where b grows when body 2 is displaced along the row's direction"""
    done = 0
    for kk, p in [(kk, q) for kk, p0 in rest.items() for q in init_cases(S, p0)]:
        m = re.search(r"mRows\[(\d)\]\.([xyz])$", kk); j = 0 if not m else (XYZ.index(m.group(2)) if int(m.group(1)) == ri else int(m.group(1)))
        if j not in names: continue
        pos = [mm for mm in p if any("mCentersOfMassWorld[B" in a for a in mm)]
        if not pos: continue
        # displacement of the bodies along their own impulse direction: gradient of the error
        fac = None; ok = True
        for b in ("B1", "B2"):
            for k in range(3):
                a = "mRigidBodyComponents.mCentersOfMassWorld[%s].%s" % (b, XYZ[k])
                g = {}
                for mm, c in p.items():
                    if a in mm: g[mono_without(mm, a)] = c
                d = D[names[j]].get((b, "P", k), {})
                # g must be -f * d for one positive factor f common to all components
                if not d:
                    if g: ok = False
                    continue
                f = None
                for mm in g:
                    for dm in d:
                        q = list(mm); good = True
                        for x in dm:
                            if x in q: q.remove(x)
                            else: good = False
                        if good:
                            cand = {tuple(q): -g[mm] / d[dm]}
                            if not padd(g, pmul(cand, d)): f = cand
                if f is None or next(iter(f.values())) <= 0 or (fac is not None and f != fac): ok = False
                else: fac = f
        rep.check(ok, "%s of %s removes its position error: the bias grows with the displacement along the row" % (nm, L), wh, pkey({m: c for m, c in list(p.items())[:3]})[:300])
        done += 1
    return done

def pushout(S, nm, L, e, split, rep, wh):
    """what is left besides the velocity error: the penetration pushes apart, the restitution velocity is the target"""
    rest = {}
    for m, c in e.items():
        if any(VELA.search(a) for a in m): continue
        k = [a for a in m if isK(a)]
        rest[mono_without(m, k[0])] = c
    re_ = [m for m in rest if any(a.endswith("restitutionBias") for a in m)]
    de = [m for m in rest if m not in re_]
    rep.check((len(re_) == 0) if split else (len(re_) == 1 and len(re_[0]) == 1 and rest[re_[0]] == -1), "%s of %s aims at the restitution velocity" % (nm, L), wh, pkey(rest)[:200])
    rep.check(all(rest[m] > 0 and any("enetrationDepth" in a for a in m) for m in de), "%s of %s pushes apart in proportion to the penetration" % (nm, L), wh, pkey(rest)[:200])
    return len(de)

def restitution(S, rep, Jv):
    it = S.it["init"]; wh = S.fn["init"].where()
    v = S.lookup(S.defs, "mContactPoints[i].restitutionBias")
    if not rep.check(v is not None, "the restitution velocity of a contact is set at initialisation", wh): return
    pen = next((k for k in warm_map(S)[0] if k.endswith("penetrationImpulse")), None)
    got = []
    for alt in cases_of(it, v): got.append(S.expand(alt))
    nz = [g for g in got if g]
    ok = len(nz) >= 1
    for g in nz:
        J = {}
        for k in range(3): pass
        # restitution factor times the approach velocity
        fs = {a for m in g for a in m if "estitution" in a or "ounciness" in a}
        if len(fs) != 1 or not all(next(iter(fs)) in m for m in g): ok = False; continue
        f = next(iter(fs)); q = {}
        for m, c in g.items(): q[mono_without(m, f)] = c
        want = Jv(pen, False)
        q = {tuple(sorted(x.replace("mLinearVelocities", "mConstrainedLinearVelocities").replace("mAngularVelocities", "mConstrainedAngularVelocities") for x in m)): c for m, c in q.items()}
        if psub(q, want): ok = False; wh2 = pkey(psub(q, want))[:300]
    rep.check(ok, "the restitution velocity of a contact is the restitution factor times the approach velocity along the normal", wh, str([sorted({a[:90] for m in g for a in m})[:40] for g in nz])+str(sorted({a[:90] for m in Jv(pen,False) for a in m})))

LIMCOL = re.compile(r"^\w+\.m(LowerLimit|UpperLimit|ConeLimitHalfAngle)\[")
def unver(p):
    """versions of columns are not told apart"""
    out = {}
    for m, c in p.items():
        m = tuple(sorted(re.sub(r"@\d+", "", a) for a in m)); out[m] = out.get(m, 0) + c
    return {m: c for m, c in out.items() if c}

def limits(P, n, S, rep):
    """a limit is taken for violated when its error is negative, and its correction is proportional to that error"""
    L = label(n); done = 0; errs = {}
    for ph in ("init", "pos"):
        it = S.it[ph]
        for e in it.events:
            nm = S.C.name(pstr(e.path)); mt = re.search(r"\.mIs(\w+)Violated\[", nm)
            if not mt: continue
            i = it.I.info.get(e.new.key()); c = e.new.key(); pol = True
            while i and i[0] == "not": c = i[1] if isinstance(i[1], str) else i[1].key(); i = it.I.info.get(c); pol = not pol
            wh = e.fn.where(e.node if isinstance(e.node, dict) else None); err = None
            if i and i[0] == "cmp":
                op = i[1] if pol else {"<": ">=", "<=": ">", ">": "<=", ">=": "<"}.get(i[1])
                d = S.C.poly(i[2].p if isinstance(i[2], Sc) else i[2])
                if op in ("<", "<="): err = d
                elif op in (">", ">="): err = pneg(d)
            if not rep.check(err is not None, "%s of %s is a test of the limit error (%s)" % (mt.group(1), L, ph), wh, c[:200]): continue
            lim = [(m, k) for m, k in err.items() if any(LIMCOL.search(a) for a in m)]
            want = -1 if "Lower" in mt.group(1) else 1
            rep.check(len(lim) == 1 and len(lim[0][0]) == 1 and lim[0][1] == want and mt.group(1)[:5] in lim[0][0][0].split(".m")[-1], "%s of %s is violated beyond its bound, not before (%s)" % (mt.group(1), L, ph), wh, pkey(err)[:200])
            done += 1
            if ph == "init": errs[mt.group(1)] = (err, wh)
    for nm, v in S.defs.items():
        mt = re.search(r"\.mB((?:Lower|Upper|Cone)Limit)\[", nm)
        if not mt or not isinstance(v, Sc) or mt.group(1) not in errs: continue
        err, wh = errs[mt.group(1)]; e = S.expand(err); k = 0
        for alt in wholes(S.it["init"], v.p, 4):
            q = S.C.poly(alt)
            if not q or q == atom(nm): continue
            q = S.expand(q, skip=lambda a: a == nm); f = ratio(q, e); k += 1
            rep.check(f is not None and next(iter(f.values())) > 0, "the bias of %s of %s is proportional to its error" % (mt.group(1), L), wh, pkey(q)[:200])
        rep.check(k > 0, "%s of %s has a bias" % (mt.group(1), L), wh)
    # position correction
    it = S.it["pos"]
    for g, l, G, ev, _ in S.G["pos"]:
        C = components(G); kind, ax = LIMITDIR.get(n, ("T", "mBallAndSocketJointComponents.mConeLimitACrossB[i]"))
        cols = {a for p in C.values() for m in p for a in m if LIMCOL.search(a)}
        # the translation of a slider joint may start from a pose already corrected for the limits: only rows under the limit test
        if not any("LimitEnabled" in x[0] or "Violated" in x[0] for x in g): continue
        for a in sorted(cols):
            for k in range(3):
                p = unver(C.get(("B2", kind, k), {})); co = {mono_without(m, a): c for m, c in p.items() if a in m}
                good = len(co) == 1 and sorted(x for x in next(iter(co)) if not isK(x)) == ["%s.%s" % (ax, XYZ[k])] and len(next(iter(co))) == 2 and next(iter(co.values())) == 1
                rep.check(good, "position correction of the limit %s of %s moves body 2 back within it" % (LIMCOL.search(a).group(1), L), where(S, "pos", ev), pkey(co)[:200])
                done += 1
    return done

def wholes(it, p, depth):
    """alternatives of a value that is, as a whole, chosen by tests"""
    if depth and len(p) == 1:
        (m, c), = p.items()
        if c == 1 and len(m) == 1 and it.I.info.get(m[0], ("",))[0] in ("phi", "sel"):
            i = it.I.info[m[0]]; return [x for y in i[2:4] if isinstance(y, Sc) for x in wholes(it, y.p, depth - 1)]
    return [p]

def ratio(q, e):
    """monomial f with q = f * e, or None"""
    for m, c in q.items():
        for em, ec in e.items():
            r = list(m); ok = True
            for x in em:
                if x in r: r.remove(x)
                else: ok = False; break
            if ok:
                f = {tuple(r): c / ec}
                if not psub(q, pmul(f, e)): return f
        break
    return None

def posdiag(S, n, rep):
    """position correction moves the bodies against the displacement between them"""
    done = 0
    for g, l, G, ev, _ in S.G["pos"]:
        C = components(G)
        for k in range(3):
            p = unver(C.get(("B2", "P", k), {}))
            co = {}
            for b in ("B1", "B2"):
                a = "mRigidBodyComponents.mConstrainedPositions[%s].%s" % (b, XYZ[k])
                co[b] = {mono_without(m, a): c for m, c in p.items() if a in m}
            if not co["B1"] and not co["B2"]: continue
            def diag(m):
                kk = [x for x in m if isK(x)]
                if len(kk) != 1: return False
                r = re.search(r"mRows\[(\d)\]\.([xyz])$", kk[0]); return not r or int(r.group(1)) == XYZ.index(r.group(2))
            d = [m for m in co["B2"] if diag(m)]
            ok = bool(d) and all(co["B2"][m] < 0 for m in d) and not padd(co["B1"], co["B2"])
            rep.check(ok, "position correction of %s moves body 2 against its displacement%s" % (label(n), guardtext(g)), where(S, "pos", ev), pkey({m: co["B2"][m] for m in list(co["B2"])[:4]})[:300]); done += 1
    return done

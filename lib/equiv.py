"""Extensional comparison of two normal forms.

Both terms are rewritten under every consistent valuation of the branch
conditions they contain (finite case split over atoms, no search over values);
in each case the branch-free residues must have the same normal form.
Result: list of Mismatch (empty = equal).  Mismatch.sure is False when the
residue contains a construct the abstract domain does not understand.
"""
import term as tm
from term import *
from engine import lt_implies

ATOMS = ("isvar", "lt0", "flt0", "eq", "feq0", "forall", "call", "fld", "sym", "starts_with", "index", "f", "down", "post", "not")
STUCK = ("unkop", "unkrv", "un", "cunk", "scalar", "aggunk", "items", "fold", "scatter", "store", "with", "collect", "bot",
         "flat", "cat", "first", "imul", "fmulx", "fop", "bin", "inot", "trunc?", "strop", "ptrderef", "raw", "cast")

class Mismatch:
    def __init__(s, a, b, asm, sure): s.a, s.b, s.asm, s.sure = a, b, asm, sure
    def __repr__(s):
        w = lambda t: (show(t)[:400])
        return "got %s, expected %s%s" % (w(s.a), w(s.b), (" when " + " and ".join(w(x) for x in s.asm)[:600]) if s.asm else "")

def inhabited(t):
    """inside a loop over w*h positions both factors are at least one"""
    m = {}
    for x in tm.walk(t):
        if x.op not in tm.BINDERS or not isinstance(x.args[2], Term) or not isinstance(x.args[1], Term): continue
        n = x.args[1]
        vs = [n] if n.op in ("fld", "sym") else list(n.args[0][0][0]) if n.op == "poly" and len(n.args[0]) == 1 and n.args[0][0][1] == 1 else []
        sub_ = {imax(ONE, v): v for v in vs if v in tm.BND and tm.BND[v][0] is ZERO}
        if sub_:
            b2 = subst(x.args[2], sub_)
            if b2 is not x.args[2]: m[x] = T(x.op, x.args[0], n, b2, *x.args[3:])
    return subst(t, m) if m else t

class TooBig(Exception): pass

def implied(asm, c):
    """TRUE/FALSE if the literals asm decide atom c, else None"""
    nc = not_(c)
    for p in asm:
        if p is c: return TRUE
        if p is nc: return FALSE
        if tm.exclusive(p, c): return FALSE
        if p.op == "isvar" and c.op == "not" and exclusive(p, c.args[0]): return TRUE
    if c.op in ("lt0",) or c.op == "not" and c.args[0].op == "lt0":
        for p in asm:
            r = lt_implies(p, c)
            if r is not None: return r
    if c.op in ("flt0", "feq0"):
        for p in asm:
            r = flt_implies(p, c)
            if r is not None: return r
    if c.op == "eq" or c.op == "lt0" or c.op == "not" and c.args[0].op in ("eq", "lt0"):
        # integer bounds: x <= a and x >= b
        for p in asm:
            r = eq_lt(p, c)
            if r is not None: return r
        r = lin_implied(asm, c)
        if r is not None: return r
    return None

# ---- linear integer facts (Fourier-Motzkin over the literals of the case) ---------
def lin_of(c):
    """literal -> list of constraints (dict mono->coef, const) meaning sum + const <= 0"""
    ng = False
    if c.op == "not": c, ng = c.args[0], True
    if c.op == "lt0":
        d = to_poly(c.args[0])
        if ng: d = {m: -v for m, v in d.items()}        # e >= 0  ->  -e <= 0
        else: d = dict(d); d[()] = d.get((), 0) + 1     # e < 0   ->  e + 1 <= 0
        return [d]
    if c.op == "eq" and not ng:
        try: d = to_poly(sub(c.args[0], c.args[1]))
        except Exception: return []
        if any(x.op in ("agg", "isvar") for m in d for x in m): return []
        return [d, {m: -v for m, v in d.items()}]
    return []
def infeasible(cs):
    """True when the conjunction of linear constraints has no rational solution"""
    cs = [({m: v for m, v in d.items() if v and m != ()}, d.get((), 0)) for d in cs]
    for _ in range(14):
        live = []
        for d, k in cs:
            if not d:
                if k > 0: return True
                continue
            live.append((d, k))
        if not live: return False
        cnt = {}
        for d, _k in live:
            for m, v in d.items():
                p = cnt.setdefault(m, [0, 0]); p[v > 0] += 1
        m = min(cnt, key=lambda z: (cnt[z][0] * cnt[z][1] - cnt[z][0] - cnt[z][1], [q.id for q in z]))
        pos = [x for x in live if x[0].get(m, 0) > 0]; neg_ = [x for x in live if x[0].get(m, 0) < 0]
        rest = [x for x in live if m not in x[0]]
        if len(pos) * len(neg_) + len(rest) > 160: return False
        for d1, k1 in pos:
            for d2, k2 in neg_:
                a, b = -d2[m], d1[m]
                d = {}
                for q, v in d1.items(): d[q] = d.get(q, 0) + v * a
                for q, v in d2.items(): d[q] = d.get(q, 0) + v * b
                rest.append(({q: v for q, v in d.items() if v}, k1 * a + k2 * b))
        seen, cs = set(), []
        for d, k in rest:
            key = (frozenset(d.items()), k)
            if key not in seen: seen.add(key); cs.append((d, k))
    return False
def uniq(l):
    seen, r = set(), []
    for d in l:
        k = frozenset(d.items())
        if k not in seen: seen.add(k); r.append(d)
    return r
def bounds_of(ms):
    r = []
    for v in set(x for m in ms for x in m if isinstance(x, Term)):
        if v in tm.BND:
            lo, hi = tm.BND[v]
            if lo is not None: r.append(dict(to_poly(sub(lo, v))))
            if hi is not None and hi.op != "inf": r.append(dict(to_poly(sub(add(v, ONE), hi))))
    return r
def near_same(p, q):
    """the same comparison up to rounding of its coefficients"""
    if p is q: return True
    if p.op != q.op or p.op not in ("flt0", "feq0"): return False
    a, b = tm.to_fpoly(p.args[0]), tm.to_fpoly(q.args[0])
    return set(a) == set(b) and all(close(a[m], b[m]) for m in a)
def contradictory(asm, also=()):
    neg_ = [p.args[0] for p in asm if p.op == "not" and p.args[0].op in ("flt0", "feq0")]
    if neg_ and any(near_same(p, q) for p in asm if p.op in ("flt0", "feq0") for q in neg_): return True
    cs = [x for p in asm for x in lin_of(p)]
    if len(cs) > 40: return False
    if infeasible(cs + bounds_of([m for d in cs for m in d])): return True
    # a product whose factor must be zero
    zero = {}
    for p in asm:
        q = p.args[0] if p.op == "not" else p
        if q.op not in ("lt0", "eq"): continue
        d = lin_of(p)
        for m in (d[0] if d else ()):
            if len(m) == 1 and m[0] in tm.BND and m[0] not in zero and lin_implied(asm, tm.eq(m[0], ZERO)) is TRUE: zero[m[0]] = ZERO
    if not zero: return False
    for p in asm:
        if p.op == "not" and p.args[0].op == "forall":
            n = subst(p.args[0].args[1], zero)
            if is_c(n) and cval(n) <= 0: return True
    asm2 = [subst(p, zero) for p in asm]
    # the bounds of loop variables follow the same substitution
    for p in tuple(asm) + tuple(also):
        for v in tm.walk(p):
            if v in tm.BND and tm.BND[v][1] is not None and tm.BND[v][1].op != "inf":
                h2 = subst(tm.BND[v][1], zero)
                if is_c(h2) and cval(h2) <= 0: return True
    if any(p is FALSE for p in asm2): return True
    cs = [x for p in asm2 for x in lin_of(p)]
    return len(cs) <= 40 and infeasible(cs + bounds_of([m for d in cs for m in d]))
def pinned(a, b, asm):
    """values which the assumptions and the bounds of loops leave only one integer to"""
    have = {}
    for p in asm:
        for d in lin_of(p):
            for m in d:
                if len(m) == 1: have[m[0]] = have.get(m[0], 0) + 1
    out = {}
    for v in have:
        if len(out) >= 8 or not isinstance(v, Term) or not any(v is y for t in (a, b) for y in tm.walk(t)): continue
        for k in (0, 1):
            if lin_implied(asm, tm.eq(v, tm.C(k))) is TRUE: out[v] = tm.C(k); break
    return out
def intlike(t): return t.op == "poly" or is_int(t) or t in tm.BND or t.op in ("len", "div", "rem")
NONNEG = ("len",)
def lin_implied(asm, c):
    base = [x for p in asm for x in lin_of(p)]
    goal = lin_of(c)
    if not goal: return None
    ms = set(m for d in goal for m in d if m)
    # keep only constraints connected to the goal
    use, ch = [], True
    pool = list(base)
    while ch:
        ch = False
        for d in list(pool):
            if any(m in ms for m in d if m):
                use.append(d); pool.remove(d); ms |= set(m for m in d if m); ch = True
        for m in list(ms):
            if len(m) == 1 and m[0] in tm.BND and ("b", m) not in ms:
                ms.add(("b", m)); ch = True
                lo, hi = tm.BND[m[0]]
                if lo is not None: d = dict(to_poly(sub(lo, m[0]))); pool.append(d)
                if hi is not None and hi.op != "inf": d = dict(to_poly(sub(add(m[0], ONE), hi))); pool.append(d)
            elif len(m) == 1 and isinstance(m[0], Term) and m[0].op in NONNEG and ("b", m) not in ms:
                ms.add(("b", m)); ch = True; pool.append({m: -1})
    if len(use) > 40: return None
    # degree-2 goals: add products of the linear constraints on the factors
    nl = set(m for d in goal for m in d if len(m) == 2)
    if nl:
        facs = set(x for m in nl for x in m)
        lin = [d for d in base + use if all(len(m) <= 1 for m in d) and any(m and m[0] in facs for m in d)]
        for v in facs:
            if v in tm.BND:
                lo, hi = tm.BND[v]
                if lo is not None: lin.append(dict(to_poly(sub(lo, v))))
                if hi is not None and hi.op != "inf": lin.append(dict(to_poly(sub(add(v, ONE), hi))))
        lin = uniq(lin)
        for i, d1 in enumerate(lin):
            for d2 in lin[i:]:
                pr = {}
                for m1, c1 in d1.items():
                    for m2, c2 in d2.items():
                        k = tuple(sorted(m1 + m2, key=lambda z: z.id))
                        pr[k] = pr.get(k, 0) - c1 * c2
                q = [m for m in pr if len(m) == 2 and pr[m]]
                if q and all(tuple(sorted(m, key=lambda z: z.id)) in nl or tuple(reversed(m)) in nl for m in q):
                    use.append({(m if m in ms or tuple(reversed(m)) not in ms else tuple(reversed(m))): v for m, v in pr.items()})
        use = uniq(use + [d for d in lin])
    # c holds iff not c is infeasible; handle lt0 / not lt0 / eq
    ng = lin_of(not_(c))
    if c.op == "eq":
        d = goal[0]
        lt_ = dict(d); lt_[()] = lt_.get((), 0) + 1
        gt_ = {m: -v for m, v in d.items()}; gt_[()] = gt_.get((), 0) + 1
        if infeasible(use + [lt_]) and infeasible(use + [gt_]): return TRUE
        if infeasible(use + goal): return FALSE
        return None
    if c.op == "not" and c.args[0].op == "eq":
        r = lin_implied(asm, c.args[0])
        return None if r is None else not_(r)
    if infeasible(use + ng): return TRUE
    if infeasible(use + goal): return FALSE
    return None

def fform(x):
    ng = False
    if x.op == "not": x, ng = x.args[0], True
    if x.op not in ("flt0", "feq0"): return None
    d = to_fpoly(x.args[0]); k = d.pop((), 0)
    if not d: return None
    lead = d[min(d, key=lambda m: [a.id for a in m])]
    s = 1
    if lead < 0: s = -1; d = {m: -c for m, c in d.items()}; k = -k
    a = abs(lead)
    key = tuple(sorted(((m, c / a) for m, c in d.items()), key=lambda z: [q.id for q in z[0]]))
    k = k / a
    # s=1:  L + k < 0  -> L < -k ; s=-1: -(L+k) < 0 -> L > -k
    if x.op == "feq0": return key, ("ne" if ng else "eq"), -k
    if s == 1: return key, ("ge" if ng else "lt"), -k
    return key, ("le" if ng else "gt"), -k
def flt_implies(p, c):
    a, b = fform(p), fform(c)
    if not a or not b or a[0] != b[0]: return None
    (pa, va), (pb, vb) = a[1:], b[1:]
    # set of values allowed by p vs c
    def rng(o, v):
        inf = float("inf")
        return {"lt": (-inf, v, True, True), "le": (-inf, v, True, False), "gt": (v, inf, True, True), "ge": (v, inf, False, True),
                "eq": (v, v, False, False)}.get(o)
    if pa == "ne":
        if pb == "eq" and va == vb: return FALSE
        return None
    lo, hi, lx, hx = rng(pa, va)
    if pb == "lt": return TRUE if (hi < vb or hi == vb and hx) else FALSE if lo >= vb else None
    if pb == "gt": return TRUE if (lo > vb or lo == vb and lx) else FALSE if hi <= vb else None
    if pb == "le": return TRUE if hi <= vb else FALSE if (lo > vb or lo == vb and lx) else None
    if pb == "ge": return TRUE if lo >= vb else FALSE if (hi < vb or hi == vb and hx) else None
    if pb == "eq":
        if pa == "eq": return TRUE if va == vb else FALSE
        if vb < lo or vb > hi or vb == lo and lx or vb == hi and hx: return FALSE
    return None
def iform(x):
    ng = False
    if x.op == "not": x, ng = x.args[0], True
    if x.op == "lt0":
        d = to_poly(x.args[0]); k = d.pop((), 0); o = "ge" if ng else "lt"
    elif x.op == "eq":
        try: d = to_poly(sub(x.args[0], x.args[1]))
        except Exception: return None
        k = d.pop((), 0); o = "ne" if ng else "eq"
    else: return None
    if not d: return None
    lead = d[min(d, key=lambda m: [a.id for a in m])]
    if lead < 0:
        d = {m: -c for m, c in d.items()}; k = -k
        o = {"ge": "le", "lt": "gt"}.get(o, o)
    return tuple(sorted(d.items(), key=lambda z: [q.id for q in z[0]])), o, -k
def eq_lt(p, c):
    a, b = iform(p), iform(c)
    if not a or not b or a[0] != b[0]: return None
    def rng(o, v):
        inf = float("inf")
        return {"lt": (-inf, v - 1), "le": (-inf, v), "gt": (v + 1, inf), "ge": (v, inf), "eq": (v, v)}.get(o)
    r = rng(a[1], a[2])
    if r is None:
        return FALSE if b[1] == "eq" and a[2] == b[2] else TRUE if b[1] == "ne" and a[2] == b[2] else None
    q = rng(b[1], b[2])
    if q is None:       # ne
        if b[2] < r[0] or b[2] > r[1]: return TRUE
        return FALSE if r == (b[2], b[2]) else None
    if r[0] >= q[0] and r[1] <= q[1]: return TRUE
    if r[1] < q[0] or r[0] > q[1]: return FALSE
    return None

def lits(c):
    if c.op == "and": return [y for x in c.args for y in lits(x)]
    return [c]

def simp(t, asm):
    """rewrite t under the literals asm"""
    if not asm: return t
    asm = tuple(l for q in asm for l in lits(q))
    m = {}
    for p in asm:
        if p.op == "eq":
            x, y = p.args
            if is_c(x): x, y = y, x
            if is_c(y) and x.op in ("sym", "lower", "fld", "call", "down", "index", "post"): m[x] = y
            if x not in m and all(z.op not in ("fpoly", "agg", "isvar") and not is_f(z) and not is_c(z, "str") for z in (x, y)) and \
               (x.op == "poly" or y.op == "poly" or x.op == "len" or y.op == "len"):
                d = to_poly(sub(x, y))
                for mono, c in d.items():
                    if len(mono) == 1 and c in (1, -1) and mono[0].op in ("len", "sym", "fld"):
                        a_ = mono[0]
                        rest = tm.from_poly({q: -v * c for q, v in d.items() if q != mono})
                        if not any(z is a_ for z in tm.walk(rest)):
                            m[a_] = rest; break
    for x in list(tm.walk(t)):
        if x.op in ("isvar", "lt0", "flt0", "eq", "feq0", "forall", "starts_with") or x.op in ("call", "fld", "sym", "index", "f", "post"):
            r = implied(asm, x)
            if r is not None: m[x] = r
    for p in asm:
        q, v = (p.args[0], FALSE) if p.op == "not" else (p, TRUE)
        if q.op not in ("or", "and"): m.setdefault(q, v)
    for _ in range(3):
        t2 = subst(t, m)
        if t2 is t: break
        t = t2
    return t

def find_atom(t):
    """an atom of some branch condition of t that is not under a binder"""
    seen = set()
    st = [t]
    while st:
        x = st.pop()
        if not isinstance(x, Term):
            if isinstance(x, tuple): st.extend(reversed(x))
            continue
        if x in seen: continue
        seen.add(x)
        if x.op == "ite": return atom_of(x.args[0])
        if x.op in tm.BINDERS:
            st.append(x.args[1]); continue
        if x.op in ("poly", "fpoly"):
            for mono, _ in x.args[0]: st.extend(mono)
            continue
        if x.op in ("and", "or"): return atom_of(x)
        st.extend(reversed([y for y in x.args]))
    return None
def lt_or(op, x, rest):
    """condition under which op(x, rest) is x"""
    if op == "imin": return lt(x, rest)
    if op == "imax": return lt(rest, x)
    if op == "fmin": return tm.flt(x, rest)
    return tm.flt(rest, x)
def find_minmax(t):
    """an innermost imin/imax not under a binder"""
    seen, st, best = set(), [t], None
    while st:
        x = st.pop()
        if not isinstance(x, Term):
            if isinstance(x, tuple): st.extend(x)
            continue
        if x in seen: continue
        seen.add(x)
        if x.op in tm.BINDERS: st.append(x.args[1]); continue
        if (x.op in ("imin", "imax", "iabs", "fmin", "fmax") or x.op == "f" and x.args[0] == "abs") and (best is None or x.id < best.id): best = x
        if x.op in ("poly", "fpoly"):
            for mono, _ in x.args[0]: st.extend(mono)
            continue
        st.extend(y for y in x.args)
    return best
def atom_of(c):
    while c.op in ("and", "or", "not", "ite"): c = c.args[0]
    return c
def top_ite(t):
    return t.op == "ite"

REL = 2e-6
def close(a, b):
    if a == b: return True
    try:
        a, b = float(a), float(b)
    except Exception: return False
    return abs(a - b) <= REL * max(abs(a), abs(b), 1e-3)

def seqlike(t): return t.op in ("gen", "flat", "cat", "scatter", "slice", "store") or t.op == "agg" and t.args[0] == "array"

class Eq:
    def __init__(s, limit=400, opaque_ok=True):
        s.n, s.limit = 0, limit
        s.nosplit = 0
        s.refine = 0
        s.depth = 0
        s.leaves = 0
    def run(s, a, b, asm=()):
        s.out = []
        s.names = {x.args[0] for x in tm.walk(b) if x.op == "call"}
        asm = tuple(inhabited(x) for x in asm)
        try: s.go(simp(inhabited(a), asm), simp(inhabited(b), asm), asm)
        except TooBig:
            # too many cases to enumerate: the forms differ if several assignments separate them
            sure = False
            if not any(m.sure for m in s.out) and determined(a) and determined(b) and all(determined(x) for x in asm) and not s.foreign(a, asm) and WIT[0] < 400:
                import witness
                WIT[0] += 1
                sure = witness.agree(a, b, asm, need=400, votes=6, budget=100000) is False
            s.out.append(Mismatch(a, b, asm, sure))
        except RecursionError: s.out.append(Mismatch(a, b, asm, False))
        return s.out
    def go(s, a, b, asm):
        m = len(s.out)
        s.go1(a, b, asm)
        if len(s.out) == m or s.nosplit > 8: return
        mm = find_minmax(a) or find_minmax(b)
        if mm is None: return
        # the residues differ but contain a minimum/maximum: split on which argument it is
        save = s.out[m:]
        del s.out[m:]
        s.nosplit += 1
        if mm.op == "f":
            x = mm.args[1]; l = tm.flt(x, C(Fraction(0)))
            cases = ((l, tm.fneg(x)), (not_(l), x))
            if implied(asm, tm.flt(C(Fraction(0)), x)) is FALSE: cases = ((TRUE, tm.fneg(x)),)
        elif mm.op == "iabs":
            x = mm.args[0]; l = lt(x, ZERO)
            cases = ((l, neg(x)), (not_(l), x))
        elif mm.op in ("fmin", "fmax"):
            x = mm.args[0]
            rest = mm.args[1] if len(mm.args) == 2 else T(mm.op, *mm.args[1:])
            l = tm.flt(x, rest)
            cases = ((l, x), (not_(l), rest)) if mm.op == "fmin" else ((l, rest), (not_(l), x))
            if implied(asm, tm.flt(rest, x)) is FALSE: cases = ((TRUE, cases[0][1]),)       # x <= rest
        else:
            x = mm.args[0]
            rest = mm.args[1] if len(mm.args) == 2 else T(mm.op, *mm.args[1:])
            cases = ((lt_or(mm.op, x, rest), x), (not_(lt_or(mm.op, x, rest)), rest))
        for lit, v in cases:
            r = implied(asm, lit)
            if lit is FALSE or r is FALSE: continue
            asm2 = asm + tuple(lits(lit)) if lit is not TRUE and r is not TRUE else asm
            s.go(simp(subst(a, {mm: v}), asm2), simp(subst(b, {mm: v}), asm2), asm2)
        s.nosplit -= 1
        if len(s.out) > m and all(x.sure for x in save) and not all(x.sure for x in s.out[m:]): s.out[m:] = save
    def go1(s, a, b, asm):
        if a is b: s.leaves += 1; return
        s.n += 1
        if s.n > s.limit: raise TooBig()
        # aggregates of the same variant
        if a.op == "agg" and b.op == "agg" and a.args[0] == b.args[0] and not a.args[0].startswith("closure"):
            if a.args[1] == b.args[1] and len(a.args) == len(b.args):
                for x, y in zip(a.args[2:], b.args[2:]): s.go(x, y, asm)
                return
            if len(a.args) == len(b.args) or a.args[0] != "array":
                s.fail(a, b, asm); return
        # one branch agrees whatever a composite condition says: only the other one is left
        for u, v, sw in ((a, b, False), (b, a, True)):
            if u.op == "ite" and u.args[0].op in ("and", "or") and len(u.args[0].args) > 2 and not any(x.op == "ite" for x in lits(u.args[0])) and s.depth < 3:
                c = u.args[0]
                free, rest, lit = (u.args[2], u.args[1], c) if c.op == "and" else (u.args[1], u.args[2], not_(c))
                e = Eq(250); e.depth = s.depth + 1; e.names = s.names
                e.out = []
                try: e.go(*((v, free) if sw else (free, v)), asm); good = not e.out
                except (TooBig, RecursionError): good = False
                if good:
                    if any(implied(asm, l) is FALSE for l in lits(lit)): return
                    asm2 = asm + tuple(l for l in lits(lit) if implied(asm, l) is None)
                    x, y = simp(rest, asm2), simp(v, asm2)
                    s.go(*((y, x) if sw else (x, y)), asm2)
                    return
        # branch: split
        at = None
        if a.op == "ite" or a.op in ("and", "or"): at = atom_of(a)
        elif b.op == "ite" or b.op in ("and", "or"): at = atom_of(b)
        if at is None and not (seqlike(a) or seqlike(b)): at = find_atom(a) or find_atom(b)
        if at is not None and at.op != "c" and at is not a and at is not b or at is not None and (a.op in ("and", "or", "ite") or b.op in ("and", "or", "ite")):
            for lit in (at, not_(at)):
                r = implied(asm, lit)
                if r is FALSE: continue
                asm2 = asm + tuple(lits(lit))
                s.go(simp(a, (lit,)) if r is None else simp(a, asm2), simp(b, (lit,)) if r is None else simp(b, asm2), asm2)
                if len(s.out) > 8: return
            return
        if a.op in tm.BINDERS and a.op == b.op and a.op in ("gen", "forall", "first", "flat"):
            m = len(s.out)
            s.go(a.args[1], b.args[1], asm)
            if len(s.out) == m:
                k = bounded("k", a.args[1])
                s.go(subst(a.args[2], {a.args[0]: k}), subst(b.args[2], {b.args[0]: k}), asm)
                if a.op in ("flat", "first"):
                    for x in s.out[m:]: x.sure = x.sure and a.op == "flat"
            return
        if seqlike(a) and seqlike(b) or seqlike(a) and b.op in ("fld", "sym", "call", "down") or seqlike(b) and a.op in ("fld", "sym", "call", "down"):
            m = len(s.out)
            la, lb = seqlen(a), seqlen(b)
            s.go(la, lb, asm)
            if len(s.out) > m: return
            k = bounded("k", la)
            x, y = index(a, k), index(b, k)
            if x.op == "index" and x.args[0] is a and seqlike(a) or y.op == "index" and y.args[0] is b and seqlike(b):
                s.fail(a, b, asm, False); return
            s.go(x, y, asm)
            return
        if a.op == b.op and a.op in ("fpoly", "poly"):
            pa, pb = dict(a.args[0]), dict(b.args[0])
            if set(pa) == set(pb):
                if all(close(pa[m], pb[m]) for m in pa): s.leaves += 1; return
            elif s.mono_match(pa, pb, asm): return
            s.fail(a, b, asm); return
        if is_c(a) and is_c(b):
            if a.args[0] == "float" and b.args[0] == "float" and not isinstance(cval(a), str) and not isinstance(cval(b), str) and close(cval(a), cval(b)):
                s.leaves += 1; return
            s.fail(a, b, asm); return
        # congruence
        if a.op == b.op and len(a.args) == len(b.args) and a.op not in tm.BINDERS and a.op not in ("sym", "c", "poly", "fpoly"):
            if all(isinstance(x, Term) == isinstance(y, Term) and (isinstance(x, Term) or x == y) for x, y in zip(a.args, b.args)):
                if a.op in ("fmin", "fmax", "imin", "imax", "eq"):
                    ra = [x for x in a.args if x not in b.args]; rb = [x for x in b.args if x not in a.args]
                    if len(ra) == len(rb) == 1: s.go(ra[0], rb[0], asm); return
                    s.fail(a, b, asm); return
                for x, y in zip(a.args, b.args):
                    if isinstance(x, Term): s.go(x, y, asm)
                return
        # a value taken apart and put together again
        for u, v, sw in ((a, b, False), (b, a, True)):
            if u.op == "agg" and u.args[0].startswith("adt:") and v.op in ("fld", "call", "sym", "down", "index", "post"):
                if tm.STRUCT_N.get(u.args[0]) == len(u.args) - 2: w = v
                elif implied(asm, tm.isvar(v, u.args[1])) is TRUE: w = tm.down(v, u.args[1])
                else: continue
                for i, x in enumerate(u.args[2:]):
                    y = simp(tm.fld(w, i), asm)
                    s.go(*((y, x) if sw else (x, y)), asm)
                return
        s.fail(a, b, asm)
    def mono_match(s, pa, pb, asm):
        """match monomials that only differ by near-equal inner constants"""
        ra = {m: c for m, c in pa.items() if m not in pb}
        rb = {m: c for m, c in pb.items() if m not in pa}
        if not all(close(pa[m], pb[m]) for m in pa if m in pb): return False
        if len(ra) != len(rb) or len(ra) > 30: return False
        for m, c in ra.items():
            hit = None
            for m2, c2 in sorted(rb.items(), key=lambda kv: -sum(x in kv[0] for x in m)):
                if len(m2) == len(m) and close(c, c2):
                    if len(ra) > 4 and not any(x in m2 for x in m): continue
                    ua = [x for x in m if x not in m2]; ub = [x for x in m2 if x not in m]
                    if len(ua) == len(ub) and all(any(not Eq(60).run(x, y, asm) for y in ub) for x in ua): hit = m2; break
            if hit is None: return False
            del rb[hit]
        s.leaves += 1
        return True
    def foreign(s, a, asm):
        """does the code call a pure library function which has no model and is no part of what is expected?"""
        for x in (a,) + tuple(asm):
            for y in tm.walk(x):
                if y.op == "call" and y.args[0] not in s.names and pure_std(y.args[0]): return True
        return False
    def fail(s, a, b, asm, sure=None):
        if contradictory(asm, (a, b)): s.leaves += 1; return
        for u, v in ((a, b), (b, a)):
            if v in (TRUE, FALSE) and u.op in ("lt0", "eq", "flt0", "feq0", "not") and implied(asm, u) is v: s.leaves += 1; return
        if intlike(a) and intlike(b) and lin_implied(asm, tm.eq(a, b)) is TRUE: s.leaves += 1; return
        pins = pinned(a, b, asm)
        if pins and subst(a, pins) is subst(b, pins): s.leaves += 1; return
        if sure is None and s.refine < 6:
            # conditions that depend on another choice: decide that choice first
            for x in asm:
                if x.op == "and" or not (at := find_atom(x)) or at.op == "c" or at is x: continue
                if at.op not in ("flt0", "feq0", "lt0", "eq"): continue
                s.refine += 1
                m = len(s.out)
                for lit in (at, not_(at)):
                    if not_(lit) in asm: continue
                    asm2 = tuple(y for q in asm if q is not lit for y in lits(simp(q, (lit,))) if y is not TRUE) + (lit,)
                    if FALSE in asm2: continue
                    s.fail(a, b, asm2)
                s.refine -= 1
                return
        if sure is None:
            sure = determined(a) and determined(b) and all(determined(x) for x in asm) and not s.foreign(a, asm)
            if sure and not (threshold(a) and threshold(b) and not (small(a) and small(b))) and WIT[0] < 400:
                WIT[0] += 1
                import witness
                if witness.agree(a, b, asm): sure = False
        s.out.append(Mismatch(a, b, asm, sure))

PURE_STD = tuple("core::%s::" % m for m in ("iter", "slice", "array", "num", "option", "result", "cmp", "str", "char", "mem", "ops", "hash", "ascii", "bool", "f32", "f64", "range", "convert")) + \
    tuple("alloc::%s::" % m for m in ("vec", "slice", "collections", "str", "boxed", "borrow", "rc", "sync")) + ("std::collections::", "[T]::", "[_;_]::", "str::", "char::", "bool::", "hashbrown::") + \
    tuple(w + "::" for w in ("u8", "u16", "u32", "u64", "usize", "i8", "i16", "i32", "i64", "isize", "u128", "i128", "f32", "f64"))
KNOWN_STD = {"str::parse", "core::convert::From::from", "core::convert::AsRef::as_ref", "alloc::vec::Vec::as_ptr", "core::slice::raw::from_raw_parts", "core::slice::raw::from_raw_parts_mut"}
def pure_std(name): return isinstance(name, str) and name.startswith(PURE_STD) and name not in KNOWN_STD
WIT = [0]
def threshold(t):
    """comparisons with zero are canonical, and differ only at a boundary that sampling misses"""
    if t.op == "not": t = t.args[0]
    return t.op in ("flt0", "feq0", "lt0", "eq")
STUCKSET = set(STUCK)
def small(t):
    """integer comparison with small coefficients only: sampling small integers meets its boundary"""
    if t.op == "not": t = t.args[0]
    if t.op == "eq": return all(x.op != "fpoly" and not tm.is_f(x) and all(abs(v) <= 8 for v in to_poly(x).values()) for x in t.args) if all(intlike(x) or x.op in ("sym", "fld") for x in t.args) else False
    return t.op == "lt0" and all(abs(v) <= 8 for v in to_poly(t.args[0]).values())
def determined(t):
    for x in tm.walk(t):
        if x.op in STUCKSET: return False
        if x.op == "index" and x.args[0].op in ("scatter", "store", "cat", "flat"): return False
    return True

def equiv(a, b, asm=(), limit=400):
    return Eq(limit).run(a, b, asm)

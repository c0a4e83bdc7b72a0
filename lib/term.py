"""Hash-consed value terms: the abstract domain of the value-numbering engine.

Every construction goes through a smart constructor that puts the term in a
normal form (integer/real polynomials, boolean NNF, aggregates, sequences).
Numeric caveats, deliberately part of the abstraction: machine integers are
treated as unbounded, float arithmetic as real arithmetic, NaN is ignored.
"""
import sys
from fractions import Fraction
sys.setrecursionlimit(50000)

class Term:
    __slots__ = ("op", "args", "id", "_vars", "_h")
    def __repr__(self): return show(self)
    def __lt__(self, o): return self.id < o.id

_tab = {}
_n = [0]

def T(op, *args):
    k = (op, args)
    t = _tab.get(k)
    if t is None:
        t = Term.__new__(Term)
        t.op, t.args = op, args
        _n[0] += 1
        t.id = _n[0]
        t._vars = None
        t._h = None
        _tab[k] = t
    return t

_uid = [0]
def fresh(prefix):
    _uid[0] += 1
    return T("sym", "%s#%d" % (prefix, _uid[0]))
def sym(name): return T("sym", name)

def C(v, kind=None):
    if kind is None:
        kind = "bool" if isinstance(v, bool) else "int" if isinstance(v, int) else \
               "float" if isinstance(v, (float, Fraction)) else "str" if isinstance(v, str) else "bytes"
    if kind == "float":
        if isinstance(v, float):
            if v != v or v in (float("inf"), float("-inf")):
                return T("c", "float", repr(v))
            v = Fraction(v)
        v = Fraction(v)
    return T("c", kind, v)

UNIT = T("agg", "tuple", "")
EMPTY = T("agg", "array", "")
TRUE, FALSE = C(True), C(False)
BOT = T("bot")
ZERO, ONE = C(0), C(1)

def is_c(t, kind=None): return t.op == "c" and (kind is None or t.args[0] == kind)
def cval(t): return t.args[1]
def is_int(t): return t.op == "c" and t.args[0] == "int"
def is_f(t): return t.op == "c" and t.args[0] == "float" and isinstance(t.args[1], Fraction)

# bounds of index symbols: sym -> (lo term, hi term exclusive); used by div/rem/lt
BND = {}
def bounded(prefix, hi):
    s = fresh(prefix); BND[s] = (ZERO, hi); return s

# ---- polynomials (integers and reals share the code) ------------------------
def _poly(t, op, ck):
    if t.op == "c" and t.args[0] == ck and not isinstance(t.args[1], str):
        return {(): cval(t)} if cval(t) else {}
    if t.op == op: return dict(t.args[0])
    return {(t,): 1}
def to_poly(t): return _poly(t, "poly", "int")
def to_fpoly(t): return _poly(t, "fpoly", "float")
def _mkey(x): return [a.id for a in x[0]]

def _norm_poly(p):
    p = {m: c for m, c in p.items() if c}
    if not any(at.op == "div" for m in p for at in m): return p
    changed = True
    while changed:                       # rem(a,b) + b*div(a,b) -> a
        changed = False
        for m, c in list(p.items()):
            for at in m:
                if at.op == "div":
                    a, b = at.args
                    if b.op == "poly": continue
                    rest = list(m); rest.remove(at)
                    cc = c
                    if is_int(b):
                        if cc % cval(b): continue
                        cc = cc // cval(b)
                    else:
                        if b not in rest: continue
                        rest.remove(b)
                    rm = tuple(sorted(rest + [T("rem", a, b)]))
                    if p.get(rm) == cc:
                        del p[m]; del p[rm]
                        for m2, c2 in to_poly(a).items():
                            k = tuple(sorted(rest + list(m2)))
                            p[k] = p.get(k, 0) + cc * c2
                            if not p[k]: del p[k]
                        changed = True
                        break
            if changed: break
    return p

def from_poly(p):
    p = _norm_poly(p)
    if not p: return ZERO
    if len(p) == 1:
        (m, c), = p.items()
        if m == (): return C(c)
        if c == 1 and len(m) == 1: return m[0]
    return T("poly", tuple(sorted(p.items(), key=_mkey)))
def from_fpoly(p):
    p = {m: c for m, c in p.items() if c}
    if not p: return C(Fraction(0))
    if len(p) == 1:
        (m, c), = p.items()
        if m == (): return C(Fraction(c))
        if c == 1 and len(m) == 1: return m[0]
    return T("fpoly", tuple(sorted(p.items(), key=_mkey)))

def _lift(f, a, b):
    if a.op == "ite" and (b.op == "c"): return ite(a.args[0], f(a.args[1], b), f(a.args[2], b))
    if b.op == "ite" and (a.op == "c"): return ite(b.args[0], f(a, b.args[1]), f(a, b.args[2]))
    return None
def add(a, b):
    p = to_poly(a)
    for m, c in to_poly(b).items(): p[m] = p.get(m, 0) + c
    return from_poly(p)
def sub(a, b):
    p = to_poly(a)
    for m, c in to_poly(b).items(): p[m] = p.get(m, 0) - c
    return from_poly(p)
def neg(a): return sub(ZERO, a)
def mul(a, b):
    p, q = to_poly(a), to_poly(b)
    if len(p) * len(q) > 64: return T("imul", *sorted((a, b)))
    r = {}
    for m, c in p.items():
        for m2, c2 in q.items():
            k = tuple(sorted(m + m2)); r[k] = r.get(k, 0) + c * c2
    return from_poly(r)

def in_range(r, w):
    """provably 0 <= r < w"""
    if is_int(r) and is_int(w): return 0 <= cval(r) < cval(w)
    b = BND.get(r)
    if b and b[0] is ZERO and (b[1] is w): return True
    if b and b[0] is ZERO and is_int(b[1]) and is_int(w) and cval(b[1]) <= cval(w): return True
    if r.op == "rem" and r.args[1] is w: return True
    if r.op == "div" and (b2 := _prod_bound(r.args[0])):
        if b2 is mul(r.args[1], w): return True
    t = sub(sub(w, ONE), r)              # w-1-x form
    if t is not r:
        b = BND.get(t)
        if b and b[0] is ZERO and b[1] is w: return True
        if t.op == "rem" and t.args[1] is w: return True
        if t.op == "div" and (b2 := _prod_bound(t.args[0])) and b2 is mul(t.args[1], w): return True
    # x + W*y < W*H  for bounded x<W, y<H
    if r.op == "poly":
        h = _prod_bound(r)
        if h is not None and h is w: return True
    return False
def _prod_bound(r):
    b = BND.get(r)
    if b: return b[1] if b[0] is ZERO else None
    if r.op != "poly": return None
    for m, c in r.args[0]:
        if len(m) == 1 and c == 1 and m[0] in BND and BND[m[0]][0] is ZERO:
            w = BND[m[0]][1]
            rest = sub(r, m[0])
            q = div(rest, w) if rest is not ZERO else None
            if q is not None and mul(q, w) is rest:
                hq = _prod_bound(q)
                if hq is not None: return mul(hq, w)
    return None

def div(a, b):
    if a is b: return ONE
    if a is ZERO: return ZERO
    if is_int(b):
        v = cval(b)
        if v == 1: return a
        if v == 0: return BOT
        if is_int(a):
            q = abs(cval(a)) // abs(v); return C(q if (cval(a) >= 0) == (v > 0) else -q)
        if a.op == "poly" and all(c % v == 0 for _, c in a.args[0]):
            return from_poly({m: c // v for m, c in a.args[0]})
    if in_range(a, b): return ZERO
    p = to_poly(a)
    if is_int(b):
        Q = {m: c // cval(b) for m, c in p.items() if c % cval(b) == 0}
        R = {m: c for m, c in p.items() if c % cval(b)}
    elif b.op != "poly":
        Q, R = {}, {}
        for m, c in p.items():
            if b in m:
                mm = list(m); mm.remove(b); k = tuple(mm); Q[k] = Q.get(k, 0) + c
            else: R[m] = c
    else:
        return T("div", a, b)
    if Q:
        if not R: return from_poly(Q)
        r = from_poly(R)
        if in_range(r, b): return from_poly(Q)
        r2 = add(r, b)                    # W*(..) - 1 - x  ->  W*(..-1) + (W-1-x)
        if in_range(r2, b): return sub(from_poly(Q), ONE)
    if not is_int(b) and not Q:
        pass
    return T("div", a, b)
def rem(a, b):
    if a is b: return ZERO
    if is_int(b):
        v = cval(b)
        if abs(v) == 1: return ZERO
        if v == 0: return BOT
        if is_int(a):
            x = abs(cval(a)) % abs(v); return C(x if cval(a) >= 0 else -x)
    q = div(a, b)
    if q is ZERO and in_range(a, b): return a
    if not (q.op == "div" and q.args[0] is a and q.args[1] is b) and q is not BOT:
        if q is not ZERO or a is ZERO:
            return sub(a, mul(q, b))
    return T("rem", a, b)

# ---- booleans (NNF, flattened, sorted) ---------------------------------------
def not_(a):
    o = a.op
    if o == "c": return C(not cval(a))
    if o == "not": return a.args[0]
    if o == "and": return or_(*[not_(x) for x in a.args])
    if o == "or": return and_(*[not_(x) for x in a.args])
    if o == "ite": return ite(a.args[0], not_(a.args[1]), not_(a.args[2]))
    return T("not", a)
def _andor(op, dual, unit, zero, xs):
    s = []
    seen = set()
    def put(y):
        if y.op == op:
            for z in y.args: put(z)
        elif y is not unit and y not in seen:
            seen.add(y); s.append(y)
    for x in xs: put(x)
    if zero in seen: return zero
    for y in s:
        if not_(y) in seen: return zero
    # absorption:  x | (!x & y) -> x | y ;  x | (x & y) -> x
    ch = False
    out = []
    for y in s:
        if y.op == dual:
            if any(z in seen for z in y.args): ch = True; continue
            ks = [z for z in y.args if not_(z) not in seen]
            if len(ks) < len(y.args):
                ch = True
                y = (and_ if dual == "and" else or_)(*ks)
        out.append(y)
    if ch: return _andor(op, dual, unit, zero, out)
    # (x & y) | (x & !y) -> x
    duals = [y for y in s if y.op == dual]
    if len(duals) >= 2 and len(duals) <= 12:
        for i, y in enumerate(duals):
            for z in duals[i + 1:]:
                if len(y.args) != len(z.args): continue
                dy = [v for v in y.args if v not in z.args]; dz = [v for v in z.args if v not in y.args]
                if len(dy) == 1 and len(dz) == 1 and not_(dy[0]) is dz[0]:
                    com = [v for v in y.args if v in z.args]
                    rest = [v for v in s if v is not y and v is not z]
                    f = and_ if dual == "and" else or_
                    return _andor(op, dual, unit, zero, rest + [f(*com)])
    if not s: return unit
    if len(s) == 1: return s[0]
    return T(op, *sorted(s))
def and_(*xs): return _andor("and", "or", TRUE, FALSE, xs)
def or_(*xs): return _andor("or", "and", FALSE, TRUE, xs)

def _assume(t, c, val, d=6):
    """simplify t knowing atom c == val (shallow, through ite/agg)"""
    if d == 0 or t.op not in ("ite", "agg", "and", "or", "not"): return t if t is not c else C(val)
    if t is c: return C(val)
    if t.op == "ite":
        cc = _assume(t.args[0], c, val, d - 1)
        return ite(cc, _assume(t.args[1], c, val, d - 1), _assume(t.args[2], c, val, d - 1)) if cc is not t.args[0] or True and (t.args[1].op in ("ite","agg") or t.args[2].op in ("ite","agg")) else t
    if t.op == "agg":
        return mkagg(t.args[0], t.args[1], *[_assume(x, c, val, d - 1) for x in t.args[2:]])
    if t.op == "not": return not_(_assume(t.args[0], c, val, d - 1))
    f = and_ if t.op == "and" else or_
    return f(*[_assume(x, c, val, d - 1) for x in t.args])

def _facts(c):
    """atoms known when c is true: list of (atom, bool)"""
    if c.op == "and": return [f for x in c.args for f in _facts(x)]
    if c.op == "not": return [(c.args[0], False)]
    return [(c, True)]
def exclusive(a, b):
    """conditions that cannot both hold (distinct constants / variants)"""
    for x, vx in _facts(a):
        for y, vy in _facts(b):
            if x is y and vx != vy: return True
            if vx and vy and x.op == y.op == "isvar" and x.args[0] is y.args[0] and x.args[1] != y.args[1]: return True
            if vx and vy and x.op == y.op == "eq":
                cx = [z for z in x.args if is_c(z)]; cy = [z for z in y.args if is_c(z)]
                if cx and cy and cx[0] is not cy[0]:
                    ox = [z for z in x.args if z is not cx[0]]; oy = [z for z in y.args if z is not cy[0]]
                    if ox and ox == oy: return True
    return False

def ite(c, a, b):
    if c is TRUE: return a
    if c is FALSE: return b
    if a is b: return a
    if a is BOT: return b
    if b is BOT: return a
    if c.op == "not" or c.op == "or": return ite(not_(c), b, a)
    for at, v in _facts(c): a = _assume(a, at, v)
    if c.op == "and":
        pass
    else:
        b = _assume(b, c, False)
    if a is b: return a
    if is_c(a, "bool") or is_c(b, "bool"):
        if a is TRUE and b is FALSE: return c
        if a is FALSE and b is TRUE: return not_(c)
        if a is TRUE: return or_(c, b)
        if a is FALSE: return and_(not_(c), b)
        if b is FALSE: return and_(c, a)
        if b is TRUE: return or_(not_(c), a)
    if a.op == "agg" and b.op == "agg" and a.args[:2] == b.args[:2] and len(a.args) == len(b.args) and \
       not a.args[0].startswith("closure"):
        return mkagg(a.args[0], a.args[1], *[ite(c, x, y) for x, y in zip(a.args[2:], b.args[2:])])
    if a.op == "iter" and b.op == "iter" and a.args[0] is b.args[0]: return T("iter", a.args[0], ite(c, a.args[1], b.args[1]))
    if a.op == "ite" and a.args[2] is b: return ite(and_(c, a.args[0]), a.args[1], b)
    if a.op == "ite" and a.args[1] is b: return ite(and_(c, not_(a.args[0])), a.args[2], b)
    if b.op == "ite" and b.args[1] is a: return ite(or_(c, b.args[0]), a, b.args[2])
    if b.op == "ite" and b.args[2] is a: return ite(or_(c, not_(b.args[0])), a, b.args[1])
    if b.op == "ite" and b.args[0].id < c.id and exclusive(c, b.args[0]):
        return T("ite", b.args[0], b.args[1], ite(c, a, b.args[2]))
    if c.op == "flt0":
        p = c.args[0]
        if not(is_c(a,"bool") or a.op in ("agg","ref")):
            d = fsub(a, b)
            if _fscale(d) is p: return fmin(a, b)
            if _fscale(fneg(d)) is p: return fmax(a, b)
            if is_f(a):             # the outer half of a clamp written with comparisons
                for op, f, sg in (("fmin", fmax, fneg), ("fmax", fmin, lambda z: z)):
                    if b.op == op and len(b.args) == 2:
                        for u, v in (b.args, b.args[::-1]):
                            if is_f(v) and _fscale(sg(fsub(a, u))) is p and (cval(v) >= cval(a) if op == "fmin" else cval(v) <= cval(a)): return f(a, b)
    if c.op == "lt0":
        p = c.args[0]
        if a.op in ("poly","sym","c","fld","len","rem","div","imin","imax","i2f") and b.op in ("poly","sym","c","fld","len","rem","div","imin","imax"):
            if is_int(a) or is_int(b) or not (is_f(a) or is_f(b)):
                d = sub(a, b)
                if d is p or sub(d, ONE) is p: return imin(a, b)
                if neg(d) is p or sub(neg(d), ONE) is p: return imax(a, b)
    return T("ite", c, a, b)

# ---- comparisons -----------------------------------------------------------
def lt(a, b):            # integers: a - b < 0
    l = _lift(lt, a, b)
    if l is not None: return l
    p = sub(a, b)
    if is_int(p): return C(cval(p) < 0)
    # provable by bounds
    if in_range(a, b): return TRUE
    if a.op == "sym" and a in BND and BND[a][1] is b: return TRUE
    if in_range(b, add(a, ONE)) and False: return FALSE
    if is_int(b) and cval(b) <= 0 and _nonneg(a): return FALSE
    t = sub(b, add(a, ONE))               # a < b  <=>  b-1-a >= 0
    if _nonneg(t): return TRUE
    if _nonneg(p): return FALSE
    # canonical orientation
    pp = to_poly(p)
    lead = min((m for m in pp if m != ()), key=lambda m: [x.id for x in m])
    if pp[lead] < 0: return not_(T("lt0", sub(neg(p), ONE)))
    return T("lt0", p)
def lt0_(p): return lt(p, ZERO)
def _nonneg(t):
    if is_int(t): return cval(t) >= 0
    if t in BND: return BND[t][0] is ZERO
    if t.op in ("len",): return True
    if t.op == "div": return is_int(t.args[1]) and cval(t.args[1]) > 0 and _nonneg(t.args[0])
    if t.op == "rem": return _nonneg(t.args[0])
    if t.op == "poly":
        if all(c >= 0 and all(_nonneg(x) for x in m) for m, c in t.args[0]): return True
        # W-1-x
        for m, c in t.args[0]:
            if len(m) == 1 and c == -1 and m[0] in BND and BND[m[0]][0] is ZERO:
                r = add(t, m[0])
                if r is sub(BND[m[0]][1], ONE): return True
        return False
    return False
def le(a, b): return not_(lt(b, a))
BOOLS = ("not", "and", "or", "lt0", "flt0", "feq0", "eq", "isvar", "exists", "forall")
def eq(a, b):
    if a is b: return TRUE
    if is_c(a) and is_c(b): return C(cval(a) == cval(b) and a.args[0] == b.args[0])
    for x, y in ((a, b), (b, a)):
        if x.op in BOOLS and (y.op in BOOLS or is_c(y, "bool") or y.op in ("ite", "call", "index", "sym", "fld")):
            return ite(x, y, not_(y))
    if a.op == "ite" and (is_c(b) or b.op == "agg" and len(b.args) == 2):
        return ite(a.args[0], eq(a.args[1], b), eq(a.args[2], b))
    if b.op == "ite" and (is_c(a) or a.op == "agg" and len(a.args) == 2):
        return ite(b.args[0], eq(a, b.args[1]), eq(a, b.args[2]))
    if a.op == "agg" and b.op == "agg" and a.args[0] == b.args[0] and not a.args[0].startswith("closure"):
        if a.args[1] != b.args[1]: return FALSE
        if len(a.args) == len(b.args):
            return and_(*[eq(x, y) for x, y in zip(a.args[2:], b.args[2:])])
    if a.op == "agg" and a.args[0].startswith("adt:") and len(a.args) == 2: return isvar(b, a.args[1])
    if b.op == "agg" and b.args[0].startswith("adt:") and len(b.args) == 2: return isvar(a, b.args[1])
    if a.op == "poly" or b.op == "poly" or is_int(a) or is_int(b):
        if not (a.op in ("fpoly",) or b.op in ("fpoly",)):
            p = sub(a, b)
            if is_int(p): return C(cval(p) == 0)
            if len(to_poly(p)) > 1:
                pp = to_poly(p)
                lead = min((m for m in pp if m != ()), key=lambda m: [x.id for x in m])
                if pp[lead] < 0: pp = {m: -c for m, c in pp.items()}
                k = pp.pop((), 0)
                # canonical: lhs = -k
                return T("eq", *sorted((from_poly(pp), C(-k))))
    return T("eq", *sorted((a, b)))

# ---- floats (as reals) --------------------------------------------------------
def fadd(a, b):
    if a.op == "c" and not is_f(a) or b.op == "c" and not is_f(b): return T("fop", "add", a, b)
    p = to_fpoly(a)
    for m, c in to_fpoly(b).items(): p[m] = p.get(m, 0) + c
    return from_fpoly(p)
def fsub(a, b): return fadd(a, fneg(b))
def fneg(a):
    if a.op == "c" and not is_f(a): return T("fop", "neg", a)
    return from_fpoly({m: -c for m, c in to_fpoly(a).items()})
def _mono_mul(m, m2):
    r = list(m)
    for x in m2:
        iv = x.args[0] if x.op == "finv" else T("finv", x)
        if iv in r: r.remove(iv)
        else: r.append(x)
    return tuple(sorted(r))
def fmul(a, b):
    l = _lift(fmul, a, b)
    if l is not None: return l
    if a.op == "c" and not is_f(a) or b.op == "c" and not is_f(b): return T("fop", "mul", a, b)
    p, q = to_fpoly(a), to_fpoly(b)
    if len(p) * len(q) > 48: return T("fmulx", *sorted((a, b)))
    r = {}
    for m, c in p.items():
        for m2, c2 in q.items():
            k = _mono_mul(m, m2); r[k] = r.get(k, 0) + c * c2
    return from_fpoly(r)
def fdiv(a, b):
    if b.op == "c":
        if is_f(b) and cval(b): return fmul(a, C(1 / cval(b)))
        return T("fop", "div", a, b)
    if b.op == "ite" and (is_c(b.args[1]) or is_c(b.args[2])):
        return ite(b.args[0], fdiv(a, b.args[1]), fdiv(a, b.args[2]))
    p = to_fpoly(b)
    if len(p) == 1:
        (m, c), = p.items()
        inv = C(Fraction(1) / c)
        for x in m: inv = fmul(inv, x.args[0] if x.op == "finv" else T("finv", x))
        return fmul(a, inv)
    lead = p[min(p, key=lambda m: [x.id for x in m])]
    nb = from_fpoly({m: Fraction(c) / lead for m, c in p.items()})
    if a is b: return C(Fraction(1))
    return fmul(fmul(a, C(Fraction(1) / lead)), T("finv", nb))
def finv(x): return fdiv(C(Fraction(1)), x)
def _fscale(p):
    q = to_fpoly(p)
    if not q: return p
    lead = abs(q[min(q, key=lambda m: [x.id for x in m])])
    return from_fpoly({m: Fraction(c) / lead for m, c in q.items()})
def flt(a, b):
    l = _lift(flt, a, b)
    if l is not None: return l
    if a.op == "c" and b.op == "c":
        x = float(cval(a)) if not isinstance(cval(a), str) else float(cval(a))
        y = float(cval(b)) if not isinstance(cval(b), str) else float(cval(b))
        return C(x < y)
    if a.op == "c" and not is_f(a) or b.op == "c" and not is_f(b): return T("fop", "lt", a, b)
    p = fsub(a, b)
    if is_f(p): return C(cval(p) < 0)
    return T("flt0", _fscale(p))
def flt0_(p): return flt(p, C(Fraction(0)))
def fle(a, b): return not_(flt(b, a))
def feq(a, b):
    if a is b: return TRUE
    if is_f(a) and is_f(b): return C(cval(a) == cval(b))
    l = _lift(feq, a, b)
    if l is not None: return l
    p = _fscale(fsub(a, b)) if not (a.op == "c" and not is_f(a) or b.op == "c" and not is_f(b)) else None
    if p is None: return T("eq", *sorted((a, b)))
    q = to_fpoly(p)
    if is_f(p): return C(cval(p) == 0)
    if q[min(q, key=lambda m: [x.id for x in m])] < 0: p = fneg(p)
    return T("feq0", p)
def feq0_(p): return feq(p, C(Fraction(0)))
def _mm(op, a, b):
    if a is b: return a
    if is_c(a) and is_c(b) and not isinstance(cval(a), str) and not isinstance(cval(b), str):
        return (a if cval(a) <= cval(b) else b) if op.endswith("min") else (a if cval(a) >= cval(b) else b)
    s = []
    for x in (a, b):
        s += list(x.args) if x.op == op else [x]
    cs = [x for x in s if is_c(x) and not isinstance(cval(x), str)]
    o = [x for x in dict.fromkeys(s) if x not in cs]
    if cs:
        v = (min if op.endswith("min") else max)(cs, key=cval)
        if op == "imax" and v is ZERO and any(_nonneg(x) for x in o): v = None
        if v is not None: o.append(v)
    # min(max(x, lo), lo..) left alone except max(min(x,hi),lo) with lo<=hi -> min(max(x,lo),hi)
    if op in ("fmax", "imax") and len(o) == 2 and cs:
        mn = op[0] + "min"
        y = [x for x in o if x.op == mn]
        if y and any(is_c(z) for z in y[0].args):
            hi = [z for z in y[0].args if is_c(z)][0]
            lo = [x for x in o if is_c(x)]
            if lo and cval(lo[0]) <= cval(hi):
                rest = [z for z in y[0].args if z is not hi]
                r = rest[0]
                for z in rest[1:]: r = _mm(mn, r, z)
                return _mm(mn, _mm(op, r, lo[0]), hi)
    if len(o) == 1: return o[0]
    return T(op, *sorted(o))
def fmin(a, b): return _mm("fmin", a, b)
def fmax(a, b): return _mm("fmax", a, b)
def imin(a, b):
    if not is_c(a) and not is_c(b) and len(to_poly(sub(a, b))) <= 1:
        d = sub(a, b)
        if is_int(d): return a if cval(d) <= 0 else b
    if a.op == "imin" or b.op == "imin" or (a.op == "div" and b.op == "div"):      # division by one positive constant is monotone
        xs = list(a.args if a.op == "imin" else (a,)) + list(b.args if b.op == "imin" else (b,))
        out = []
        for x in xs:
            for j, y in enumerate(out):
                if x.op == y.op == "div" and x.args[1] is y.args[1] and is_int(x.args[1]) and cval(x.args[1]) > 0:
                    d = sub(x.args[0], y.args[0])
                    if is_int(d):
                        if cval(d) < 0: out[j] = x
                        break
            else: out.append(x)
        if len(out) < len(xs):
            if len(out) == 1: return out[0]
            r = out[0]
            for x in out[1:]: r = _mm("imin", r, x)
            return r
    return _mm("imin", a, b)
def imax(a, b):
    if not is_c(a) and not is_c(b):
        d = sub(a, b)
        if is_int(d): return b if cval(d) <= 0 else a
    return _mm("imax", a, b)

# ---- aggregates --------------------------------------------------------------
STRUCT_N = {}      # adt tag -> field count, for eta
def mkagg(kind, tag, *f):
    if f and f[0].op == "fld" and f[0].args[1] == 0:
        b = f[0].args[0]
        if all(x.op == "fld" and x.args[0] is b and x.args[1] == i for i, x in enumerate(f)):
            if b.op == "down" and b.args[1] == tag:
                return T("agg", kind, tag, *f)   # x itself only under isvar; keep
            if STRUCT_N.get(kind) == len(f): return b
    if kind == "array" and f and f[0].op == "index" and f[0].args[1] is ZERO:
        b = f[0].args[0]
        if all(x.op == "index" and x.args[0] is b and x.args[1] is C(i) for i, x in enumerate(f)):
            if ARR_N.get(b) == len(f): return b
    return T("agg", kind, tag, *f)
class _ArrN(dict):
    """lengths of array-typed terms; the elements of one sequence share their type, so an entry holds at every index"""
    @staticmethod
    def shape(t):
        if t.op == "index": return ("index", _ArrN.shape(t.args[0]))
        if t.op == "fld": return ("fld", _ArrN.shape(t.args[0]), t.args[1])
        return t
    def __setitem__(s, t, n): dict.__setitem__(s, _ArrN.shape(t), n)
    def __getitem__(s, t): return dict.__getitem__(s, _ArrN.shape(t))
    def __contains__(s, t): return dict.__contains__(s, _ArrN.shape(t))
    def get(s, t, d=None): return dict.get(s, _ArrN.shape(t), d)
    def setdefault(s, t, n): return dict.setdefault(s, _ArrN.shape(t), n)
ARR_N = _ArrN()
ADT_ARGS = {}
def agg(kind, tag, *f): return mkagg(kind, tag, *f)
def tup(*f): return T("agg", "tuple", "", *f)
OPT, RES = "adt:core::option::Option", "adt:core::result::Result"
def some(x): return T("agg", OPT, "Some", x)
NONE = T("agg", OPT, "None")
def ok(x): return T("agg", RES, "Ok", x)
def err(x): return T("agg", RES, "Err", x)

def isvar(t, v):
    if t.op == "agg": return C(t.args[1] == v)
    if t.op == "ite": return ite(t.args[0], isvar(t.args[1], v), isvar(t.args[2], v))
    if t.op == "bot": return FALSE
    if v == "None": return not_(isvar(t, "Some"))
    if v == "Err": return not_(isvar(t, "Ok"))
    if v == "Break": return not_(isvar(t, "Continue"))
    return T("isvar", t, v)
def down(t, v):
    if t.op == "agg":
        return t if t.args[1] == v else BOT
    if t.op == "ite": return ite(t.args[0], down(t.args[1], v), down(t.args[2], v))
    if t.op == "bot": return t
    return T("down", t, v)
FNAME = {}
def fld(t, i, name=""):
    if t.op == "agg":
        a = t.args[2:]
        return a[i] if i < len(a) else BOT
    if t.op == "ite": return ite(t.args[0], fld(t.args[1], i, name), fld(t.args[2], i, name))
    if t.op == "with":
        b, k, v = t.args
        if k == ("f", i): return v
        if k[0] == "f": return fld(b, i, name)
        return T("fld", t, i)
    if t.op == "bot": return t
    r = T("fld", t, i)
    if name: FNAME[r] = name
    return r

# ---- sequences -----------------------------------------------------------------
def height(t):
    """largest canonical binder index bound inside t"""
    if t._h is not None: return t._h
    h = 0
    if t.op in BINDERS:
        h = int(t.args[0][0].args[0][1:].split(".")[0]) if isinstance(t.args[0], tuple) else int(t.args[0].args[0][1:].split(".")[0])
    else:
        for a in _kids(t): h = max(h, height(a))
    t._h = h
    return h
def _kids(t):
    if t.op in ("poly", "fpoly"):
        for m, _ in t.args[0]: yield from m
        return
    st = list(t.args)
    while st:
        a = st.pop()
        if isinstance(a, Term): yield a
        elif isinstance(a, tuple): st.extend(a)
BINDERS = ("gen", "flat", "fold", "scatter", "forall", "first", "ssum", "smax", "smin", "sfirst")

def _close(syms, parts):
    """rename open binder symbols to canonical names; parts are the scoped terms"""
    h = 1 + max([height(p) for p in parts] or [0])
    names = tuple(T("sym", "%%%d" % h if i == 0 else "%%%d.%d" % (h, i)) for i in range(len(syms)))
    m = {s: n for s, n in zip(syms, names) if s is not n}
    if m: parts = [subst(p, m) for p in parts]
    return names, parts

def _kdep(k, n, body): return n
def gen(k, n, body):
    if body.op == "index" and body.args[1] is k and not occurs(k, body.args[0]) and seqlen(body.args[0]) is n:
        return body.args[0]
    if is_int(n) and 0 <= cval(n) <= 16:
        return T("agg", "array", "", *[subst(body, {k: C(i)}) for i in range(cval(n))])
    (kb,), (body,) = _close((k,), [body])
    return T("gen", kb, n, body)
def rep(x, n):
    return gen(fresh("k"), n, x)
def flat(k, n, body):
    """concatenation over k<n of the sequences body(k)"""
    if body.op == "agg" and body.args[0] == "array" and len(body.args) == 3:
        return gen(k, n, body.args[2])
    if body.op == "agg" and body.args[0] == "array" and len(body.args) == 2: return EMPTY
    if is_int(n) and 0 <= cval(n) <= 4:
        return cat(*[subst(body, {k: C(i)}) for i in range(cval(n))])
    if body.op == "slice" or body.op == "index" or body.op not in ("ite",):
        l = seqlen(body)
        if not occurs(k, l) and not (is_int(l)):
            # uniform inner length: element i is body[i/l][i%l]
            if body.op in ("gen", "slice"):
                i = fresh("i")
                return gen(i, mul(n, l), index(subst(body, {k: div(i, l)}), rem(i, l)))
    (kb,), (body,) = _close((k,), [body])
    return T("flat", kb, n, body)
def forall(k, n, body):
    if body is TRUE: return TRUE
    if not occurs(k, body) and body is FALSE: return eq(n, ZERO) if not is_int(n) else C(cval(n) == 0)
    if is_int(n) and 0 <= cval(n) <= 16: return and_(*[subst(body, {k: C(i)}) for i in range(cval(n))])
    (kb,), (body,) = _close((k,), [body])
    return T("forall", kb, n, body)
def exists(k, n, body): return not_(forall(k, n, not_(body)))
def first(k, n, body):
    """least k<n with body (defined when exists)"""
    if body is TRUE: return ZERO
    (kb,), (body,) = _close((k,), [body])
    return T("first", kb, n, body)
def _red2(op, r, x):
    return {"fadd": fadd, "add": add, "imax": imax, "imin": imin, "fmax": fmax, "fmin": fmin}[op](r, x)
BINDERS = BINDERS + ("imaxs",)
def fold(k, phis, n, inits, outs, idx):
    if is_int(n) and 0 <= cval(n) <= 16:
        cur = list(inits)
        for i in range(cval(n)):
            m = {k: C(i)}; m.update(zip(phis, cur))
            cur = [subst(o, m) for o in outs]
        return cur[idx]
    for j, (ph, o) in enumerate(zip(phis, outs)):
        # only one element of state j changes: carry that element alone
        if o.op == "store" and o.args[0] is ph and not occurs(k, o.args[1]) and not any(occurs(q, o.args[1]) for q in phis):
            r, row = o.args[1], fresh("row")
            if ROWLEN.get(ph) is not None: SEQ_LEN[row] = ROWLEN[ph]
            new = [subst(o.args[2] if a == j else x, {T("index", ph, r): row}) for a, x in enumerate(outs)]
            if any(occurs(ph, x) for x in new): continue
            ini = [index(x, r) if a == j else x for a, x in enumerate(inits)]
            f = fold(k, [row if a == j else x for a, x in enumerate(phis)], n, ini, new, idx)
            return store(inits[j], r, f) if idx == j else f
    names, outs = _close((k,) + tuple(phis), list(outs))
    return T("fold", names, n, tuple(inits), tuple(outs), idx)
def scatter(ks, ns, base, writes):
    """base with writes ((cond, idx, val)...) for all ks (ks[i] < ns[i], ns may depend on earlier ks)"""
    if len(ks) == 1 and is_int(ns[0]) and 0 <= cval(ns[0]) <= 4 and not any(occurs(ks[0], x) for x in (base,)):
        for i in range(cval(ns[0])):
            m = {ks[0]: C(i)}
            for c, j, v in writes:
                c, j, v = subst(c, m), subst(j, m), subst(v, m)
                base = store(base, j, v if c is TRUE else ite(c, v, index(base, j)))
        return base
    flatw = [x for w in writes for x in w] + list(ns)
    names, fl = _close(tuple(ks), flatw)
    nw = len(writes)
    w2 = tuple(tuple(fl[3 * i: 3 * i + 3]) for i in range(nw))
    return T("scatter", names, tuple(fl[3 * nw:]), base, w2)

def seqlen(t):
    o = t.op
    if o == "gen": return t.args[1]
    if o == "c" and t.args[0] == "str": return C(len(t.args[1].encode()))
    if o == "agg" and t.args[0] == "array": return C(len(t.args) - 2)
    if o == "store": return seqlen(t.args[0])
    if o == "scatter": return seqlen(t.args[2])
    if o == "with": return seqlen(t.args[0])
    if o == "slice": return t.args[2]
    if o == "cat":
        r = ZERO
        for x in t.args: r = add(r, seqlen(x))
        return r
    if o == "flat":
        k, n, b = t.args
        l = seqlen(b)
        if not occurs(k, l): return mul(n, l)
    if o == "c" and t.args[0] in ("str", "bytes"): return C(len(t.args[1].encode() if isinstance(t.args[1], str) else t.args[1]))
    if o == "ite": return ite(t.args[0], seqlen(t.args[1]), seqlen(t.args[2]))
    if t in ARR_N: return C(ARR_N[t])
    if t in SEQ_LEN: return SEQ_LEN[t]
    if o == "fold":
        names, n, inits, outs, idx = t.args
        l = seqlen(inits[idx])
        if l.op != "len" and _same_len(outs[idx], names[1 + idx], l): return l
    if o == "index" and t.args[0] in ROWLEN: return ROWLEN[t.args[0]]
    if o == "index" and t.args[0].op == "fold":
        names, n, inits, outs, idx = t.args[0].args
        l = seqlen(index(inits[idx], t.args[1]))
        if l.op != "len" and is_int(l) and _same_rows(outs[idx], names[1 + idx], l): return l
    return T("len", t)
SEQ_LEN = {}
ROWLEN = {}
def _same_rows(o, ph, l):
    """o is the sequence ph with elements replaced by sequences of length l"""
    if o is ph: return True
    row = lambda v: _same_len(v, None, l, ph)
    if o.op == "store": return _same_rows(o.args[0], ph, l) and row(o.args[2])
    if o.op == "scatter": return _same_rows(o.args[2], ph, l) and all(row(v) for _, _, v in o.args[3])
    if o.op == "ite": return _same_rows(o.args[1], ph, l) and _same_rows(o.args[2], ph, l)
    return False
def _same_len(o, ph, l, outer=None):
    """o is the sequence ph (of length l) with elements replaced"""
    if o is ph or outer is not None and o.op == "index" and o.args[0] is outer: return True
    if o.op == "store": return _same_len(o.args[0], ph, l, outer)
    if o.op == "scatter": return _same_len(o.args[2], ph, l, outer)
    if o.op == "ite": return _same_len(o.args[1], ph, l, outer) and _same_len(o.args[2], ph, l, outer)
    if o.op == "fold" and outer is not None:
        names, n, inits, outs, idx = o.args
        return _same_len(inits[idx], ph, l, outer) and _same_len(outs[idx], names[1 + idx], l)
    if o.op == "agg" and o.args[0] == "array": return is_int(l) and len(o.args) - 2 == cval(l)
    return False
def index(t, i):
    o = t.op
    if o == "gen": return subst(t.args[2], {t.args[0]: i})
    if o == "agg" and t.args[0] == "array":
        if is_int(i):
            v = cval(i)
            return t.args[2 + v] if 0 <= v < len(t.args) - 2 else BOT
        if len(set(t.args[2:])) == 1: return t.args[2]
    if o == "c" and t.args[0] == "bytes" and is_int(i) and 0 <= cval(i) < len(t.args[1]): return C(t.args[1][cval(i)])
    if o == "slice": return index(t.args[0], add(t.args[1], i))
    if o == "store":
        b, j, v = t.args
        if i is j: return v
        d = sub(i, j)
        if is_int(d): return index(b, i) if cval(d) else v
        if b.op == "ite" or b.op == "scatter": pass
        return ite(eq(i, j), v, index(b, i)) if BND.get(i) else T("index", t, i)
    if o == "flat":
        k, n, b = t.args
        l = seqlen(b)
        if not occurs(k, l):
            return index(subst(b, {k: div(i, l)}), rem(i, l))
    if o == "cat":
        off = ZERO
        for x in t.args:
            l = seqlen(x)
            c = lt(i, add(off, l))
            if c is TRUE: return index(x, sub(i, off))
            if c is not FALSE: break
            off = add(off, l)
    if o == "scatter":
        r = _scatter_at(t, i)
        if r is not None: return r
    if o == "ite": return ite(t.args[0], index(t.args[1], i), index(t.args[2], i))
    if o == "bot": return t
    return T("index", t, i)

def _scatter_at(t, i):
    ks, ns, base, writes = t.args
    if len(writes) != 1:
        # constant-stride groups, e.g. writes at m*k+c for every c
        return _scatter_multi(t, i)
    (c, idx, val), = writes
    L = seqlen(base)
    sol = _invert(ks, ns, idx, i)
    if sol is None: return None
    m, dom = sol
    c2, v2 = subst(c, m), subst(val, m)
    cond = and_(dom, c2)
    return ite(cond, v2, index(base, i)) if cond is not TRUE else v2
def _scatter_multi(t, i):
    ks, ns, base, writes = t.args
    r = index(base, i)
    for c, idx, val in writes:
        sol = _invert(ks, ns, idx, i)
        if sol is None: return None
        m, dom = sol
        r = ite(and_(dom, subst(c, m)), subst(val, m), r)
    return r

def _invert(ks, ns, idx, i):
    """solve idx(ks) = i.  Returns (substitution, domain condition) or None."""
    p = to_poly(idx)
    co = {}
    const = {}
    for m, c in p.items():
        kk = [x for x in m if x in ks]
        other = [x for x in m if x not in ks]
        if not kk:
            if any(occurs(k, x) for k in ks for x in other): return None
            const[m] = c; continue
        if len(kk) != 1 or any(occurs(k, x) for k in ks for x in other): return None
        k = kk[0]
        co[k] = add(co.get(k, ZERO), mul(C(c), from_poly({tuple(sorted(other)): 1})))
    c0 = from_poly(const)
    if set(co) != set(ks): return None
    if any(occurs(k, n) for k in ks for n in ns): return None
    if len(ks) == 1:
        a = co[ks[0]]
        if a is ONE: u = sub(i, c0)
        elif a is C(-1): u = sub(c0, i)
        elif is_int(a) and cval(a) > 0:
            d = sub(i, c0)
            u = div(d, a)
            return {ks[0]: u}, and_(eq(rem(d, a), ZERO), le(ZERO, u), lt(u, ns[0]))
        else: return None
        return {ks[0]: u}, and_(_ge0(u), lt(u, ns[0]))
    if len(ks) == 2:
        for a, b in ((0, 1), (1, 0)):
            u, v, nu, nv = ks[a], ks[b], ns[a], ns[b]
            if co[u] not in (ONE, C(-1)): continue
            if co[v] is nu: rv = 1
            elif co[v] is neg(nu): rv = -1
            else: continue
            W = nu
            s = 1 if co[u] is ONE else -1
            # idx = s*u + rv*W*v + c0 ; t = s*u + cu in [0,W)
            cu = ZERO if s == 1 else sub(W, ONE)
            rest = sub(c0, cu)
            q = div(rest, W) if rest is not ZERO else ZERO
            if mul(q, W) is not rest: continue
            tt = rem(i, W); V = div(i, W)      # V = rv*v + q
            uu = tt if s == 1 else sub(cu, tt)
            vv = sub(V, q) if rv == 1 else sub(q, V)
            return {u: uu, v: vv}, and_(_ge0(vv), lt(vv, nv))
    return None
def _ge0(u): return not_(lt(u, ZERO))

def cat(*xs):
    o = []
    for x in xs:
        if x.op == "cat": o += list(x.args)
        elif x is EMPTY: continue
        elif is_int(l := seqlen(x)) and cval(l) == 0: continue
        elif o and x.op == "agg" and x.args[0] == "array" and o[-1].op == "agg" and o[-1].args[0] == "array":
            o[-1] = mkagg("array", "", *o[-1].args[2:], *x.args[2:])
        else: o.append(x)
    if not o: return EMPTY
    if len(o) == 1: return o[0]
    return T("cat", *o)
def slice_(t, a, n):
    if t.op == "slice": return slice_(t.args[0], add(t.args[1], a), n)
    if a is ZERO and seqlen(t) is n: return t
    if t.op == "c" and t.args[0] == "str" and is_int(a) and is_int(n) and t.args[1].isascii(): return C(t.args[1][cval(a):cval(a) + cval(n)])
    if t.op == "agg" and t.args[0] == "array" and is_int(a) and is_int(n):
        return mkagg("array", "", *t.args[2 + cval(a): 2 + cval(a) + cval(n)])
    if is_int(n) and 0 < cval(n) <= 8:
        return mkagg("array", "", *[index(t, add(a, C(j))) for j in range(cval(n))])
    if t.op == "gen":
        k2 = fresh("k")
        return gen(k2, n, subst(t.args[2], {t.args[0]: add(k2, a)}))
    return T("slice", t, a, n)
def store(t, i, v):
    if t.op == "agg" and t.args[0] == "array" and is_int(i):
        l = list(t.args[2:])
        if 0 <= cval(i) < len(l):
            l[cval(i)] = v
            return mkagg("array", "", *l)
    if t in ARR_N and is_int(i):
        l = [index(t, C(j)) for j in range(ARR_N[t])]
        l[cval(i)] = v
        return mkagg("array", "", *l)
    if t.op == "store" and t.args[1] is i: return T("store", t.args[0], i, v)
    if v.op == "index" and v.args[0] is t and v.args[1] is i: return t
    if t.op == "ite" and False: pass
    if t.op == "gen" and is_int(t.args[1]): pass
    return T("store", t, i, v)

# ---- free symbols, substitution ---------------------------------------------------
def occurs(k, t): return k in varset(t)
def varset(t):
    if t._vars is not None: return t._vars
    if t.op == "sym": s = {t}
    else:
        s = set()
        for a in _kids(t): s |= varset(a)
        if t.op in BINDERS:
            # bound names scope over everything but are canonical; n/base never mention them
            b = t.args[0] if isinstance(t.args[0], tuple) else (t.args[0],)
            inner = set()
            s = set()
            for a in t.args[1:]:
                _vs(a, s)
            s -= set(b)
    t._vars = frozenset(s)
    return t._vars
def _vs(a, s):
    if isinstance(a, Term): s |= varset(a)
    elif isinstance(a, tuple):
        for x in a: _vs(x, s)

def rebuild(op, args):
    f = _REB.get(op)
    if f: return f(*args)
    return T(op, *args)
_REB = {}

def subst(t, m, memo=None):
    """simultaneous substitution of symbols (or, slowly, arbitrary terms), re-simplifying"""
    if not m: return t
    if memo is None:
        memo = {}
        allsym = all(k.op == "sym" for k in m)
        memo["keys"] = set(m) if allsym else None
    return _sub(t, m, memo)
def _sub(t, m, memo):
    if t in m: return m[t]
    ks = memo["keys"]
    if ks is not None and not (varset(t) & ks): return t
    r = memo.get(t)
    if r is not None: return r
    o = t.op
    if o == "poly":
        r = ZERO
        for mono, c in t.args[0]:
            x = C(c)
            for a in mono: x = mul(x, _sub(a, m, memo))
            r = add(r, x)
    elif o == "fpoly":
        r = C(Fraction(0))
        for mono, c in t.args[0]:
            x = C(Fraction(c))
            for a in mono: x = fmul(x, _sub(a, m, memo))
            r = fadd(r, x)
    elif o in ("c", "sym"):
        r = t
    elif o in BINDERS:
        b = t.args[0] if isinstance(t.args[0], tuple) else (t.args[0],)
        op_ = {x: fresh("b") for x in b}
        rest = [_opn(a, op_) for a in t.args[1:]]
        rest = [_suba(a, m, memo) for a in rest]
        r = mkbinder(o, tuple(op_[x] for x in b), rest)
    elif o == "ite":
        c = _sub(t.args[0], m, memo)
        if c is TRUE: r = _sub(t.args[1], m, memo)
        elif c is FALSE: r = _sub(t.args[2], m, memo)
        else: r = ite(c, _sub(t.args[1], m, memo), _sub(t.args[2], m, memo))
    else:
        na = tuple(_suba(a, m, memo) for a in t.args)
        r = rebuild(o, na)
    memo[t] = r
    return r
def _opn(a, m):
    if isinstance(a, Term): return subst(a, m)
    if isinstance(a, tuple): return tuple(_opn(x, m) for x in a)
    return a
def mkbinder(o, b, rest):
    if o == "gen": return gen(b[0], rest[0], rest[1])
    if o == "flat": return flat(b[0], rest[0], rest[1])
    if o == "forall": return forall(b[0], rest[0], rest[1])
    if o == "first": return first(b[0], rest[0], rest[1])
    if o == "fold": return fold(b[0], b[1:], rest[0], rest[1], rest[2], rest[3])
    if o == "scatter": return scatter(b, rest[0], rest[1], rest[2])
    return sred(rest[3], b[0], rest[0], rest[1], rest[2])
BINDERS = ("gen", "flat", "fold", "scatter", "forall", "first", "ssum", "imax_", "imin_", "fmax_", "fmin_")
def sred(op, k, n, body, init):
    if is_int(n) and 0 <= cval(n) <= 16:
        r = init
        for i in range(cval(n)):
            r = _red2(op, r, subst(body, {k: C(i)}))
        return r
    if op == "fadd" and not occurs(k, body):
        import engine
        return fadd(init, fmul(engine.i2f(n), body))
    if op == "add" and not occurs(k, body): return add(init, mul(n, body))
    (kb,), (body,) = _close((k,), [body])
    return T("ssum" if op in ("fadd", "add") else op + "_", kb, n, body, init, op)
def _suba(a, m, memo):
    if isinstance(a, Term): return _sub(a, m, memo)
    if isinstance(a, tuple): return tuple(_suba(x, m, memo) for x in a)
    return a

def _fn(name, f):
    _REB[name] = f
for _n_, _f in (("not", not_), ("and", and_), ("or", or_), ("ite", ite), ("div", div), ("rem", rem),
                ("isvar", isvar), ("down", down), ("fld", fld), ("len", seqlen), ("index", index), ("cat", cat),
                ("slice", slice_), ("imul", mul), ("fmulx", fmul), ("finv", finv), ("eq", eq), ("store", store),
                ("lt0", lt0_), ("flt0", flt0_), ("feq0", feq0_), ("agg", mkagg)):
    _fn(_n_, _f)
for _n_, _f in (("fmin", fmin), ("fmax", fmax), ("imin", imin), ("imax", imax)):
    def _mk(f):
        def g(*a):
            r = a[0]
            for x in a[1:]: r = f(r, x)
            return r
        return g
    _fn(_n_, _mk(_f))

def walk(t, seen=None):
    if seen is None: seen = set()
    st = [t]
    while st:
        x = st.pop()
        if not isinstance(x, Term):
            if isinstance(x, tuple): st.extend(x)
            continue
        if x in seen: continue
        seen.add(x)
        yield x
        st.extend(x.args)

def atoms(t):
    return [x for x in walk(t)]

def show(t, d=0, lim=30):
    if not isinstance(t, Term):
        if isinstance(t, tuple): return "(" + ",".join(show(x, d) for x in t) + ")"
        return str(t)
    if d > lim: return "..."
    o, a = t.op, t.args
    s = lambda x: show(x, d + 1, lim)
    if o == "c": return repr(a[1]) if a[0] != "float" else (a[1] if isinstance(a[1], str) else "%.7gf" % float(a[1]))
    if o == "sym": return a[0]
    if o in ("poly", "fpoly"):
        def co(c, m):
            x = ("%d" % c) if o == "poly" else "%.7g" % float(c)
            return x if m == () else ("" if c == 1 else x + "*") + "*".join(s(x) for x in m)
        return "(" + " + ".join(co(c, m) for m, c in a[0]) + ")"
    if o == "fld": return "%s.%s" % (s(a[0]), FNAME.get(t) or a[1])
    if o == "down": return "(%s as %s)" % (s(a[0]), a[1])
    if o == "index": return "%s[%s]" % (s(a[0]), s(a[1]))
    if o == "len": return "len(%s)" % s(a[0])
    if o == "lt0": return "%s<0" % s(a[0])
    if o == "not": return "!" + s(a[0])
    if o == "agg":
        k = a[0].split("::")[-1] if a[0] not in ("tuple", "array") else ""
        if a[0].startswith("closure"): return "|%s|{%s}" % (k, ",".join(s(x) for x in a[2:]))
        b = ",".join(s(x) for x in a[2:])
        if a[0] == "array": return "[%s]" % b
        if a[0] == "tuple": return "(%s)" % b
        return "%s::%s{%s}" % (k, a[1], b) if k not in ("Option", "Result", "ControlFlow") else "%s(%s)" % (a[1], b)
    if o == "call": return "%s%s(%s)" % (a[0], ("<%s>" % ",".join(map(str, a[1]))) if a[1] else "", ",".join(s(x) for x in a[2:]))
    if o == "ite": return "if %s {%s} else {%s}" % tuple(map(s, a))
    if o == "gen": return "[%s for %s<%s]" % (s(a[2]), s(a[0]), s(a[1]))
    return "%s(%s)" % (o, ",".join(s(x) for x in a))

def canon(t):
    """run-independent string of a term (for keys and evidence)"""
    names = {}
    memo = {}
    def go(x):
        if isinstance(x, tuple): return "(" + ",".join(go(y) for y in x) + ")"
        if not isinstance(x, Term): return str(x)
        r = memo.get(x)
        if r is not None: return r
        if x.op == "sym":
            n = x.args[0]
            if "#" in n:
                if n not in names: names[n] = "%s#%d" % (n.split("#")[0], len(names))
                n = names[n]
            r = n
        elif x.op in ("poly", "fpoly"):
            r = "(" + "+".join(sorted("%s*%s" % (c, "*".join(sorted(go(a) for a in m))) for m, c in x.args[0])) + ")"
        elif x.op in ("and", "or", "eq", "fmin", "fmax", "imin", "imax", "fmulx"):
            r = x.op + "{" + ",".join(sorted(go(a) for a in x.args)) + "}"
        else:
            r = x.op + "(" + ",".join(go(a) for a in x.args) + ")"
        memo[x] = r
        return r
    return go(t)

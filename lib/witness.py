"""Point evaluation of value terms, used only to confirm a difference.

The normal forms of term.py are not complete for division, minima, conditionals and loops, so two different
normal forms may denote the same value.  agree(a, b, asm) evaluates both terms at many assignments of their
free symbols that satisfy asm: True when they never differ (the difference is not confirmed and the obligation
stays undetermined), False when some assignment separates them, None when nothing can be said.
"""
import random, math
from fractions import Fraction
import term as tm

class Cannot(Exception): pass
class Reject(Exception): pass

INTOPS = {"poly", "imin", "imax", "div", "rem", "len", "lower", "f2i", "trunc", "iabs", "ipow", "imul", "first"}
FLOATOPS = {"fpoly", "fmin", "fmax", "f", "i2f", "finv", "frem", "fdiv", "fmulx"}
BOOLOPS = {"not", "and", "or", "lt0", "flt0", "feq0", "eq", "isvar", "forall", "exists"}
LEAF = {"sym", "fld", "index", "down", "call", "post"}
PAIRS = ({"Ok", "Err"}, {"Some", "None"}, {"Continue", "Break"})

def kind(t):
    o = t.op
    if o == "c": return {"int": "i", "float": "f", "bool": "b"}.get(t.args[0], "o")
    if o in INTOPS: return "i"
    if o in FLOATOPS: return "f"
    if o in BOOLOPS: return "b"
    if o == "ite": return kind(t.args[1]) or kind(t.args[2])
    if o == "ssum": return "f" if t.args[4] == "fadd" else "i"
    if t in tm.BND: return "i"
    return None

class World:
    def __init__(s, seed, pool, variants, types):
        s.r = random.Random(seed)
        s.pool, s.variants, s.types = pool, variants, types
        s.val, s.memo, s.env = {}, {}, {}
        s.mode = seed % 4
        s.near = seed % 3 == 0
        s.budget = 20000
    # samples
    def pick(s, key, k):
        kk = (key, k)
        if kk in s.val: return s.val[kk]
        r = s.r
        if k == "i":
            m = r.random()
            if m < .6: v = r.randint(0, 7)
            elif m < .75 and s.pool[0]: v = r.choice(s.pool[0])
            elif m < .9: v = r.randint(0, 40)
            elif m < .97: v = -r.randint(1, 9)
            else: v = r.randint(0, 70000)
        elif k == "f" and s.near and s.val and r.random() < .6:      # worlds in which many values coincide
            fs = [x for kk2, x in s.val.items() if kk2[1] == "f"]
            v = r.choice(fs) if fs else r.random()
        elif k == "f":
            m = r.random()
            if m < .5: v = r.random()
            elif m < .7: v = r.choice((0.0, 1.0, 0.5, 0.25, 2.0, -1.0, 0.75))
            elif m < .8 and s.pool[1]: v = r.choice(s.pool[1])
            else: v = r.uniform(-3, 3)
        elif k == "b": v = r.random() < .5
        else: raise Cannot(k)
        s.val[kk] = v
        return v
    def tick(s):
        s.budget -= 1
        if s.budget < 0: raise Cannot("budget")
    # typed evaluation
    def num(s, t, k):
        s.tick()
        v = s.memo.get((t, k))
        if v is None:
            v = s._num(t, k)
            if not s.env: s.memo[(t, k)] = v
        return v
    def _num(s, t, k):
        o, a = t.op, t.args
        if t in s.env: return s.env[t]
        if o == "c":
            v = a[1]
            if k == "f":
                if isinstance(v, str): return float(v)
                return float(v)
            if k == "i" and isinstance(v, bool): raise Cannot("bool")
            if isinstance(v, (str, bytes)): raise Cannot("text")
            return v
        if o == "ite": return s.num(a[1] if s.num(a[0], "b") else a[2], k)
        if k == "b": return s.boolean(t)
        if k == "i": return s.integer(t)
        return s.real(t)
    def boolean(s, t):
        o, a = t.op, t.args
        if o == "not": return not s.num(a[0], "b")
        if o == "and": return all(s.num(x, "b") for x in a)
        if o == "or": return any(s.num(x, "b") for x in a)
        if o == "lt0": return s.num(a[0], "i") < 0
        if o == "flt0": return s.num(a[0], "f") < 0
        if o == "feq0": return s.num(a[0], "f") == 0
        if o == "eq":
            k = kind(a[0]) or kind(a[1])
            if k in ("i", "f", "b"): return s.num(a[0], k) == s.num(a[1], k)
            return s.obj(a[0]) == s.obj(a[1])
        if o == "isvar": return s.variant(s.obj(a[0])) == a[1]
        if o in ("forall", "exists"):
            n = s.count(a[1])
            return (all if o == "forall" else any)(s.bind(a[0], i, lambda: s.num(a[2], "b")) for i in range(n))
        if o in LEAF: return s.leaf(t, "b")
        raise Cannot(o)
    def variant(s, x):
        if x[0] == "agg": return x[2]
        names = s.variants
        key = ("variant", x)
        if key not in s.val:
            pr = [p for p in PAIRS if p & names.get(s.shape(x), set())]
            l = sorted(pr[0]) if pr else sorted(names.get(s.shape(x), set())) + ["~other"]
            s.val[key] = s.r.choice(l)
        return s.val[key]
    def shape(s, x): return ALL
    def count(s, n):
        n = s.num(n, "i") if not (n.op == "inf") else None
        if n is None or n > 400: raise Cannot("loop")
        return max(n, 0)
    def bind(s, k, v, f):
        old = s.env
        s.env = dict(old); s.env[k] = v
        try: return f()
        finally: s.env = old
    def integer(s, t):
        o, a = t.op, t.args
        if o == "poly":
            r = 0
            for m, c in a[0]:
                p = c
                for x in m: p *= s.num(x, "i")
                r += p
            return r
        if o in ("imin", "imax"): return (min if o == "imin" else max)(s.num(x, "i") for x in a)
        if o in ("div", "rem"):
            x, y = s.num(a[0], "i"), s.num(a[1], "i")
            if y == 0: raise Reject()
            q = abs(x) // abs(y)
            if (x < 0) != (y < 0): q = -q
            return q if o == "div" else x - q * y
        if o == "imul": return s.num(a[0], "i") * s.num(a[1], "i")
        if o == "iabs": return abs(s.num(a[0], "i"))
        if o == "ipow":
            y = s.num(a[1], "i")
            if not 0 <= y < 64: raise Reject()
            return s.num(a[0], "i") ** y
        if o == "f2i":
            v = s.num(a[1], "f")
            if v != v: return 0
            b = int(a[0][1:]) if a[0][1:].isdigit() else 64
            lo, hi = (0, (1 << b) - 1) if a[0][0] == "u" else (-(1 << b - 1), (1 << b - 1) - 1)
            if abs(v) > 1e30: return hi if v > 0 else lo
            if abs(v - round(v)) < 1e-9 and abs(v) > 0: v = round(v)
            return min(max(int(v), lo), hi)
        if o == "trunc":
            b = int(a[0][1:]); v = s.num(a[1], "i") & ((1 << b) - 1)
            if a[0][0] == "i" and v >> (b - 1): v -= 1 << b
            return v
        if o == "len":
            q = tm.seqlen(a[0])
            if q is not t: return s.num(q, "i")
            v = abs(s.pick(("len", s.obj(a[0])), "i"))
            return v
        if o == "ssum" and a[4] == "add":
            return s.num(a[3], "i") + sum(s.bind(a[0], i, lambda: s.num(a[2], "i")) for i in range(s.count(a[1])))
        if o == "first":
            i = 0
            n = None if a[1].op == "inf" else s.count(a[1])
            while n is None or i < n:
                if i > 400: raise Cannot("loop")
                if s.bind(a[0], i, lambda: s.num(a[2], "b")): return i
                i += 1
            raise Reject()
        if t in tm.BND:
            lo, hi = tm.BND[t]
            h = None if hi.op == "inf" else s.num(hi, "i")
            key = (t, "i")
            if key not in s.val:
                if h is None: s.val[key] = abs(s.pick(("raw", t), "i"))
                else:
                    if h <= 0: raise Reject()
                    s.val[key] = s.r.choice((0, h - 1, s.r.randrange(h), s.r.randrange(h)))
            return s.val[key]
        if o in LEAF: return s.leaf(t, "i")
        raise Cannot(o)
    def real(s, t):
        o, a = t.op, t.args
        if o == "fpoly":
            r = 0.0
            for m, c in a[0]:
                p = float(c)
                for x in m: p *= s.num(x, "f")
                r += p
            return r
        if o in ("fmin", "fmax"): return (min if o == "fmin" else max)(s.num(x, "f") for x in a)
        if o == "i2f": return float(s.num(a[0], "i"))
        if o == "fmulx": return s.num(a[0], "f") * s.num(a[1], "f")
        if o == "finv":
            v = s.num(a[0], "f")
            if abs(v) < 1e-12: raise Reject()
            return 1 / v
        if o == "f":
            xs = [s.num(x, "f") if isinstance(x, tm.Term) else x for x in a[1:]]
            n = a[0]
            try:
                if n in ("powf", "powi"): return xs[0] ** xs[1] if not isinstance(xs[0] ** xs[1], complex) else s.reject()
                if n == "abs": return abs(xs[0])
                if n in ("sqrt", "exp", "sin", "cos", "tan", "tanh", "ln", "atan2", "atan", "floor", "ceil", "acos", "asin", "log10", "log2", "cbrt", "hypot"):
                    return float(getattr(math, {"ln": "log"}.get(n, n))(*xs))
                if n == "round": return math.copysign(math.floor(abs(xs[0]) + .5), xs[0])
                if n == "trunc": return float(math.trunc(xs[0]))
                if n == "signum": return math.copysign(1.0, xs[0])
            except (ValueError, ZeroDivisionError, OverflowError): raise Reject()
            raise Cannot("f " + str(n))
        if o == "frem":
            y = s.num(a[1], "f")
            if y == 0: raise Reject()
            return math.fmod(s.num(a[0], "f"), y)
        if o == "ssum":
            return s.num(a[3], "f") + sum(s.bind(a[0], i, lambda: s.num(a[2], "f")) for i in range(s.count(a[1])))
        if o in LEAF: return s.leaf(t, "f")
        raise Cannot(o)
    def reject(s): raise Reject()
    def leaf(s, t, k):
        x = s.obj(t, k)
        if x[0] == "n": return x[1]
        if x[0] in ("agg", "seq"): raise Cannot("aggregate as number")
        return s.pick(x, k)
    # structured values as hashable keys
    def obj(s, t, want=None):
        s.tick()
        if not isinstance(t, tm.Term):
            if isinstance(t, tuple): return tuple(s.obj(x) for x in t)
            return ("k", t)
        if t in s.env:
            v = s.env[t]
            return v if isinstance(v, tuple) else ("n", v)
        o, a = t.op, t.args
        if o == "sym": 
            if t in tm.BND: return ("n", s.num(t, "i"))
            return ("s", a[0])
        if o == "ite": return s.obj(a[1] if s.num(a[0], "b") else a[2], want)
        if o == "c":
            v = a[1]
            if a[0] == "float": v = float(v)
            return ("n", v)
        if o == "agg":
            if a[0] == "array": return ("seq", tuple(s.obj(x) for x in a[2:]))
            return ("agg", a[0], a[1], tuple(s.obj(x) for x in a[2:]))
        k = kind(t)
        if k: 
            v = s.num(t, k)
            return ("n", round(v, 7) if isinstance(v, float) else v)
        if o == "fld":
            b = s.obj(a[0])
            if b[0] == "agg" and a[1] < len(b[3]): return b[3][a[1]]
            return ("fld", b, a[1])
        if o == "down": 
            b = s.obj(a[0])
            if b[0] == "agg": return b
            return ("down", b, a[1])
        if o == "index":
            i = s.num(a[1], "i")
            q = a[0]
            if q.op == "gen":
                if not 0 <= i: raise Reject()
                return s.bind(q.args[0], i, lambda: s.obj(q.args[2], want))
            b = s.obj(q)
            if b[0] == "seq":
                if not 0 <= i < len(b[1]): raise Reject()
                return b[1][i]
            if b[0] == "n" and isinstance(b[1], (bytes, str)):
                if not 0 <= i < len(b[1]): raise Reject()
                return ("n", b[1][i] if isinstance(b[1], bytes) else ord(b[1][i]))
            return ("index", b, i)
        if o == "gen":
            n = s.count(a[1])
            return ("seq", tuple(s.bind(a[0], i, lambda: s.obj(a[2])) for i in range(n)))
        if o == "flat":
            n = s.count(a[1]); out = []
            for i in range(n):
                q = s.bind(a[0], i, lambda: s.obj(a[2]))
                if q[0] != "seq": raise Cannot("flat")
                out += q[1]
            return ("seq", tuple(out))
        if o == "cat":
            out = []
            for x in a:
                q = s.obj(x)
                if q[0] != "seq": raise Cannot("cat")
                out += q[1]
            return ("seq", tuple(out))
        if o == "store":
            b, i = s.obj(a[0]), s.num(a[1], "i")
            if b[0] != "seq": raise Cannot("store")
            if not 0 <= i < len(b[1]): raise Reject()
            return ("seq", b[1][:i] + (s.obj(a[2]),) + b[1][i + 1:])
        if o in ("call", "post", "ref"):
            if o == "ref": raise Cannot("ref")
            return (o,) + tuple(s.obj(x) for x in a)
        raise Cannot(o)

ALL = "all"
def close(x, y):
    if isinstance(x, bool) or isinstance(y, bool): return x == y
    if isinstance(x, float) or isinstance(y, float): return abs(x - y) <= 2e-6 * max(1.0, abs(x), abs(y))
    return x == y
def same(x, y):
    if type(x) is tuple and type(y) is tuple:
        return len(x) == len(y) and all(same(p, q) for p, q in zip(x, y))
    if isinstance(x, (int, float)) and isinstance(y, (int, float)): return close(x, y)
    return x == y

def agree(a, b, asm=(), need=60, tries=3000, budget=20000, votes=1):
    votes_in = votes
    k = kind(a) or kind(b)
    ints, fls, vs = set(), set(), set()
    for t in (a, b) + tuple(asm):
        for x in tm.walk(t):
            if x.op == "c" and x.args[0] == "int": ints |= {x.args[1] - 1, x.args[1], x.args[1] + 1, -x.args[1]}
            elif x.op == "poly":
                c = dict(x.args[0]).get((), 0)
                ints |= {c, -c, -c - 1, -c + 1}
            elif tm.is_f(x): fls.add(float(x.args[1]))
            elif x.op == "fpoly":
                c = dict(x.args[0]).get((), 0)
                fls |= {float(c), -float(c)}
            elif x.op in ("isvar", "down"): vs.add(x.args[1])
    pool = (sorted(i for i in ints if abs(i) < 1 << 40), sorted(fls))
    ok = 0
    for n in range(tries):
        w = World(n * 7919 + 13, pool, {ALL: vs}, None)
        w.budget = budget
        try:
            if not all(w.num(q, "b") for q in asm): continue
            if k: x, y = w.num(a, k), w.num(b, k)
            else: x, y = w.obj(a), w.obj(b)
        except Reject: continue
        except (Cannot, RecursionError, OverflowError, TypeError): return None
        if not same(x, y):
            votes -= 1
            if votes <= 0: return False
            continue
        ok += 1
        if ok >= need: return True if votes_in == votes else None
    return None

if __name__ == "__main__":
    import sys

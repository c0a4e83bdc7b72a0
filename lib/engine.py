"""Value-numbering abstract interpreter over MIR facts.

One abstract pass per function: gated merges at post-dominators, loops reduced
to closed forms (inductions, element-wise sequences, scatters, folds), helpers
and closures inlined, external calls modelled (models.py) or kept opaque.  No
program is executed and no path is enumerated; values are terms (term.py).
"""
import json, glob, os, re, struct, sys, time
from fractions import Fraction
import term as tm
from term import *

def deep(x):
    if isinstance(x, list): return tuple(deep(y) for y in x)
    if isinstance(x, dict): return {k: deep(v) for k, v in x.items()}
    return x

class Facts:
    def __init__(self, d):
        self.bodies, self.adts, self.traits, self.impls = {}, {}, {}, []
        self.foreign, self.unsafe, self.crates, self.statics = {}, [], [], []
        for f in sorted(glob.glob(os.path.join(d, "*.json"))):
            j = json.load(open(f))
            self.crates.append(j["crate"])
            for b in j["bodies"]:
                b = {k: deep(v) for k, v in b.items()}
                b["crate"] = j["crate"]
                self.bodies[b["key"]] = b
            for a in j["adts"]: self.adts[a["path"]] = dict(deep(a), crate=j["crate"])
            for t in j["traits"]: self.traits[t["path"]] = deep(t)
            for i in j["impls"]: self.impls.append(dict(deep(i), crate=j["crate"]))
            for a in j["foreign"]: self.foreign.setdefault(a["path"], deep(a))
            self.statics += [dict(deep(x), crate=j["crate"]) for x in j["statics"]]
            self.unsafe += [tuple(deep(u)) + (j["crate"],) for u in j["unsafe_blocks"]]
        self.by_path = {}
        for b in self.bodies.values(): self.by_path.setdefault(b["path"], []).append(b)
        self.canon, self.layout_known = {}, True
        self.canonical()
        self.impl_by_trait = {}
        for i in self.impls:
            if i["trait"]: self.impl_by_trait.setdefault(i["trait"], []).append(i)
        for p, a in list(self.adts.items()) + list(self.foreign.items()):
            if a["kind"] == "struct" and a["variants"]:
                n = len(a["variants"][0]["fields"])
                if n: tm.STRUCT_N["adt:" + p] = n
    def canonical(self):
        """private fields go by what they hold, not by their names or order: the buffer's sizes are the
        fields its accessors return, its pixels the field that is a sequence"""
        PB, IM = "d10_core::pixelbuffer::PixelBuffer", "d10::image::Image"
        def isadt(t, *n): return isinstance(t, tuple) and t and t[0] == "adt" and t[1] in n
        def getter(path):
            b = self.fn(path)
            idx = set()
            def walk(x):
                if isinstance(x, tuple):
                    if len(x) >= 2 and x[0] == "field" and isinstance(x[1], int): idx.add(x[1])
                    for y in x: walk(y)
                elif isinstance(x, dict):
                    for y in x.values(): walk(y)
            if b: walk(b["body"]["blocks"])
            return idx.pop() if len(idx) == 1 else None
        for path, spec in ((PB, (("width", None), ("height", None), ("data", None))), (IM, (("buffer", None), ("bg_color", None)))):
            a = self.adts.get(path)
            if a is None or a["kind"] != "struct" or len(a["variants"]) != 1: self.layout_known = self.layout_known and a is None; continue
            fs = a["variants"][0]["fields"]
            pos = {}
            if path == PB:
                for n in ("width", "height"): pos[n] = getter(PB + "::" + n)
                l = [i for i, f in enumerate(fs) if len(f) > 1 and (isadt(f[1], "alloc::vec::Vec") or isadt(f[1], "alloc::boxed::Box"))]
                pos["data"] = l[0] if len(l) == 1 else None
            else:
                l = [i for i, f in enumerate(fs) if len(f) > 1 and isadt(f[1], PB)]
                pos["buffer"] = l[0] if len(l) == 1 else None
                l = [i for i, f in enumerate(fs) if len(f) > 1 and isadt(f[1], "core::option::Option")]
                pos["bg_color"] = l[0] if len(l) == 1 else None
            if any(pos[n] is None for n, _ in spec) or len(set(pos.values())) != len(spec):
                if [f[0] for f in fs][:len(spec)] != [n for n, _ in spec] and path == PB: self.layout_known = False
                continue
            order = [pos[n] for n, _ in spec] + [i for i in range(len(fs)) if i not in pos.values()]
            names = [n for n, _ in spec] + [fs[i][0] for i in order[len(spec):]]
            if order == list(range(len(fs))) and names == [f[0] for f in fs]: continue
            perm = {o: i for i, o in enumerate(order)}
            nf = tuple((names[i],) + tuple(fs[o][1:]) for i, o in enumerate(order))
            a["variants"] = (dict(a["variants"][0], fields=nf),)
            self.canon[path] = (perm, tuple(order))
    def adt(self, p): return self.adts.get(p) or self.foreign.get(p)
    def fn(self, path):
        l = self.by_path.get(path)
        return l[0] if l else None

# ---- types -----------------------------------------------------------------
def tsub(t, env):
    if not isinstance(t, tuple): return t
    if t and t[0] == "param":
        i = t[1]
        return env[i] if env and i < len(env) and env[i] is not None else t
    return tuple(tsub(x, env) if isinstance(x, tuple) else x for x in t)
def unify(p, t, m):
    """match impl-side type p (with params) against t, binding params in m"""
    if isinstance(p, tuple) and p and p[0] == "param":
        if p[1] in m: return m[p[1]] == t
        m[p[1]] = t
        return True
    if not isinstance(p, tuple) or not isinstance(t, tuple): return p == t
    if t and t[0] == "param": return False
    if p and p[0] == "fndef" or p and p[0] == "closure": return p[:2] == t[:2]
    return len(p) == len(t) and all(unify(a, b, m) for a, b in zip(p, t))
def strip_ref(t):
    while t and t[0] == "ref": t = t[2]
    return t
FLOATS = (("prim", "f32"), ("prim", "f64"))
def is_float_ty(t): return t in FLOATS
BITS = {"u8": 8, "i8": 8, "u16": 16, "i16": 16, "u32": 32, "i32": 32, "u64": 64, "i64": 64, "usize": 64, "isize": 64, "u128": 128, "i128": 128}

NAMED = {}
def _named():
    import math
    for w, n in (("u8", 8), ("u16", 16), ("u32", 32), ("u64", 64), ("usize", 64)):
        NAMED[w + "::MAX"] = C((1 << n) - 1); NAMED[w + "::MIN"] = C(0)
        NAMED["core::%s::MAX" % w] = C((1 << n) - 1)
    for w, n in (("i8", 8), ("i16", 16), ("i32", 32), ("i64", 64), ("isize", 64)):
        NAMED[w + "::MAX"] = C((1 << n - 1) - 1); NAMED[w + "::MIN"] = C(-(1 << n - 1))
    f32 = lambda x: struct.unpack("<f", struct.pack("<f", x))[0]
    cs = dict(PI=math.pi, TAU=2 * math.pi, E=math.e, SQRT_2=math.sqrt(2), LN_2=math.log(2), LN_10=math.log(10),
              FRAC_PI_2=math.pi / 2, FRAC_PI_3=math.pi / 3, FRAC_PI_4=math.pi / 4, FRAC_PI_6=math.pi / 6,
              FRAC_PI_8=math.pi / 8, FRAC_1_PI=1 / math.pi, FRAC_2_PI=2 / math.pi, FRAC_1_SQRT_2=1 / math.sqrt(2))
    for k, v in cs.items():
        NAMED["core::f32::consts::" + k] = C(f32(v)); NAMED["core::f64::consts::" + k] = C(float(v))
    mx = struct.unpack("<f", b"\xff\xff\x7f\x7f")[0]
    for p in ("f32::", "core::f32::"):
        NAMED[p + "MAX"] = C(mx); NAMED[p + "MIN"] = C(-mx); NAMED[p + "EPSILON"] = C(2.0 ** -23)
        NAMED[p + "INFINITY"] = C(float("inf")); NAMED[p + "NEG_INFINITY"] = C(float("-inf")); NAMED[p + "NAN"] = C(float("nan"))
        NAMED[p + "MIN_POSITIVE"] = C(2.0 ** -126)
    for p in ("f64::", "core::f64::"):
        NAMED[p + "MAX"] = C(sys.float_info.max); NAMED[p + "MIN"] = C(-sys.float_info.max); NAMED[p + "EPSILON"] = C(2.0 ** -52)
_named()

class State:
    __slots__ = ("store", "pc")
    def __init__(s, store=None, pc=()): s.store = store if store is not None else {}; s.pc = pc
    def copy(s): return State(dict(s.store), s.pc)
    def assume(s, c):
        if c is TRUE or c in s.pc: return s
        return State(dict(s.store), s.pc + (tuple(c.args) if c.op == "and" else (c,)))

class Frame:
    n = [0]
    def __init__(f, rec, bd, env, depth, caller=None):
        Frame.n[0] += 1
        f.id = Frame.n[0]; f.rec, f.bd, f.env, f.depth, f.caller = rec, bd, env, depth, caller
        f.cfg = cfg_of(bd)
        f.active = []
    def stack(f):
        r = []
        while f: r.append(f.rec["path"]); f = f.caller
        return tuple(reversed(r))

class Event:
    __slots__ = ("kind", "name", "targs", "args", "ret", "pc", "fn", "line", "loops", "stack", "extra", "ord")
    def __init__(e, **k):
        for s in Event.__slots__: setattr(e, s, k.get(s))
    def __repr__(e): return "<%s %s %s @%s:%s pc=%s>" % (e.kind, e.name, list(e.args or ()), e.fn, e.line, list(e.pc or ()))

# ---- CFG ----------------------------------------------------------------------
class Cfg: pass
_cfgs = {}
def succs(t):
    k = t[0]
    if k == "goto": return [t[1]]
    if k == "switch": return [b for _, b in t[3]] + [t[4]]
    if k == "drop": return [t[2]]
    if k == "call": return [t[4]] if t[4] >= 0 else []
    if k == "assert": return [t[3]]
    return []
def cfg_of(bd):
    c = _cfgs.get(id(bd))
    if c: return c
    c = Cfg(); _cfgs[id(bd)] = c
    c.bd = bd
    B = bd["blocks"]
    n = len(B)
    c.succ = [list(dict.fromkeys(succs(B[i]["t"]))) for i in range(n)]
    for i in range(n):
        if B[i]["t"][0] == "switch" and B[B[i]["t"][4]]["t"][0] == "unreachable" and not B[B[i]["t"][4]]["s"]:
            c.succ[i] = [x for x in c.succ[i] if x != B[i]["t"][4]]
    seen, post = set(), []
    st = [(0, iter(c.succ[0]))]; seen.add(0)
    while st:
        b, it = st[-1]
        for s in it:
            if s not in seen:
                seen.add(s); st.append((s, iter(c.succ[s]))); break
        else:
            post.append(b); st.pop()
    rpo = post[::-1]
    c.rpo = rpo; num = {b: i for i, b in enumerate(rpo)}
    pred = {b: [] for b in rpo}
    for b in rpo:
        for s in c.succ[b]: pred[s].append(b)
    c.pred = pred
    idom = {0: 0}
    ch = True
    while ch:
        ch = False
        for b in rpo[1:]:
            ps = [p for p in pred[b] if p in idom]
            x = ps[0]
            for p in ps[1:]:
                y = p
                while x != y:
                    while num[x] > num[y]: x = idom[x]
                    while num[y] > num[x]: y = idom[y]
            if idom.get(b) != x: idom[b] = x; ch = True
    c.idom = idom
    def dom(a, b):
        while True:
            if a == b: return True
            if b == 0: return False
            b = idom[b]
    c.dom = dom
    loops = {}
    for b in rpo:
        for s in c.succ[b]:
            if dom(s, b):
                body = loops.setdefault(s, {s})
                stk = [b]
                while stk:
                    x = stk.pop()
                    if x not in body:
                        body.add(x); stk += pred[x]
    c.loops = loops
    c.joins = {}
    # may the block reach a return (not only panics)?
    ok_ = set(i for i in rpo if B[i]["t"][0] == "return")
    ch = True
    while ch:
        ch = False
        for b in reversed(rpo):
            if b not in ok_ and any(s in ok_ for s in c.succ[b]): ok_.add(b); ch = True
    c.live = ok_
    return c

def join_of(c, b, stops):
    """immediate post-dominator of b where stops (and returns) are exits; None if exit"""
    key = (b, stops)
    if key in c.joins: return c.joins[key]
    # nodes reachable from b without passing stops
    nodes, order = set(), []
    st = [b]
    while st:
        x = st.pop()
        if x in nodes: continue
        nodes.add(x)
        for s in c.succ[x]:
            if s not in stops and s not in nodes: st.append(s)
    X = -1
    full = nodes | {X}
    succ = {}
    for x in nodes:
        s = [X if y in stops else y for y in c.succ[x]]
        if c.bd["blocks"][x]["t"][0] == "return": s = [X]
        succ[x] = s
    # drop nodes that cannot reach X
    canr = {X}
    ch = True
    while ch:
        ch = False
        for x in nodes:
            if x not in canr and any(y in canr for y in succ[x]): canr.add(x); ch = True
    if b not in canr:
        c.joins[key] = None; return None
    nodes = [x for x in nodes if x in canr]
    pd = {x: set(nodes) | {X} for x in nodes}
    pd[X] = {X}
    num = {y: i for i, y in enumerate(c.rpo)}
    nodes.sort(key=lambda y: -num[y])
    ch = True
    while ch:
        ch = False
        for x in nodes:
            ss = [y for y in succ[x] if y in canr]
            s = set.intersection(*[pd[y] for y in ss]) | {x}
            if s != pd[x]: pd[x] = s; ch = True
    cand = pd[b] - {b, X}
    r = None
    for y in cand:
        if all(z in pd[y] for z in cand): r = y; break
    c.joins[key] = r
    return r

class Diverge(Exception): pass

class Engine:
    MAXDEPTH = 22
    def __init__(self, facts, opaque=None):
        self.F = facts
        self.events = []
        self.opaque = opaque or (lambda name, key: False)
        self.loops = ()
        self.unk = []
        self.const_memo = {}
        self.nstmts = 0
        self.fns = set()
        import models
        self.models = models.MODELS
        self.trait_models = models.TRAIT_MODELS
        self.budget = 3000000
        self.deadline = float("inf")

    # ---- memory ------------------------------------------------------------
    def read_obj(self, st, obj):
        v = st.store.get(obj)
        if v is None:
            if obj[0] == "D": return obj[1]
            return BOT
        return v
    def read_path(self, v, path):
        for e in path:
            k = e[0]
            if k == "f": v = fld(v, e[1], e[2])
            elif k == "v": v = down(v, e[1])
            elif k == "i": v = index(v, e[1])
            elif k == "s": v = slice_(v, e[1], e[2])
        return v
    def read(self, st, r):
        """value behind a reference term (shared references are their value)"""
        if r.op == "ref": return self.read_path(self.read_obj(st, r.args[0]), r.args[1])
        if r.op == "ite":
            if any(x.op in ("ref", "ite") for x in r.args[1:]):
                return ite(r.args[0], self.read(st, r.args[1]), self.read(st, r.args[2]))
            return r
        if ("D", r) in st.store: return st.store[("D", r)]
        return r
    def setpath(self, v, path, x):
        if not path: return x
        e = path[0]
        if v.op == "ite" and e[0] in ("f", "v"):
            return ite(v.args[0], self.setpath(v.args[1], path, x), self.setpath(v.args[2], path, x))
        if e[0] == "f":
            if v.op != "agg" and e[4]:
                v2 = T("agg", e[3], e[5], *[fld(v, i, nm) for i, nm in enumerate(e[4])])
            else: v2 = v
            nv = self.setpath(fld(v2, e[1], e[2]), path[1:], x)
            if v2.op == "agg":
                l = list(v2.args)
                if 2 + e[1] < len(l):
                    l[2 + e[1]] = nv
                    return mkagg(*l)
                return v2
            return T("with", v, ("f", e[1]), nv)
        if e[0] == "v": return self.setpath(down(v, e[1]), path[1:], x)
        if e[0] == "i":
            return store(v, e[1], self.setpath(index(v, e[1]), path[1:], x))
        if e[0] == "s":
            if path[1:]:
                p2 = path[1]
                if p2[0] == "i": return self.setpath(v, (("i", add(e[1], p2[1])),) + path[2:], x)
                if p2[0] == "s": return self.setpath(v, (("s", add(e[1], p2[1]), p2[2]),) + path[2:], x)
            k = bounded("k", e[2])
            if is_int(e[2]) and cval(e[2]) <= 8:
                for j in range(cval(e[2])): v = store(v, add(e[1], C(j)), index(x, C(j)))
                return v
            if e[1] is ZERO and seqlen(v) is e[2]: return x
            return scatter((k,), (e[2],), v, ((TRUE, add(e[1], k), index(x, k)),))
        return T("with", v, e, x)
    def write(self, st, r, x):
        """mutate st: store x behind reference r"""
        if r.op == "ref":
            o = r.args[0]
            st.store[o] = self.setpath(self.read_obj(st, o), r.args[1], x)
        elif r.op == "ite":
            a, b = r.args[1], r.args[2]
            self.write(st, a, ite(r.args[0], x, self.read(st, a)))
            self.write(st, b, ite(r.args[0], self.read(st, b), x))
        else:
            st.store[("D", r)] = x
    def refpath(self, r, e):
        """extend a reference by one path element"""
        if r.op == "ite": return T("ite", r.args[0], self.refpath(r.args[1], e), self.refpath(r.args[2], e))
        if r.op != "ref": r = T("ref", ("D", r), ())
        p = r.args[1]
        if p and p[-1][0] == "s" and e[0] == "i": return T("ref", r.args[0], p[:-1] + (("i", add(p[-1][1], e[1])),))
        if p and p[-1][0] == "s" and e[0] == "s": return T("ref", r.args[0], p[:-1] + (("s", add(p[-1][1], e[1]), e[2]),))
        return T("ref", r.args[0], p + (e,))
    _tmp = [0]
    def newref(self, st, v, tag="T"):
        Engine._tmp[0] += 1
        o = (tag, Engine._tmp[0])
        st.store[o] = v
        return T("ref", o, ())

    # ---- places ---------------------------------------------------------------
    def field_info(self, ty, variant=None):
        """(tag, variant name, field names, field types) for a struct/tuple/closure/enum-variant type"""
        if ty[0] == "tuple": return ("tuple", "", tuple("" for _ in ty[1]), ty[1])
        if ty[0] == "adt":
            a = self.F.adt(ty[1])
            if a and a["variants"]:
                vs = a["variants"]
                v = vs[variant] if variant is not None and variant < len(vs) else vs[0]
                names = tuple(f[0] for f in v["fields"])
                tys = tuple(tsub(f[1], ty[2]) if len(f) > 1 else None for f in v["fields"])
                return ("adt:" + ty[1], v["name"], names, tys)
        return ("?", "", (), ())
    def loc(self, fr, st, place):
        """resolve a place -> (ref term or None, value thunk args, type)"""
        l, proj = place
        ty = tsub(fr.bd["locals"][l], fr.env)
        r = T("ref", ("L", fr.id, l), ())
        val = None          # set when we are in value mode
        variant = None
        for e in proj:
            k = e[0]
            if k == "deref":
                v = self.read(st, r) if r is not None else val
                mut = ty and (ty[0] in ("ref", "ptr") and ty[1])
                ty = ty[2] if ty and ty[0] in ("ref", "ptr") else (ty[2][0] if ty and ty[0] == "adt" and ty[2] else None)
                if v.op == "ref" or v.op == "ite" and _isref(v): r, val = v, None
                elif mut: r, val = T("ref", ("D", v), ()), None
                else: r, val = None, v
                continue
            if k == "field":
                tag, vn, names, tys = self.field_info(ty, variant) if ty else ("?", "", (), ())
                fi, name = e[1], e[2] or (names[e[1]] if e[1] < len(names) else "")
                if ty and ty[0] == "adt" and ty[1] in self.F.canon: fi = self.F.canon[ty[1]][0].get(fi, fi); name = names[fi]
                if ty and ty[0] == "closure": tag, vn, names, tys = "closure:" + ty[1], ty[2], (), ()
                el = ("f", fi, name, tag, names, vn)
                ty = tys[fi] if fi < len(tys) else None
                variant = None
            elif k == "down":
                variant = e[1]
                nm = e[2]
                el = ("v", nm)
            elif k == "index":
                el = ("i", self.read(st, T("ref", ("L", fr.id, e[1]), ())))
                ty = elem_ty(ty)
            elif k == "cindex":
                if e[3]:
                    cur = self.read(st, r) if r is not None else val
                    el = ("i", sub(seqlen(cur), C(e[1])))
                else: el = ("i", C(e[1]))
                ty = elem_ty(ty)
            elif k == "subslice":
                cur = self.read(st, r) if r is not None else val
                n = sub(sub(seqlen(cur), C(e[2])), C(e[1])) if e[3] else C(e[2] - e[1])
                el = ("s", C(e[1]), n)
            else:
                el = ("o", str(e))
            if r is not None: r = self.refpath(r, el)
            else: val = self.read_path(val, (el,))
        return r, val, ty
    def place_val(self, fr, st, place):
        r, val, ty = self.loc(fr, st, place)
        v = self.read(st, r) if r is not None else val
        if ty and ty[0] == "array" and ty[2][0] == "cv" and v.op in ("fld", "sym", "index", "call", "deref"):
            tm.ARR_N[v] = ty[2][1]
        return v
    def assign(self, fr, st, place, v):
        l, proj = place
        if not proj:
            st.store[("L", fr.id, l)] = v
            return
        r, val, ty = self.loc(fr, st, place)
        if r is None:
            self.unk.append(("write through shared value", fr.rec["path"]))
            return
        self.write(st, r, v)

    # ---- operands -----------------------------------------------------------------
    def const(self, fr, c, st):
        k = c[0]
        ty = tsub(c[1], fr.env) if len(c) > 1 and isinstance(c[1], tuple) else None
        if k == "int":
            bits, size = int(c[2]), c[3]
            return self.scalar(ty, bits, size)
        if k == "strlit": return C(c[2])
        if k == "bytes": return C(bytes(c[2]), "bytes")
        if k == "zst":
            if ty[0] == "tuple": return UNIT
            if ty[0] == "fndef": return T("fn", ty[1], ty[2], ty[3])
            if ty[0] == "closure": return T("agg", "closure:" + ty[1], ty[2])
            if ty[0] == "adt":
                tag, vn, names, tys = self.field_info(ty)
                return T("agg", "adt:" + ty[1], vn, *[T("zst", t) for t in tys])
            if ty[0] == "array": return EMPTY
            return T("zst", ty)
        if k == "named":
            key, args = c[2], tsub(c[3], fr.env)
            b = self.F.bodies.get(key)
            if not b and c[5]:
                orig = tsub(c[7], fr.env) if len(c) > 7 else ()
                r = self.resolve_trait(c[5], c[6].split("::")[-1], orig)
                if r: b, args = r
            if b: return self.eval_const(b, args)
            if c[4] in NAMED: return NAMED[c[4]]
            return T("const", c[4], args)
        if k == "promoted":
            b = self.F.bodies.get(c[2])
            if b:
                mk = ("prom", c[2], c[3], tsub(c[4], fr.env))
                if mk not in self.const_memo:
                    self.const_memo[mk] = self.eval_body(b, b["promoted"][c[3]], tsub(c[4], fr.env), [], State(), fr)[0]
                return self.const_memo[mk]
        if k == "static": return T("static", c[2])
        if k == "ptrbytes":
            return C(bytes(c[2]), "bytes")
        if k == "rawbytes":
            t = ty
            if t[0] == "array" and is_float_ty(t[1]):
                raw = bytes(c[2])
                return mkagg("array", "", *[C(struct.unpack_from("<f", raw, 4 * i)[0]) for i in range(len(raw) // 4)])
            return T("raw", c[2], ty)
        if k == "tconst":
            x = tsub(c[2], fr.env)
            if x[0] == "cv": return self.scalar(ty, x[1], 8)
            if x[0] == "cterm": return x[1]
            return self.tconst(str(x[-1]), ty)
        if k == "fnptr": return T("fn", c[2], c[2], ())
        return T("cunk", str(c))
    def tconst(self, txt, ty):
        """value of a pretty-printed type-level constant"""
        if txt[:1] == '"' and txt[-1:] == '"':
            try: return C(json.loads(txt.replace("\\'", "'")))
            except ValueError: return sym(txt)
        if txt in ("true", "false"): return C(txt == "true")
        m = re.match(r"^(-?\d+)(_?[iu](8|16|32|64|128|size))?$", txt)
        if m: return C(int(m.group(1)))
        return sym(txt)
    def scalar(self, ty, bits, size):
        if ty == ("prim", "bool"): return C(bool(bits))
        if ty == ("prim", "f32"): return C(struct.unpack("<f", struct.pack("<I", bits))[0])
        if ty == ("prim", "f64"): return C(struct.unpack("<d", struct.pack("<Q", bits))[0])
        if ty == ("prim", "char"): return C(bits, "char")
        if ty[0] == "prim":
            n = BITS.get(ty[1], 64)
            if ty[1][0] == "i" and bits >> (n - 1) & 1: bits -= 1 << n
            return C(bits)
        if ty[0] == "adt":
            a = self.F.adt(ty[1])
            if a and a["kind"] == "enum":
                for v in a["variants"]:
                    if int(v["discr"]) == bits and not v["fields"]: return T("agg", "adt:" + ty[1], v["name"])
                for v in a["variants"]:
                    if not v["fields"] and ty[1] in ("core::option::Option",): return T("agg", "adt:" + ty[1], v["name"])
            if a and a["kind"] == "struct" and len(a["variants"][0]["fields"]) == 1:
                f = a["variants"][0]["fields"][0]
                return T("agg", "adt:" + ty[1], a["variants"][0]["name"], self.scalar(tsub(f[1], ty[2]), bits, size) if len(f) > 1 else C(bits))
        return T("scalar", ty, bits)
    def eval_const(self, b, args):
        mk = (b["key"], args)
        if mk not in self.const_memo:
            self.const_memo[mk] = T("const", b["path"], args)
            ev = len(self.events)
            r = self.eval_body(b, b["body"], args, [], State(), None)
            del self.events[ev:]
            self.const_memo[mk] = r[0] if r else BOT
        return self.const_memo[mk]
    def operand(self, fr, st, o):
        if o[0] in ("copy", "move"): return self.place_val(fr, st, o[1])
        if o[0] == "const": return self.const(fr, o[1], st)
        return T("unkop")
    def op_ty(self, fr, o):
        if o[0] in ("copy", "move"):
            l, proj = o[1]
            if not proj: return tsub(fr.bd["locals"][l], fr.env)
        return None

    # ---- rvalues ------------------------------------------------------------------
    def rvalue(self, fr, st, rv, line):
        k = rv[0]
        if k == "use": return self.operand(fr, st, rv[1])
        if k == "repeat":
            n = tsub(rv[2], fr.env)
            nt = const_len(n)
            return rep(self.operand(fr, st, rv[1]), nt)
        if k in ("ref", "rawptr"):
            r, val, ty = self.loc(fr, st, rv[2])
            mut = rv[1] if k == "ref" else True
            if mut:
                if r is None: return val
                if r.op == "ref" and r.args[0][0] == "D" and not r.args[1] and r.args[0] not in st.store: return r.args[0][1]
                return r
            return self.read(st, r) if r is not None else val
        if k == "cast":
            v = self.cast(fr, st, rv)
            if rv[1] == "IntToInt":
                ft, tt = tsub(rv[3], fr.env), tsub(rv[4], fr.env)
                if tt[0] == ft[0] == "prim" and BITS.get(tt[1], 64) < BITS.get(ft[1], 0) and not is_c(v):
                    self.ev("narrow", "cast", fr, st, line, ret=v, targs=tt[1])
            return v
        if k == "bin":
            ty = tsub(rv[4], fr.env)
            x, y = self.operand(fr, st, rv[2]), self.operand(fr, st, rv[3])
            v = self.binop(rv[1], x, y, ty)
            if rv[1] in ("Div", "Rem") and is_float_ty(ty) and not (is_c(y) and cval(y) != 0): self.ev("fdiv", rv[1], fr, st, line, args=(x, y), ret=v)
            if ty[0] == "prim" and BITS.get(ty[1], 64) <= 32 and rv[1][:3] in ("Mul", "Shl"):
                w = v.args[2] if v.op == "agg" and v.args[0] == "tuple" else v
                if not is_c(w): self.ev("narrow", "mul", fr, st, line, ret=w, targs=ty[1])
            return v
        if k == "un":
            v = self.operand(fr, st, rv[2])
            if rv[1] == "Not":
                ty = self.op_ty(fr, rv[2])
                if ty == ("prim", "bool") or v.op in ("not", "and", "or", "lt0", "flt0", "eq", "isvar") or is_c(v, "bool"): return not_(v)
                return T("inot", v)
            if rv[1] == "Neg":
                ty = self.op_ty(fr, rv[2])
                return fneg(v) if is_float_ty(ty) or v.op in ("fpoly",) or is_f(v) else neg(v)
            if rv[1] == "PtrMetadata":
                return seqlen(self.read(st, v))
            return T("un", rv[1], v)
        if k == "discr":
            v = self.place_val(fr, st, rv[1])
            return T("discr", v, tsub(rv[2], fr.env))
        if k == "agg":
            kd = rv[1]
            ops = [self.operand(fr, st, o) for o in rv[2]]
            if kd[0] == "array": return mkagg("array", "", *ops)
            if kd[0] == "tuple": return tup(*ops)
            if kd[0] == "adt":
                if kd[1] in self.F.canon and len(ops) == len(self.F.canon[kd[1]][1]): ops = [ops[o] for o in self.F.canon[kd[1]][1]]
                self.ev("adt", kd[1], fr, st, line, args=tuple(ops), targs=tsub(kd[5], fr.env), extra=kd[3])
                v = mkagg("adt:" + kd[1], kd[3], *ops)
                ta = tsub(kd[5], fr.env)
                if any(isinstance(x, tuple) and x and x[0] in ("cv", "cterm") for x in ta): tm.ADT_ARGS[v] = ta   # const generics of the last such value made
                return v
            if kd[0] == "closure": return T("agg", "closure:" + kd[1], tsub(kd[2], fr.env), *ops)
            if kd[0] == "rawptr": return ops[0]
            return T("aggunk", str(kd), *ops)
        if k == "tls": return T("tls", rv[1])
        return T("unkrv", str(rv))
    def cast(self, fr, st, rv):
        kind, v, ft, tt = rv[1], self.operand(fr, st, rv[2]), tsub(rv[3], fr.env), tsub(rv[4], fr.env)
        if "Unsize" in kind and ft[0] in ("ref", "ptr") and v.op in ("ref", "fld", "index", "sym", "call"):
            at = next((x for x in ft[1:] if isinstance(x, tuple) and x and x[0] == "array"), None)
            if at and at[2][0] == "cv":
                w = self.read(st, v) if v.op == "ref" else v
                if w.op in ("fld", "sym", "index", "call"): tm.ARR_N[w] = at[2][1]
        return do_cast(kind, v, ft, tt, self)
    def binop(self, op, a, b, ty):
        fl = is_float_ty(ty)
        bo = ty == ("prim", "bool")
        if op in ("Add", "AddUnchecked"): return fadd(a, b) if fl else add(a, b)
        if op in ("Sub", "SubUnchecked"): return fsub(a, b) if fl else sub(a, b)
        if op in ("Mul", "MulUnchecked"): return fmul(a, b) if fl else mul(a, b)
        if op.endswith("WithOverflow"):
            return tup({"A": add, "S": sub, "M": mul}[op[0]](a, b), FALSE)
        if op == "Div": return fdiv(a, b) if fl else div(a, b)
        if op == "Rem": return T("frem", a, b) if fl else rem(a, b)
        uns = ty[0] == "prim" and ty[1][0] == "u"
        if op == "Lt": return flt(a, b) if fl else ilt(a, b, uns)
        if op == "Gt": return flt(b, a) if fl else ilt(b, a, uns)
        if op == "Le": return not_(flt(b, a)) if fl else not_(ilt(b, a, uns))
        if op == "Ge": return not_(flt(a, b)) if fl else not_(ilt(a, b, uns))
        if op in ("Eq", "Ne"):
            if fl: r = feq(a, b)
            elif bo: r = a if b is TRUE else b if a is TRUE else not_(a) if b is FALSE else not_(b) if a is FALSE else eq(a, b)
            elif a.op == "discr" or b.op == "discr": r = self.eq_discr(a, b)
            else: r = eq(a, b)
            return r if op == "Eq" else not_(r)
        if bo and op == "BitAnd": return and_(a, b)
        if bo and op == "BitOr": return or_(a, b)
        if bo and op == "BitXor": return ite(a, not_(b), b)
        if op in ("Shl", "ShlUnchecked") and is_int(b): return mul(a, C(1 << cval(b)))
        if op in ("Shr", "ShrUnchecked") and is_int(b): return div(a, C(1 << cval(b)))
        if op == "BitAnd" and (is_int(b) or is_int(a)):
            if is_int(a): a, b = b, a
            m = cval(b)
            if m >= 0 and (m & (m + 1)) == 0: return rem(a, C(m + 1))
        return T("bin", op, a, b)
    def eq_discr(self, a, b):
        for x, y in ((a, b), (b, a)):
            if x.op == "discr" and is_int(y):
                c = self.discr_cond(x, cval(y))
                if c is not None: return c
        if a.op == "discr" and b.op == "discr":
            x, y = a.args[0], b.args[0]
            if x.op == "agg": return isvar(y, x.args[1])
            if y.op == "agg": return isvar(x, y.args[1])
            if x.op == "ite": return ite(x.args[0], self.eq_discr(T("discr", x.args[1], a.args[1]), b), self.eq_discr(T("discr", x.args[2], a.args[1]), b))
            if y.op == "ite": return ite(y.args[0], self.eq_discr(a, T("discr", y.args[1], b.args[1])), self.eq_discr(a, T("discr", y.args[2], b.args[1])))
        return T("eq", *sorted((a, b)))
    def discr_cond(self, d, val):
        ty = d.args[1]
        if ty and ty[0] == "adt":
            a = self.F.adt(ty[1])
            if a:
                for v in a["variants"]:
                    if int(v["discr"]) == val or (int(v["discr"]) - val) % (1 << 128) == 0: return isvar(d.args[0], v["name"])
        return None

    # ---- events -----------------------------------------------------------------
    def ev(self, kind, name, fr, st, line, **k):
        self.events.append(Event(kind=kind, name=name, pc=st.pc, fn=fr.rec["path"] if fr else "?", line=line,
                                 loops=self.loops, stack=fr.stack() if fr else (), **k))

    # ---- control flow ----------------------------------------------------------------
    def eval_body(self, rec, bd, env, args, st, caller):
        depth = caller.depth + 1 if caller else 0
        fr = Frame(rec, bd, env, depth, caller)
        self.fns.add(rec["path"])
        st = st.copy()
        n = bd["argc"]
        if bd["spread"] >= 0 and len(args) != n:
            sp = bd["spread"]
            args = list(args[:sp - 1]) + [tup(*args[sp - 1:])]
        for i, a in enumerate(args[:n]): st.store[("L", fr.id, i + 1)] = a
        try:
            out = self.run(fr, 0, frozenset(), st)
        except Diverge:
            return None
        r = out.get("RET")
        if r is None: return None
        cond, s = r
        v = s.store.get(("L", fr.id, 0), UNIT)
        s2 = State({k: x for k, x in s.store.items() if not (k[0] == "L" and k[1] == fr.id)}, s.pc)
        # locals that escaped by reference cannot outlive the frame in safe code
        return v, s2

    def known(self, st, c):
        """simplify c by the facts on the current path"""
        if c.op == "c": return c
        if c.op in ("and", "or"):
            return (and_ if c.op == "and" else or_)(*[self.known(st, x) for x in c.args])
        nc = not_(c)
        for p in st.pc:
            if p is c: return TRUE
            if p is nc: return FALSE
        if c.op == "isvar" or c.op == "not" and c.args[0].op == "isvar" or c.op == "eq":
            for p in st.pc:
                if exclusive(p, c): return FALSE
                if c.op == "not" and p.op == "isvar" and exclusive(p, c.args[0]): return TRUE
        if c.op == "lt0" or c.op == "not" and c.args[0].op == "lt0":
            for p in st.pc:
                r = lt_implies(p, c)
                if r is not None: return r
        return c

    def run(self, fr, b, stops, st, enter=False):
        out = {}
        reach = TRUE
        B = fr.bd["blocks"]
        cf = fr.cfg
        def emit(k, c, s):
            if k in out: out[k] = merge([(out[k][0], out[k][1]), (c, s)], None)
            else: out[k] = (c, s)
        first_ = enter
        while True:
            if b in stops and not first_:
                emit(b, reach, st); return out
            if b in cf.loops and not first_:
                arms = self.mir_loop(fr, b, st)
                if not arms: return out
                if len(arms) == 1:
                    t, c, s = arms[0]
                    b, st = t, s
                    reach = and_(reach, c)
                    first_ = False
                    continue
                arms = [(c, t, s) for t, c, s in arms]
            else:
                first_ = False
                blk = B[b]
                st = st.copy()
                for s in blk["s"]:
                    self.nstmts += 1
                    k = s[0]
                    if k == "=":
                        v = self.rvalue(fr, st, s[2], s[3])
                        self.assign(fr, st, s[1], v)
                    elif k == "dead": st.store.pop(("L", fr.id, s[1]), None)
                    elif k == "setd": pass
                if self.nstmts > self.budget: raise Diverge()
                if self.nstmts & 63 == 0 and time.time() > self.deadline: self.nstmts = self.budget + 1; raise Diverge()
                t = blk["t"]
                k = t[0]
                if k == "goto": b = t[1]; continue
                if k == "return": emit("RET", reach, st); return out
                if k == "drop":
                    r, val, ty = self.loc(fr, st, t[1])
                    if self.has_drop(tsub(t[3], fr.env)):
                        self.ev("drop", "", fr, st, t[4], args=(self.read(st, r) if r is not None else val,), extra=tsub(t[3], fr.env), targs=r)
                    b = t[2]; continue
                if k == "assert":
                    c = self.operand(fr, st, t[1])
                    if not t[2]: c = not_(c)
                    info = t[5] if len(t) > 5 else ()
                    a = tuple(self.operand(fr, st, x) for x in info[:2]) if t[4] == "bounds" else ()
                    c2 = self.known(st, c)
                    self.ev("assert", t[4], fr, st, t[-1], args=a, ret=c2)
                    if c2 is FALSE: return out
                    st = st.assume(c2)
                    b = t[3]; continue
                if k == "call":
                    args = [self.operand(fr, st, o) for o in t[2]]
                    line = t[5]
                    r = self.call(fr, t[1], args, tuple(tsub(x, fr.env) for x in t[6]), tsub(t[7], fr.env), st, line)
                    if r is None or t[4] < 0:
                        return out
                    v, st = r
                    st = st.copy()
                    self.assign(fr, st, t[3], v)
                    b = t[4]; continue
                if k == "switch":
                    arms = self.switch_arms(fr, st, t)
                    if len(arms) == 1:
                        b, st = arms[0][1], arms[0][2]
                        continue
                    if not arms: return out
                else:
                    return out      # unreachable, resume
            j = join_of(cf, b, stops)
            st2 = frozenset(stops | {j}) if j is not None else stops
            pend = {}
            for c, t, s in arms:
                r = self.run(fr, t, st2, s)
                for kk, (c2, s2) in r.items():
                    pend.setdefault(kk, []).append((and_(c, c2), s2))
            nxt = None
            for kk, l in pend.items():
                m = merge(l, st)
                if kk == j: nxt = m
                else: emit(kk, and_(reach, m[0]), m[1])
            if nxt is None: return out
            reach = and_(reach, nxt[0]); st = nxt[1]; b = j; first_ = False

    def switch_arms(self, fr, st, t):
        v = self.operand(fr, st, t[1])
        ty = tsub(t[2], fr.env)
        arms = []
        B = fr.bd["blocks"]
        rest = TRUE
        tg = []
        for val, bb in t[3]:
            n = int(val)
            if ty == ("prim", "bool"): c = v if n else not_(v)
            elif v.op == "discr":
                c = self.discr_cond(v, n)
                if c is None: c = eq(v, C(n))
            elif ty == ("prim", "char"): c = eq(v, C(n, "char"))
            else:
                if ty[0] == "prim" and ty[1][0] == "i":
                    w = BITS.get(ty[1], 64)
                    if n >> (w - 1) & 1: n -= 1 << w
                c = eq(v, C(n))
            tg.append((c, bb))
        ob = t[4]
        unreach = B[ob]["t"][0] == "unreachable" and not B[ob]["s"]
        for i, (c, bb) in enumerate(tg):
            cc = self.known(st, c)
            cc2 = and_(rest, cc)
            if cc2 is not FALSE:
                if unreach and i == len(tg) - 1: cc2 = self.known(st, rest)
                if cc2 is not FALSE: arms.append((cc2, bb))
            rest = and_(rest, not_(cc))
            if rest is FALSE: break
        if not unreach and rest is not FALSE:
            r = self.known(st, rest)
            if r is not FALSE: arms.append((r, ob))
        if len(arms) == 1:
            return [(TRUE, arms[0][1], st.assume(arms[0][0]) if arms[0][0] is not TRUE else st)]
        return [(c, bb, st.assume(c)) for c, bb in arms]

    def has_drop(self, ty):
        if not ty: return False
        if ty[0] in ("prim", "ref", "ptr", "str", "fndef", "fnptr"): return False
        return True

    # ---- loops --------------------------------------------------------------------------
    def mir_loop(self, fr, h, st):
        body = fr.cfg.loops[h]
        exits = set()
        for x in body:
            for s in fr.cfg.succ[x]:
                if s not in body: exits.add(s)
        stops = frozenset(exits | {h})
        # drop frame locals dead at the header (keeps junk out of the recurrences)
        live = live_in(fr.cfg, h)
        base = st.copy()
        borrowed = borrowed_locals(fr.cfg)
        for k in list(base.store):
            if k[0] == "L" and k[1] == fr.id and k[2] not in live and k[2] not in borrowed: del base.store[k]
        def b(s):
            r = self.run(fr, h, stops, s, enter=True)
            o = {}
            for k, v in r.items(): o["cont" if k == h else k] = v
            return o
        res = self.solve_loop(base, b, (fr, h))
        return [(k, c, s) for k, c, s in res]

    def reshape(self, a, b):
        """a struct that is updated field by field on some paths only, field by field"""
        if a is b or a in self.phiset: return b
        if b.op == "ite":
            lv = leaves_of(b)
            g = next((x for x in lv if x.op == "agg" and tm.STRUCT_N.get(x.args[0]) == len(x.args) - 2), None)
            if g is not None and all(x is a or x.op == "agg" and x.args[:2] == g.args[:2] for x in lv):
                b = T("agg", g.args[0], g.args[1], *[fld(b, i) for i in range(len(g.args) - 2)])
        if b.op == "agg" and b.args[0].startswith("adt:") and (a.op == "agg" and a.args[:2] == b.args[:2] or a.op != "agg" and tm.STRUCT_N.get(b.args[0]) == len(b.args) - 2):
            f = lambda i: a.args[i] if a.op == "agg" else fld(a, i - 2)
            return T("agg", *b.args[:2], *[self.reshape(f(i), b.args[i]) for i in range(2, len(b.args))])
        return b
    def diff(self, a, b, path=()):
        if a is b: return []
        if a.op == "agg" and b.op == "agg" and a.args[:2] == b.args[:2] and len(a.args) == len(b.args):
            r = []
            for i in range(2, len(a.args)): r += self.diff(a.args[i], b.args[i], path + (i,))
            return r
        if a.op == "iter" and b.op == "iter" and a.args[0] is b.args[0]: return [path + ("p",)]
        if b.op == "agg" and a.op not in ("agg", "ite", "bot", "c") and tm.STRUCT_N.get(b.args[0]) == len(b.args) - 2 and a not in self.phiset:
            r = []
            for i in range(2, len(b.args)): r += self.diff(fld(a, i - 2), b.args[i], path + (i,))
            return r
        return [path]
    def lget(self, v, path):
        for e in path:
            if e == "p": v = v.args[1]
            elif v.op == "agg": v = v.args[e]
            else: v = fld(v, e - 2)
        return v
    def lput(self, v, path, x, model):
        """put x at leaf path; model is a value with the aggregate shape along the path"""
        if not path: return x
        e = path[0]
        if e == "p": return T("iter", v.args[0], x)
        if v.op != "agg":
            v = T("agg", model.args[0], model.args[1], *[fld(v, i) for i in range(len(model.args) - 2)])
        l = list(v.args)
        l[e] = self.lput(l[e], path[1:], x, model.args[e] if model.op == "agg" else l[e])
        return T("agg", *l)

    phiset = set()
    def has_path(self, v, path):
        for e in path:
            if e == "p": return False
        return True
    def guess_shape(self, ph, init, out):
        """candidate invariant: a sequence that is only written element-wise keeps its length"""
        if out is None or not writes_elems(out): return
        l = seqlen(init)
        if seqlen(out) is not l: return
        tm.SEQ_LEN[ph] = l
        k = fresh("r")
        e = index(init, k)
        rl = seqlen(e) if e.op in ("gen", "agg", "store", "scatter", "ite", "fold") or init in tm.ROWLEN or init.op == "fold" else None
        if rl is not None and not any(z.op == "len" for z in tm.walk(rl)) and not occurs(k, rl): tm.ROWLEN[ph] = rl
    def solve_loop(self, st0, body, tag=None):
        """returns [(exit key, condition, state)]"""
        if self.unroll:
            r = self.unrolled(st0, body)
            if r is not None: return r
        leaves = {}          # (obj, path) -> (phi, shape model)
        cur = st0.copy()
        mark = len(self.events)
        outer = self.loops
        k = fresh("k")
        self.loops = outer + ((k, None),)
        res = None
        try:
            for it in range(12):
                del self.events[mark:]
                res = body(cur.copy())
                if "cont" not in res:
                    if it == 0:
                        self.loops = outer
                        return [(kk, c, s) for kk, (c, s) in res.items()]
                    break
                stc = res["cont"][1]
                new = {}
                for obj, vin in cur.store.items():
                    vout = stc.store.get(obj)
                    if vout is None or vout is vin: continue
                    vout = self.reshape(vin, vout)
                    for p in self.diff(vin, vout):
                        if (obj, p) not in leaves: new[(obj, p)] = vout
                for obj in stc.store:
                    if obj not in cur.store and obj[0] == "D": st0 = st0.copy(); st0.store[obj] = obj[1]; new[(obj, ())] = stc.store[obj]
                if not new: break
                for (obj, p), model in new.items():
                    vin0 = self.lget(st0.store[obj], p) if self.has_path(st0.store[obj], p) else None
                    for q in [q for (o2, q) in leaves if o2 == obj and q[:len(p)] == p]: del leaves[(obj, q)]
                    ph = fresh("phi"); Engine.phiset.add(ph)
                    leaves[(obj, p)] = (ph, model)
                    if vin0 is not None: self.guess_shape(ph, vin0, self.lget(model, p) if self.has_path(model, p) else None)
                cur = st0.copy()
                for (obj, p), (ph, model) in sorted(leaves.items(), key=lambda x: len(x[0][1])):
                    cur.store[obj] = self.lput(cur.store[obj], p, ph, model)
            else:
                self.unk.append(("loop did not stabilise", str(tag)))
        finally:
            self.loops = outer
        if "cont" not in res:
            return [(kk, c, s) for kk, (c, s) in res.items()]
        stc = res["cont"][1]
        # the assumed shape of every mutated sequence has to be an invariant
        for (obj, p), (ph, model) in leaves.items():
            if ph in tm.SEQ_LEN and not keeps_shape(self.lget(stc.store[obj], p), ph):
                self.unk.append(("sequence length not invariant", str(tag)))
        L = []
        for (obj, p), (ph, model) in leaves.items():
            v0 = st0.store[obj]
            v1 = self.lget(stc.store[obj], p)
            # an earlier iteration went on, so its update may rely on the condition to go on
            if v1.op == "ite":
                import equiv
                v1 = equiv.simp(v1, (res["cont"][0],))
            L.append((ph, self.lget(v0, p), v1))
        closed, n, contc = self.recur(k, L, res["cont"][0], res)
        phis = set(x[0] for x in L)
        def at(t, kk):
            if not (varset(t) & (phis | {k})): return t
            m = {ph: (subst(c, {k: kk}) if kk is not k else c) for ph, c in closed.items()}
            m[k] = kk
            return subst(t, m)
        def st_at(s, kk):
            r = State({}, st0.pc)
            for o, v in s.store.items():
                if o not in st0.store and o[0] == "L" and False: continue
                r.store[o] = at(v, kk)
            return r
        # events inside the loop body
        for e in self.events[mark:]:
            e.args = tuple(at(x, k) if isinstance(x, Term) else x for x in e.args) if e.args else e.args
            if isinstance(e.ret, Term): e.ret = at(e.ret, k)
            e.pc = tuple(at(x, k) for x in e.pc)
            e.loops = tuple((a, n) if a is k else (a, at(b, k) if b is not None and b is not INF else b) for a, b in e.loops)
        bnd = tm.BND.pop(k, None)
        natc = [at(x, k) for x in self.natatoms]
        exits = [(kk, at(c, k), s) for kk, (c, s) in res.items() if kk != "cont"]
        if bnd: tm.BND[k] = bnd
        nat, early = [], []
        for kk, c, s in exits:
            fs = set(c.args) if c.op == "and" else {c}
            if any(not_(a) in fs for a in natc) or (c.op == "or" and all(not_(a) in set(c.args) for a in natc) and len(c.args) == len(natc)): nat.append((kk, s))
            else:
                cc = and_(*[x for x in fs if x not in natc])
                early.append((kk, subst(cc, {k: k}), s))
        outl = []
        E_ = or_(*[c for _, c, _ in early])
        noe = TRUE
        if early and E_ is not FALSE:
            noe = forall(k, n, not_(E_)) if n is not INF else FALSE
        if nat and noe is not FALSE:
            if len(nat) > 1 and len(set(x[0] for x in nat)) > 1:
                self.unk.append(("several natural exits", str(tag)))
            kk, s = nat[0]
            s2 = st_at(s, n)
            outl.append((kk, noe, s2.assume(noe)))
        if early:
            j = first(k, n, E_)
            live = [(kk, c, s) for kk, c, s in early if c is not FALSE]
            for i, (kk, c, s) in enumerate(live):
                cj = subst(c, {k: j}) if len(live) > 1 else TRUE
                cond = and_(not_(noe), cj)
                s2 = st_at(s, j)
                outl.append((kk, cond, s2.assume(cond)))
        # same exit key twice (natural + early): merge
        d = {}
        for kk, c, s in outl: d.setdefault(kk, []).append((c, s))
        r = []
        for kk, l in d.items():
            m = merge(l, st0)
            r.append((kk, m[0], m[1]))
        return r

    unroll = 0
    def unrolled(self, st0, body):
        """the loop executed step by step when it provably ends within self.unroll iterations"""
        mark, nu = len(self.events), len(self.unk)
        cur, acc, d = st0, TRUE, {}
        for it in range(self.unroll):
            res = body(cur.copy())
            for kk, (c, s) in res.items():
                if kk == "cont": continue
                c = and_(acc, c)
                if c is not FALSE: d.setdefault(kk, []).append((c, s.assume(c)))
            c, s = res.get("cont", (FALSE, None))
            acc = and_(acc, c)
            if acc is FALSE: break
            cur = s.assume(c)
        else:
            del self.events[mark:]; del self.unk[nu:]
            return None
        return [(kk,) + merge(l, st0) for kk, l in d.items()]

    def recur(self, k, L, contc, res):
        """closed forms in k for the leaf recurrences phi' = out(phi)"""
        closed = {}
        allp = {ph for ph, _, _ in L}
        un = [list(x) for x in L]
        def has_un(t):
            return varset(t) & (allp - set(closed))
        ch = True
        while ch:
            ch = False
            for x in list(un):
                ph, init, out = x
                o = subst(out, closed) if closed else out
                if o is ph: closed[ph] = init; un.remove(x); ch = True; continue
                if o.op == "poly" or is_int(o):
                    d = sub(o, ph)
                    if not has_un(d) and ph in varset(o) and not (varset(d) & {ph, k}):
                        closed[ph] = add(init, mul(d, k)); un.remove(x); ch = True
        # trip count
        c = subst(contc, closed)
        atoms_ = list(c.args) if c.op == "and" else [c]
        ns, nat = [], []
        for a in atoms_:
            nn = solve_trip(a, k)
            if nn is not None and not has_un(nn) and not occurs(k, nn): ns.append(nn); nat.append(a)
        if ns:
            n = ns[0]
            for y in ns[1:]: n = imin(n, y)
        else: n = INF
        self.natatoms = nat
        tm.BND[k] = (ZERO, n)
        # remaining leaves
        ch = True
        while ch and un:
            ch = False
            for x in list(un):
                ph, init, out = x
                o = subst(out, {**closed, k: k}) if closed else out
                if has_un(o) - {ph}: continue
                f = self.closed_leaf(k, ph, init, o)
                if f is not None:
                    closed[ph] = f; un.remove(x); ch = True
            if not ch and un:
                # mutually dependent: generic folds
                outs = {x[0]: (subst(x[2], closed) if closed else x[2]) for x in un}
                inits = {x[0]: x[1] for x in un}
                for x in list(un):
                    order, q = [], [x[0]]
                    while q:
                        p = q.pop(0)
                        if p in order: continue
                        order.append(p)
                        q += [y for y in order_vars(outs[p]) if y in outs]
                    k2 = fresh("k")
                    m = {k: k2}
                    ph2 = [fresh("p") for _ in order]
                    m.update(zip(order, ph2))
                    closed[x[0]] = fold(k2, ph2, k, [inits[p] for p in order], [subst(outs[p], m) for p in order], 0)
                un = []
        return closed, n, c

    def closed_leaf(self, k, ph, init, o):
        """closed form of phi at iteration k for the single recurrence phi' = o(phi, k)"""
        if not occurs(ph, o):
            # last value: o at k-1, init at 0
            return ite(eq(k, ZERO), init, subst(o, {k: sub(k, ONE)}))
        X = strip_cat(o, ph)
        if X is not None and not occurs(ph, X):
            k2 = fresh("k"); tm.BND[k2] = (ZERO, k)
            return cat(init, flat(k2, k, subst(X, {k: k2})))
        if o.op == "store" and o.args[0] is ph and not occurs(k, o.args[1]) and not occurs(ph, o.args[1]):
            # only one element of the sequence is updated: recurrence of that element
            i = o.args[1]
            row = fresh("row")
            if tm.ROWLEN.get(ph) is not None: tm.SEQ_LEN[row] = tm.ROWLEN[ph]
            v = subst(o.args[2], {T("index", ph, i): row})
            if not occurs(ph, v):
                f = self.closed_leaf(k, row, index(init, i), v)
                return store(init, i, f)
        W = strip_store(o, ph, ())
        if W is not None:
            binders, writes = W
            ws = []
            for c, i, v in writes:
                if occurs(ph, i) or occurs(ph, c):
                    rd = T("index", ph, i) if not occurs(ph, i) else None
                    if rd is None: ws = None; break
                    c2 = subst(c, {rd: index(init, i)})
                    if occurs(ph, c2) or not injective(i, k): ws = None; break
                    c = c2
                if occurs(ph, v):
                    rd = T("index", ph, i)
                    v2 = subst(v, {rd: index(init, i)})
                    if occurs(ph, v2):
                        v2 = reads_elsewhere(v2, ph, i, k, init)
                    if v2 is None or occurs(ph, v2) or not injective(i, k): ws = None; break
                    v = v2
                ws.append((c, i, v))
            if ws is not None:
                k2 = fresh("k")
                ks = (k2,) + tuple(b for b, _ in binders)
                nn = (k,) + tuple(subst(b, {k: k2}) for _, b in binders)
                r = scatter(ks, nn, init, tuple(tuple(subst(y, {k: k2}) for y in w) for w in ws))
                return r
        d = None
        if o.op == "fpoly" and (ph,) in dict(o.args[0]) and dict(o.args[0])[(ph,)] == 1:
            d = fsub(o, ph)
            if not occurs(ph, d):
                k2 = fresh("k"); tm.BND[k2] = (ZERO, k)
                return sred("fadd", k2, k, subst(d, {k: k2}), init)
        if o.op == "poly" and dict(o.args[0]).get((ph,)) == 1:
            d = sub(o, ph)
            if not occurs(ph, d):
                k2 = fresh("k"); tm.BND[k2] = (ZERO, k)
                return sred("add", k2, k, subst(d, {k: k2}), init)
        if o.op in ("imax", "imin", "fmax", "fmin") and ph in o.args:
            rest = [x for x in o.args if x is not ph]
            if not any(occurs(ph, x) for x in rest):
                r = rest[0]
                for x in rest[1:]: r = tm._red2(o.op, r, x)
                k2 = fresh("k"); tm.BND[k2] = (ZERO, k)
                return sred(o.op, k2, k, subst(r, {k: k2}), init)
        kept = keep_split(o, ph)
        if kept is not None and kept[1] is not None:
            # the value written by the last iteration that writes one
            c, v = kept
            j = fresh("k"); tm.BND[j] = (ZERO, k)
            last = sub(sub(k, ONE), tm.first(j, k, subst(c, {k: sub(sub(k, ONE), j)})))
            return ite(tm.forall(j, k, not_(subst(c, {k: j}))), init, subst(v, {k: last}))
        k2, p2 = fresh("k"), fresh("p")
        return fold(k2, [p2], k, [init], [subst(o, {k: k2, ph: p2})], 0)

    # ---- calls -----------------------------------------------------------------------
    def resolve_trait(self, trait, name, args):
        """(body, env) for a trait item given concrete trait args (Self first)"""
        if not args: return None
        self_t = args[0]
        if self_t[0] == "param": return None
        for imp in self.F.impl_by_trait.get(trait, ()):
            m = {}
            if not unify(imp["self"], self_t, m): continue
            ta = imp["targs"]
            if ta and len(ta) >= 2 and len(args) >= len(ta):
                if not all(unify(a, b, m) for a, b in zip(ta[1:], args[1:len(ta)])): continue
            for it in imp["items"]:
                if it[0] == name:
                    b = self.F.bodies.get(it[1])
                    if b:
                        nimpl = max(m) + 1 if m else 0
                        env = [m.get(i) for i in range(nimpl)]
                        # method's own generics follow the impl generics
                        ntr = len(ta) if ta else 1
                        own = list(args[ntr:])
                        gi = [g[0] for g in b["generics"]]
                        tot = max(gi) + 1 if gi else 0
                        env = env + own
                        if len(env) < tot: env += [None] * (tot - len(env))
                        return b, tuple(env)
            t = self.F.traits.get(trait)
            if t:
                for it in t["items"]:
                    if it[0] == name and it[2]:
                        b = self.F.bodies.get(it[1])
                        if b: return b, tuple(args)
        return None

    def call(self, fr, callee, args, argtys, destty, st, line):
        if "indirect" in callee:
            f = self.operand(fr, st, callee["indirect"])
            return self.callv(f, args, st, fr, line)
        targs = tuple(tsub(x, fr.env) for x in callee["args"])
        return self.call_named(callee["key"], callee["path"], callee["trait"], callee["name"], targs,
                               callee["res"], args, argtys, destty, st, fr, line)

    FNTR = ("core::ops::function::Fn", "core::ops::function::FnMut", "core::ops::function::FnOnce")
    def call_named(self, key, path, trait, name, targs, res, args, argtys, destty, st, fr, line):
        if trait in self.FNTR:
            a = args[1]
            al = list(a.args[2:]) if a.op == "agg" else [fld(a, i) for i in range(len(argtys[1][1]) if argtys and len(argtys) > 1 and argtys[1][0] == "tuple" else 1)]
            return self.callv(args[0], al, st, fr, line)
        cname = path
        b = env = None
        if trait:
            cname = trait + "::" + name
            r = self.resolve_trait(trait, name, targs)
            if r: b, env = r
        if b is None:
            b = self.F.bodies.get(key)
            env = targs
            if trait and b is not None and targs and targs[0][0] == "param":
                # generic Self: default body may be overridden by the implementor
                b = None
        if b is None and res and res[0] != key:
            b = self.F.bodies.get(res[0])
            env = tuple(tsub(x, fr.env) for x in res[2]) if b else None
        o = self.opaque(cname, b["key"] if b else key) or b is not None and cname != b["path"] and self.opaque(b["path"], b["key"])
        if o:
            r = self.opaque_call(cname, targs, args, argtys, destty, st, fr, line, key)
            # a summary (proved elsewhere) may give the result some structure
            if callable(o) and r: return o(r[0], self.events[-1].args), r[1]
            return r
        if b is None or trait and (trait, name) in self.trait_models:
            m = self.models.get(path) or (self.trait_models.get((trait, name)) if trait else None)
            if m:
                ctx = Ctx(self, fr, targs, argtys, destty, line, path, trait, name)
                r = m(ctx, args, st)
                if r is not NotImplemented: return r
        if b is not None:
            cnt = 0
            f = fr
            while f:
                if f.rec is b: cnt += 1
                f = f.caller
            if cnt == 0 and fr.depth < self.MAXDEPTH:
                z = self.summary(b, fr)
                if z is not None:
                    self.fns.add(b["path"])
                    return tm.subst(z[1], dict(zip(z[0], args))), st
                return self.eval_body(b, b["body"], env, args, st, fr)
        return self.opaque_call(cname, targs, args, argtys, destty, st, fr, line, key)

    SIMPLE = {"fmin", "fmax", "fpoly", "sym", "c"}
    def summary(self, b, fr):
        """functions of float numbers that are bounds or sums of them, however written: evaluated once, for every argument"""
        memo = self.F.__dict__.setdefault("float_summaries", {})
        k = b["key"]
        if k in memo: return memo[k]
        memo[k] = None
        bd = b["body"]
        if bd["argc"] < 1 or bd["argc"] > 3 or len(bd["blocks"]) > 12 or any(t != ("prim", "f32") for t in bd["locals"][:bd["argc"] + 1]) or b["generics"]: return None
        ps = tuple(sym("$%d" % i) for i in range(bd["argc"]))
        mark, loops = len(self.events), self.loops
        self.loops = ()
        try: r = self.eval_body(b, bd, (), list(ps), State(), fr)
        finally: self.loops = loops
        ev = self.events[mark:]
        del self.events[mark:]
        if r is None or ev or r[1].pc: return None
        if all(x.op in self.SIMPLE for x in tm.walk(r[0])): memo[k] = (ps, r[0])
        return memo[k]

    def callv(self, f, args, st, fr, line):
        """call a function value"""
        cl = f
        if f.op in ("ref",): cl = self.read(st, f)
        if cl.op == "ref": return self.callv(cl, args, st, fr, line)
        if cl.op == "ite":
            c = cl.args[0]
            s1, s2 = st.assume(c), st.assume(not_(c))
            r1 = self.callv(cl.args[1], args, s1, fr, line)
            r2 = self.callv(cl.args[2], args, s2, fr, line)
            return merge_vals([(c, r1), (not_(c), r2)], st)
        if cl.op == "fn":
            key, path, targs = cl.args
            b = self.F.bodies.get(key)
            v = self.ctor(path, args)
            if b is None and v is not None: return v, st
            tr = nm = None
            pre, _, last = path.rpartition("::")
            if pre in self.F.traits or any(pre == i for i in self.F.impl_by_trait): tr, nm = pre, last
            ty = ()
            return self.call_named(key, path, tr, nm or last, targs, None, list(args), (), None, st, fr, line)
        if cl.op == "agg" and cl.args[0].startswith("closure:"):
            b = self.F.bodies.get(cl.args[0][8:])
            if b is not None and fr.depth < self.MAXDEPTH:
                t1 = b["body"]["locals"][1]
                s = st
                if t1[0] == "ref" and t1[1]:
                    if f.op != "ref":
                        s = st.copy(); envv = self.newref(s, cl)
                    else: envv = f
                else: envv = cl
                n = 0
                g = fr
                while g:
                    if g.rec is b: n += 1
                    g = g.caller
                if n < 2:
                    return self.eval_body(b, b["body"], cl.args[1], [envv] + list(args), s, fr)
        vals = tuple(self.read(st, a) for a in args)
        ret = T("call", "apply", (), cl, *vals)
        self.ev("apply", "apply", fr, st, line, args=(cl,) + vals, ret=ret)
        s = st.copy()
        for i, a in enumerate(args):
            if a.op == "ref": self.write(s, a, T("post", i, ret))
        return ret, s

    def ctor(self, path, args):
        pre, _, last = path.rpartition("::")
        a = self.F.adt(pre)
        if a and a["kind"] == "enum" and any(v["name"] == last for v in a["variants"]):
            return mkagg("adt:" + pre, last, *args)
        a = self.F.adt(path)
        if a and a["kind"] == "struct": return mkagg("adt:" + path, a["variants"][0]["name"], *args)
        return None

    def opaque_call(self, name, targs, args, argtys, destty, st, fr, line, key=None):
        vals, muts = [], []
        for i, a in enumerate(args):
            if a.op == "ref" or a.op == "ite" and _isref(a):
                vals.append(self.read(st, a)); muts.append((i, a))
            elif argtys and i < len(argtys) and argtys[i] and argtys[i][0] == "ref" and argtys[i][1]:
                vals.append(self.read(st, a)); muts.append((i, a))
            else: vals.append(a)
        ret = T("call", name, clean_targs(targs), *vals)
        # a call that mutates through a reference held inside a value (iterator, closure) is a world effect
        s = st.copy()
        for i, a in muts:
            if a.op == "ref" or a.op == "ite":
                p = T("post", i, ret)
                ty = argtys[i] if argtys and i < len(argtys) else None
                if ty and ty[0] == "ref" and ty[2] and ty[2][0] == "slice": tm.SEQ_LEN[p] = seqlen(vals[i])   # a slice keeps its length
                self.write(s, a, p)
            else: s.store[("D", a)] = T("post", i, ret)
        # a foreign function given a pointer may also write through the pointers stored behind it
        deep = []
        def refs_in(v):
            if v.op == "ref": deep.append(v)
            elif v.op in ("agg", "ite"):
                for x in v.args:
                    if isinstance(x, Term): refs_in(x)
        for i, a in muts:
            if argtys and i < len(argtys) and argtys[i] and argtys[i][0] == "ptr" and argtys[i][1]: refs_in(vals[i])
        for j, a in enumerate(deep): self.write(s, a, T("post", 100 + j, ret))
        self.ev("call", name, fr, st, line, args=tuple(vals), ret=ret, targs=targs, extra=(argtys, destty, key))
        if destty and destty[0] == "array" and destty[2][0] == "cv": tm.ARR_N[ret] = destty[2][1]
        if destty == ("prim", "!"): return None
        return ret, s

class Ctx:
    def __init__(s, E, fr, targs, argtys, destty, line, path, trait, name):
        s.E, s.fr, s.targs, s.argtys, s.destty, s.line, s.path, s.trait, s.name = E, fr, targs, argtys, destty, line, path, trait, name
    def callv(s, f, args, st): return s.E.callv(f, args, st, s.fr, s.line)
    def panic(s, what, st, cond):
        s.E.ev("panic", what, s.fr, st, s.line, ret=cond)

INF = T("inf")
def const_len(n):
    """term of a const-generic array length"""
    if n[0] == "cv": return C(n[1])
    if n[0] == "cterm": return n[1]
    return sym(str(n[-1]))
def clean_targs(t):
    def cl(x):
        if isinstance(x, tuple) and x and x[0] == "closure": return ("closure",)
        if isinstance(x, tuple): return tuple(cl(y) for y in x)
        return x
    return tuple(cl(x) for x in t)
def _isref(v):
    if v.op == "ref": return True
    return v.op == "ite" and any(_isref(x) for x in v.args[1:])
def elem_ty(t):
    if not t: return None
    if t[0] in ("array", "slice"): return t[1]
    return None
def ilt(a, b, uns):
    if uns:
        if b is ZERO: return FALSE
        if a is ZERO and not is_c(b): return not_(eq(b, ZERO))
        if b is ONE and not is_c(a): return eq(a, ZERO)
    return lt(a, b)
def lt_implies(p, c):
    """does fact p decide comparison c (same linear form, different constant)?"""
    def form(x):
        neg_ = False
        if x.op == "not": x, neg_ = x.args[0], True
        if x.op != "lt0": return None
        d = to_poly(x.args[0]); k = d.pop((), 0)
        key = tuple(sorted(d.items(), key=lambda z: [a.id for a in z[0]]))
        # lt0: L + k < 0 -> L <= -k-1 ; not: L >= -k
        return key, ("ge", -k) if neg_ else ("le", -k - 1)
    a, b = form(p), form(c)
    if not a or not b or a[0] != b[0]: return None
    (ka, va), (kb, vb) = a[1], b[1]
    if ka == "le" and kb == "le" and va <= vb: return TRUE
    if ka == "ge" and kb == "ge" and va >= vb: return TRUE
    if ka == "le" and kb == "ge" and va < vb: return FALSE
    if ka == "ge" and kb == "le" and va > vb: return FALSE
    return None

def merge(l, base):
    """merge [(cond, state)] -> (cond, state); conditions relative to base"""
    if len(l) == 1: return l[0]
    cond = or_(*[c for c, _ in l])
    keys = {}
    for _, s in l:
        for k in s.store: keys[k] = 1
    out = {}
    for k in keys:
        vs = [s.store.get(k) for _, s in l]
        if any(v is None for v in vs):
            if k[0] == "D":
                vs = [k[1] if v is None else v for v in vs]
            else:
                have = [(c, v) for (c, _), v in zip(l, vs) if v is not None]
                r = have[-1][1]
                for c, v in reversed(have[:-1]): r = ite(c, v, r)
                out[k] = r
                continue
        r = vs[-1]
        for (c, _), v in list(zip(l, vs))[-2::-1]:
            if v is not r: r = ite(c, v, r)
        out[k] = r
    # common path facts
    pcs = [s.pc for _, s in l]
    com = [p for p in pcs[0] if all(p in q for q in pcs[1:])]
    st = State(out, tuple(com))
    if cond is not TRUE:
        st = st.assume(cond)
    return cond, st
def merge_vals(l, base):
    """merge [(cond, (val, state) or None)]"""
    l = [(c, r) for c, r in l if r is not None and c is not FALSE]
    if not l: return None
    if len(l) == 1: return l[0][1]
    c, s = merge([(c, r[1]) for c, r in l], base)
    v = l[-1][1][0]
    for c2, r in l[-2::-1]: v = ite(c2, r[0], v)
    return v, s

def solve_trip(a, k):
    """iterations while a(k) holds, or None"""
    ng = False
    x = a
    if x.op == "not": x, ng = x.args[0], True
    if x.op == "lt0":
        p = to_poly(x.args[0])
        co = p.pop((k,), 0)
        r = from_poly(p)
        if occurs(k, r) or not co: return None
        if not ng and co > 0:       # co*k + r < 0
            return neg(r) if co == 1 else div(add(neg(r), C(co - 1)), C(co))
        if ng and co < 0:           # co*k + r >= 0
            return add(r, ONE) if co == -1 else div(add(r, C(-co)), C(-co))
        return None
    if x.op == "eq" and ng:
        d = sub(x.args[0], x.args[1]) if all(y.op in ("poly", "sym", "c", "fld", "len", "call") for y in x.args) else None
        if d is None: return None
        p = to_poly(d); co = p.pop((k,), 0); r = from_poly(p)
        if occurs(k, r) or co not in (1, -1): return None
        return neg(r) if co == 1 else r
    return None

def writes_elems(o):
    if o.op in ("store", "scatter", "fold") or o.op == "agg" and o.args[0] == "array": return True
    return o.op == "ite" and (writes_elems(o.args[1]) or writes_elems(o.args[2]))
def keeps_shape(o, ph):
    if o is ph: return True
    rl = tm.ROWLEN.get(ph)
    if o.op == "store": return keeps_shape(o.args[0], ph) and (rl is None or seqlen(o.args[2]) is rl)
    if o.op == "scatter": return keeps_shape(o.args[2], ph) and (rl is None or all(seqlen(v) is rl for _, _, v in o.args[3]))
    if o.op == "ite": return keeps_shape(o.args[1], ph) and keeps_shape(o.args[2], ph)
    if o.op == "agg" and o.args[0] == "array": return rl is None and seqlen(o) is tm.SEQ_LEN.get(ph)
    if o.op == "fold":
        names, n, inits, outs, idx = o.args
        nm, l = names[1 + idx], tm.SEQ_LEN.get(ph)
        if not keeps_shape(inits[idx], ph): return False
        old = tm.SEQ_LEN.get(nm), tm.ROWLEN.get(nm)
        tm.SEQ_LEN[nm] = l
        if rl is not None: tm.ROWLEN[nm] = rl
        try: return keeps_shape(outs[idx], nm)
        finally:
            for d, v in ((tm.SEQ_LEN, old[0]), (tm.ROWLEN, old[1])):
                d.pop(nm, None)
                if v is not None: d[nm] = v
    return False
def strip_cat(o, ph):
    """o = cat(ph, X) -> X"""
    if o is ph: return EMPTY
    if o.op == "cat" and o.args[0] is ph: return cat(*o.args[1:])
    if o.op == "ite" and not occurs(ph, o.args[0]):
        a, b = strip_cat(o.args[1], ph), strip_cat(o.args[2], ph)
        if a is not None and b is not None: return ite(o.args[0], a, b)
    return None
def leaves_of(t):
    if t.op != "ite": return [t]
    return leaves_of(t.args[1]) + leaves_of(t.args[2])
def keep_split(o, ph):
    """(c, v): the recurrence writes v (free of ph) where c holds and keeps ph elsewhere"""
    if o is ph: return (FALSE, None)
    if not occurs(ph, o): return (TRUE, o)
    if o.op != "ite" or occurs(ph, o.args[0]): return None
    a, b = keep_split(o.args[1], ph), keep_split(o.args[2], ph)
    if a is None or b is None: return None
    v = a[1] if b[1] is None else b[1] if a[1] is None else ite(o.args[0], a[1], b[1])
    return ite(o.args[0], a[0], b[0]), v
def strip_store(o, ph, binders):
    """o = writes applied to ph -> (binders, ((cond, idx, val)...)) in order"""
    if o is ph: return (), ()
    if o.op == "store":
        r = strip_store(o.args[0], ph, binders)
        if r is None or r[0]: return None
        return (), r[1] + ((TRUE, o.args[1], o.args[2]),)
    if o.op == "ite" and not occurs(ph, o.args[0]) or o.op == "ite" and (o.args[1] is ph or o.args[2] is ph):
        a, b = strip_store(o.args[1], ph, binders), strip_store(o.args[2], ph, binders)
        if a is None or b is None or a[0] and b[0]: return None
        c = o.args[0]
        if a[0] and b[1] or b[0] and a[1]: return None
        return a[0] or b[0], tuple((and_(c, x), i, v) for x, i, v in a[1]) + tuple((and_(not_(c), x), i, v) for x, i, v in b[1])
    if o.op == "scatter":
        names, ns, base, writes = o.args
        r = strip_store(base, ph, binders)
        if r is None or r[1]: return None
        fr_ = [fresh("k") for _ in names]
        m = dict(zip(names, fr_))
        return tuple((f, subst(n_, m)) for f, n_ in zip(fr_, ns)), tuple(tuple(subst(y, m) for y in w) for w in writes)
    return None
def injective(i, k):
    p = to_poly(i)
    ks = [m for m in p if any(occurs(k, x) for x in m)]
    return len(ks) >= 1 and any(k in m for m in ks)
def reads_elsewhere(v, ph, i, k, init):
    return None
def order_vars(t):
    """free symbols in deterministic first-visit order"""
    out, seen = [], set()
    def go(x):
        if isinstance(x, tuple):
            for y in x: go(y)
            return
        if not isinstance(x, Term) or x in seen: return
        seen.add(x)
        if x.op == "sym": out.append(x); return
        if x.op in ("poly", "fpoly"):
            for m, _ in x.args[0]:
                for y in m: go(y)
            return
        for y in x.args: go(y)
    go(t)
    return out

def do_cast(kind, v, ft, tt, E=None):
    if v.op == "ite" and any(is_c(x) for x in v.args[1:]) and kind.startswith(("Int", "Float")):
        return ite(v.args[0], do_cast(kind, v.args[1], ft, tt, E), do_cast(kind, v.args[2], ft, tt, E))
    if kind == "IntToInt":
        if v.op == "discr" and E:
            x = v.args[0]
            if x.op == "agg":
                a = E.F.adt(x.args[0][4:])
                for q in a["variants"] if a else ():
                    if q["name"] == x.args[1]: v = C(int(q["discr"]))
        if ft == ("prim", "bool"): return ite(v, ONE, ZERO)
        if ft[0] == "prim" and tt[0] == "prim":
            fb, tb = BITS.get(ft[1]), BITS.get(tt[1])
            if fb and tb:
                if is_int(v):
                    x = cval(v) & ((1 << tb) - 1)
                    if tt[1][0] == "i" and x >> (tb - 1): x -= 1 << tb
                    return C(x)
                if tb < fb and tb <= 16:
                    if v.op == "trunc" and BITS[v.args[0]] <= tb: return v
                    return T("trunc", tt[1], v)
                return v
            if tt[1] == "char" or ft[1] == "char": return v if is_c(v) else T("cast", ft, tt, v)
        return v
    if kind == "FloatToInt":
        if is_f(v):
            x = int(cval(v)); return C(x)
        if v.op == "i2f": return v.args[0]
        return T("f2i", tt[1], v)
    if kind == "IntToFloat": return i2f(v)
    if kind == "FloatToFloat": return v
    return v
def i2f(v):
    if is_int(v): return C(Fraction(cval(v)))
    if v.op == "ite" : return ite(v.args[0], i2f(v.args[1]), i2f(v.args[2]))
    if v.op == "poly":
        r = C(Fraction(0))
        for m, c in v.args[0]:
            x = C(Fraction(c))
            for y in m: x = fmul(x, i2f(y))
            r = fadd(r, x)
        return r
    return T("i2f", v)
tm._REB["i2f"] = i2f
tm._REB["trunc"] = lambda ty, v: do_cast("IntToInt", v, ("prim", "u64"), ("prim", ty)) if is_int(v) else T("trunc", ty, v)
tm._REB["f2i"] = lambda ty, v: do_cast("FloatToInt", v, ("prim", "f32"), ("prim", ty))

_live = {}
def live_in(c, h):
    """locals live at block entry (classic backward liveness on the non-unwinding CFG)"""
    key = id(c)
    if key not in _live:
        B = c.bd["blocks"]
        use, df = {}, {}
        for b in c.rpo:
            u, d = set(), set()
            def rd(l):
                if l not in d: u.add(l)
            def place_use(p):
                rd(p[0])
                for e in p[1]:
                    if e[0] == "index": rd(e[1])
            def scan(x):
                if isinstance(x, tuple):
                    if len(x) == 2 and x[0] in ("copy", "move") and isinstance(x[1], tuple): place_use(x[1]); return
                    if x and x[0] in ("ref", "rawptr") and len(x) == 3 and isinstance(x[2], tuple) and len(x[2]) == 2 and isinstance(x[2][0], int): place_use(x[2]); return
                    if x and x[0] == "discr" and len(x) == 3: place_use(x[1]); return
                    for y in x: scan(y)
                elif isinstance(x, dict):
                    for y in x.values(): scan(y)
            for s in B[b]["s"]:
                if s[0] == "=":
                    scan(s[2])
                    if s[1][1]: place_use(s[1])
                    else: d.add(s[1][0])
                elif s[0] == "dead": d.add(s[1])
            t = B[b]["t"]
            if t[0] == "call":
                scan(t[1]); scan(t[2])
                if t[3][1]: place_use(t[3])
                else: d.add(t[3][0])
            elif t[0] == "drop": place_use(t[1])
            elif t[0] == "return": rd(0)
            else: scan(t)
            use[b], df[b] = u, d
        li = {b: set() for b in c.rpo}
        ch = True
        while ch:
            ch = False
            for b in reversed(c.rpo):
                o = set()
                for s in c.succ[b]: o |= li[s]
                n = use[b] | (o - df[b])
                if n != li[b]: li[b] = n; ch = True
        _live[key] = li
    return _live[key][h]
_bor = {}
def borrowed_locals(c):
    if id(c) not in _bor:
        s = set()
        for b in c.rpo:
            for x in c.bd["blocks"][b]["s"]:
                if x[0] == "=" and x[2][0] in ("ref", "rawptr"):
                    if x[2][1] and not any(e[0] == "deref" for e in x[2][2][1]): s.add(x[2][2][0])
        _bor[id(c)] = s
    return _bor[id(c)]

"""Convolution, smoothing kernels and resampling: which weight meets which pixel, and what the weights sum to."""
from fw import *
import term as tm, engine as en
import models, witness
from fractions import Fraction
from rules_core import PB, W, H, D, F0, F1, buffer, px, xy, clamp01, lits_of, is_const_param
from rules_ops import runop, modes, pix, leaves, op

RGBP = "d10_core::color::rgb::Rgb"
KD, KS = "d10_core::kernel_dyn::KernelDyn", "d10_core::kernel::Kernel"
fc = lambda x: C(Fraction(x))
def CL(v, n): return imin(sub(n, ONE), imax(ZERO, v))
def near(b, x, y): return px(b, CL(x, W(b)), CL(y, H(b)))
def rdata(F, c, i):
    """channel i of an Rgb value"""
    a = F.adt(RGBP)
    return index(fld(c, 0, a["variants"][0]["fields"][0][0]), C(i))
def raw(v): return fld(v, 0)
def arr(xs): return tm.mkagg("array", "array", *xs)
def fsum(xs):
    s = fc(0)
    for x in xs: s = fadd(s, x)
    return s
def cenv(b, **by_name):
    """environment of a function with its const parameters set"""
    return tuple(("cterm", by_name[g[1]]) if g[1] in by_name else ("cterm", by_name["*"]) if "*" in by_name and is_const_param(b, g[0]) else ("param", g[0], g[1]) for g in b["generics"])

def quotient(t, s):
    """g with t = g * s as polynomials, or None"""
    p, q = to_fpoly(t), to_fpoly(s)
    if not q or not p: return None
    lead = max(q, key=lambda m: (len(m), [x.id for x in m]))
    # candidates: every monomial of t divided by the leading one of s
    for m, c in p.items():
        r = list(m); good = True
        for x in lead:
            if x in r: r.remove(x)
            else: good = False; break
        if not good: continue
        g = tm.from_fpoly({tuple(r): Fraction(1)}) if r else fc(1)
        k = c / q[lead]
        d = to_fpoly(fsub(t, fmul(fmul(g, s), C(k))))
        if all(abs(v) < 1e-5 for v in d.values()): return fmul(g, C(k))
    return None
def cancel(t, limit=20):
    """rewrite Q * (1/S) to Q/S wherever S divides Q"""
    for _ in range(limit):
        if t.op != "fpoly": return t
        p = to_fpoly(t); done = False
        for s in {x for m in p for x in m if x.op == "finv"}:
            mine = {m: c for m, c in p.items() if m.count(s) == 1}
            if not mine: continue
            q = tm.from_fpoly({tuple(x for x in m if x is not s): c for m, c in mine.items()})
            g = quotient(q, s.args[0])
            if g is None: continue
            rest = tm.from_fpoly({m: c for m, c in p.items() if m not in mine})
            t = fadd(rest, g); done = True; break
        if not done: return t
    return t
def uniform(t, b, col):
    """t with every pixel of b replaced by col"""
    m = {z: col for z in tm.walk(t) if z.op == "index" and z.args[0] is D(b)}
    return tm.subst(t, m) if m else t
def deepcancel(t):
    """cancel inside conditionals, minima and maxima"""
    for _ in range(4):
        m = {}
        for z in tm.walk(t):
            if z.op == "fpoly" and any(x.op == "finv" for mo, _c in z.args[0] for x in mo):
                c = cancel(z)
                if c is not z: m[z] = c
        if not m: return t
        t = tm.subst(t, m)
    return t

def windows(b, n):
    """summary of PixelBuffer::get_kernel / get_kernel_dyn for windows of size n (an obligation of C12)"""
    def win(bb, x, y, size):
        o = size // 2
        return arr([arr([near(bb, add(x, C(i - o)), add(y, C(j - o))) for i in range(size)]) for j in range(size)])
    def opq(name, key):
        if name == PB + "::get_kernel" and n: return lambda ret, v: win(v[0], v[1], v[2], n)
        if name == PB + "::get_kernel_dyn":
            return lambda ret, v: win(v[0], v[1], v[2], cval(v[3])) if is_c(v[3]) and cval(v[3]) < 20 else ret
        return False
    return opq

def kernel_dyn(ck, kw, kh, name="k"):
    ks = [sym("%s%d_%d" % (name, i, j)) for j in range(kh) for i in range(kw)]
    A = ck.run(KD + "::new", args={0: arr(ks), 1: C(kw), 2: C(kh)}, unroll=40)
    return (A.ret if A and A.ok else None), ks
def kernel_static(ck, n):
    ks = [[sym("k%d_%d" % (i, j)) for i in range(n)] for j in range(n)]
    b = ck.find(KS + "::new")
    if b is None: return None, ks
    A = ck.run(KS + "::new", args={0: arr([arr(r) for r in ks])}, env=cenv(b, **{"*": C(n), "N": C(n)}), unroll=40)
    return (A.ret if A and A.ok else None), ks

def convolution(ck, b):
    F = ck.F
    X, Y = xy(b)
    parts = []
    def same(key, got, want, what, A):
        for c in range(4):
            ck.eq("%s/%d" % (key, c), index(got, C(c)), want(c), "%s (channel %d)" % (what, c), A.where, limit=800)
    def dyn(kw, kh):
        k, ks = kernel_dyn(ck, kw, kh)
        if k is None: ck.unk("kernel/%dx%d" % (kw, kh), "kernel cannot be built"); return 0
        n = 0
        want = lambda c: fsum(fmul(ks[i + j * kw], index(raw(near(b, add(X, C(i - kw // 2)), add(Y, C(j - kh // 2)))), C(c))) for j in range(kh) for i in range(kw))
        A = ck.run(PB + "::get_kernel_value", args={0: b, 1: X, 2: Y, 3: k}, unroll=40)
        if A and A.ok:
            n += 1
            same("get_kernel_value/%dx%d" % (kw, kh), raw(A.ret), want, "sum over the kernel of coefficient (i, j) times the pixel at that offset from (x, y)", A)
        A = ck.run(PB + "::apply_kernel_dyn", args={0: b, 1: k}, unroll=40)
        if A and A.ok:
            n += 1
            same("apply_kernel_dyn/%dx%d" % (kw, kh), raw(index(D(A.ret), add(X, mul(Y, W(b))))), want, "output (x, y) is the convolution at (x, y)", A)
        return n
    def stat(nn):
        k, ks = kernel_static(ck, nn)
        bb = ck.find(PB + "::apply_kernel")
        if k is None or bb is None: ck.unk("kernel/%d" % nn, "kernel cannot be built"); return 0
        want = lambda c: fsum(fmul(ks[j][i], index(raw(near(b, add(X, C(i - nn // 2)), add(Y, C(j - nn // 2)))), C(c))) for j in range(nn) for i in range(nn))
        A = ck.run(PB + "::apply_kernel", args={0: b, 1: k}, env=cenv(bb, **{"*": C(nn), "N": C(nn)}), opaque=windows(b, nn), unroll=12)
        if A and A.ok:
            same("apply_kernel/%d" % nn, raw(index(D(A.ret), add(X, mul(Y, W(b))))), want, "output (x, y) is the convolution at (x, y)", A)
            return 1
        return 0
    for kw, kh in ((1, 1), (3, 3), (5, 3), (3, 5), (2, 4)): parts.append(lambda kw=kw, kh=kh: dyn(kw, kh))
    for nn in (1, 3, 5): parts.append(lambda nn=nn: stat(nn))
    return parts

def gaussians(ck):
    sigma = sym("sigma")
    def weights(key, cells, n, A):
        ws = [index(index(cells, C(j)), C(i)) for j in range(n) for i in range(n)] if key.startswith("Kernel/") else [index(cells, C(i)) for i in range(n * n)]
        ck.eq(key + "/sum", cancel(fsum(ws)), fc(1), "the weights sum to one", A.where)
        w = lambda i, j: ws[i + j * n]
        for j in range(n):
            for i in range(n):
                if n % 2 == 1:
                    ck.eq("%s/mirror/%d,%d" % (key, i, j), w(i, j), w(n - 1 - i, j), "the kernel is symmetric left to right", A.where)
                ck.eq("%s/transpose/%d,%d" % (key, i, j), w(i, j), w(j, i), "rows and columns are weighted alike", A.where)
        if n > 1: ck.need(key + "/varies", w(0, 0) is not w(n // 2, n // 2), "the centre and the corner are weighted differently", A.where)
        return 1
    def stat(n):
        b = ck.find(KS + "::new_gaussian")
        if b is None: return 0
        A = ck.run(KS + "::new_gaussian", args={0: sigma}, env=cenv(b, **{"*": C(n), "N": C(n)}), unroll=60)
        if not A or not A.ok: return 0
        d = raw(A.ret)
        return weights("Kernel/%d" % n, d, n, A)
    def dyn(n):
        A = ck.run(KD + "::new_gaussian", args={0: C(n), 1: sigma}, unroll=90)
        if not A or not A.ok: return 0
        r = A.ret
        fs = [f[0] for f in ck.F.adt(KD)["variants"][0]["fields"]]
        i = fs.index("width") if "width" in fs else None
        data = next((x for x in r.args[2:] if isinstance(x, Term) and (x.op in ("gen", "scatter", "store", "cat") or x.op == "agg" and x.args[0] == "array")), None) if r.op == "agg" else None
        if data is None: ck.unk("KernelDyn/%d" % n, "coefficients not recognised", A.where); return 0
        if i is not None:
            ck.eq("KernelDyn/%d/width" % n, fld(r, i), C(n), "kernel width", A.where)
            ck.eq("KernelDyn/%d/height" % n, fld(r, fs.index("height")), C(n), "kernel height", A.where)
        return weights("KernelDyn/%d" % n, data, n, A)
    return [lambda n=n: stat(n) for n in (1, 3, 5, 7)] + [lambda n=n: dyn(n) for n in (1, 3, 5, 9)]

# a pixel read through the clamping accessor (an obligation of C12), with the clamping left symbolic
def abspx(b, x, y):
    c = lambda v, n: T("call", "clamped", (), v, n)
    return px(b, c(x, W(b)), c(y, H(b)))
def abstract(b, FN):
    """summaries of the clamped accessors in terms of abspx"""
    def win(x, y, n): return arr([arr([abspx(b, add(x, C(i - n // 2)), add(y, C(j - n // 2))) for i in range(n)]) for j in range(n)])
    def opq(name, key):
        if name == PB + "::get_pixel_clamped": return lambda ret, v: abspx(b, v[1], v[2]) if v[0] is b else ret
        if name == PB + "::get_kernel_dyn": return lambda ret, v: win(v[1], v[2], cval(v[3])) if v[0] is b and is_c(v[3]) and cval(v[3]) < 20 else ret
        if name == PB + "::get_kernel":
            n = FN.get("kernel")
            return (lambda ret, v: win(v[1], v[2], n) if v[0] is b else ret) if n else False
        return False
    return opq

def lin(*cs):
    """polynomial in t with the given coefficients, constant first"""
    def f(t):
        r, p = fc(0), fc(1)
        for c in cs:
            r = fadd(r, fmul(C(Fraction(c)), p)); p = fmul(p, t)
        return r
    return f
HALF = Fraction(1, 2)
TAPS = {"Bilinear": ((0, lin(1, -1)), (1, lin(0, 1))),
        "Bicubic": ((-1, lin(0, -HALF, 1, -HALF)), (0, lin(1, 0, -5 * HALF, 3 * HALF)), (1, lin(0, HALF, 2, -3 * HALF)), (2, lin(0, 0, -HALF, HALF)))}
def sinc(v):
    import struct, math
    pv = fmul(v, C(Fraction(struct.unpack("<f", struct.pack("<f", math.pi))[0])))
    return ite(feq(v, fc(0)), fc(1), fmul(T("f", "sin", pv), tm.finv(pv)))
def lanczos3(v):
    a = T("f", "abs", v)
    return ite(flt(a, fc(3)), fmul(sinc(a), sinc(fmul(a, C(Fraction(1, 3))))), fc(0))
TAPS["Lanczos3"] = tuple((o, lambda t, o=o: lanczos3(fsub(fc(o), t))) for o in range(-3, 4))

def interp(b, gx, gy, kind, px_):
    """interpolation of b at (gx, gy): channel -> term"""
    fx, fy = T("f", "floor", gx), T("f", "floor", gy)
    ix, iy = T("f2i", "i32", fx), T("f2i", "i32", fy)
    tx, ty = fsub(gx, fx), fsub(gy, fy)
    wx = [(i, w(tx)) for i, w in TAPS[kind]]; wy = [(j, w(ty)) for j, w in TAPS[kind]]
    return lambda c: fsum(fmul(fmul(q, p), index(raw(px_(b, add(ix, C(i)), add(iy, C(j)))), C(c))) for j, q in wy for i, p in wx)

def positions(gx, gy, px_):
    """symbols for the integer part and the offset of a sampling position, and the substitution introducing them"""
    out = {}
    def sub_(t):
        for p, n in ((gx, "x"), (gy, "y")):
            t = tm.subst(t, {p: fadd(sym("base" + n), sym("off" + n))})
        return simp(tm.subst(t, {z: sym("base" + z_n) for z in tm.walk(t) if z.op == "f" and z.args[0] == "floor" for z_n in ("x", "y") if z.args[1] is fadd(sym("base" + z_n), sym("off" + z_n))}), ())
    return sub_

def same_all(pairs, asm, limit=300):
    return all(g is w or simp(g, asm) is simp(w, asm) or not equiv(g, w, asm=asm, limit=limit) for g, w in pairs)

def samplers(ck, b):
    """functions of d10-ops sampling an image at a fractional position, with the interpolation each is proved to compute"""
    F = ck.F
    out = {}
    u, v = sym("posx"), sym("posy")
    fix = positions(u, v, None)
    F32 = ("prim", "f32")
    rgb = ("adt", RGBP, ())
    for key, f in F.bodies.items():
        if f["crate"] != "d10_ops" or f["body"]["argc"] != 3 or any(is_const_param(f, g[0]) for g in f["generics"]): continue
        ls = f["body"]["locals"]
        if ls[0] != rgb or ls[1] != ("ref", False, ("adt", PB, (rgb,))) or ls[2] != F32 or ls[3] != F32: continue
        A = ck.run(f["path"], body=f, args={0: b, 1: u, 2: v}, opaque=abstract(b, {"kernel": 7}), unroll=20, required=False)
        if not A or not A.ok: continue
        for kind in TAPS:
            want = interp(b, u, v, kind, abspx)
            pairs = [(fix(index(raw(A.ret), C(c))), fix(want(c) if kind == "Lanczos3" else clamp01(want(c)))) for c in range(4)]
            pixels = lambda t: {z for z in tm.walk(t) if z.op == "index" and z.args[0] is D(b)}
            if pixels(pairs[0][0]) == pixels(pairs[0][1]) and same_all(pairs, (), 60):
                out[f["path"]] = kind
                break
    return out

def sampling(ck, b):
    F = ck.F
    nw, nh = sym("nw"), sym("nh")
    for s in (nw, nh): tm.BND[s] = (ZERO, T("inf"))
    X, Y = bounded("x", nw), bounded("y", nh)
    FM = dict(modes(F, "FilterMode"))
    i2f = lambda t: T("i2f", t)
    smp = samplers(ck, b)
    def sampled(kind, x, y): return tm.mkagg("adt:" + RGBP, "Rgb", arr([T("call", "sample", (kind, c), x, y) for c in range(4)]))
    def summary(level):
        if level == 2: return None
        base = abstract(b, {"kernel": 7})
        if level == 1: return base
        def opq(name, key):
            k = smp.get(name)
            if k: return lambda ret, v: sampled(k, v[1], v[2]) if v[0] is b else ret
            return base(name, key)
        return opq
    def judge(key, v, run, what, nch):
        """compare with the samplers summarised, then with the clamping accessors summarised, and only then with everything inlined"""
        for level in (0, 1, 2):
            if level == 0 and v not in smp.values(): continue       # no function of the code was recognised as this interpolation
            got, want, A, asm, fix = run(level, summary(level))
            if got is None: return 0
            mk = lambda got, want: [(got, want)] if nch is None else [(index(raw(got), C(c)), want(c)) for c in range(nch)]
            pairs = mk(got, want)
            if level == 2: break
            if level == 1 and fix: pairs = [(fix(simp(g, asm)), fix(simp(w, asm))) for g, w in pairs]
            ms = [[] if g is w or simp(g, asm) is simp(w, asm) else equiv(g, w, asm=asm, limit=300) for g, w in pairs]
            if not any(ms): break
            # the code does not go through the functions recognised as samplers: compare what it does itself
            if level == 0 and not any(z.op == "call" and z.args[0] == "sample" for g, w in pairs for z in tm.walk(g)): continue
            if any(m.sure for x in ms for m in x) and not any(z.op == "index" and z.args[0] is D(b) and not any(y.op == "call" and y.args[0] == "clamped" for y in tm.walk(z.args[1])) for g, w in pairs for z in tm.walk(g)):
                # the image is read through the summarised accessors alone: a difference here is one of the code, provided some image shows it
                got, want, A, asm, fix = run(2, None)
                full = mk(got, want) if got is not None else []
                hit = [i for i, (g, w) in enumerate(full) if ms[i] and any(m.sure for m in ms[i]) and witness.agree(g, w, asm, need=3000, tries=40000, budget=400000) is False]
                if hit:
                    for i in hit: ck.bad("%s/%d" % (key, i), "%s: %s" % (what, next(m for m in ms[i] if m.sure)), A.where)
                    return 1
        for c, (g, w) in enumerate(pairs): ck.eq("%s/%d" % (key, c), g, w, what, A.where, asm=asm, limit=600)
        return 1
    def value(v, level, x, y):
        """channel -> expected value of interpolation v at (x, y)"""
        if level == 0: return lambda c: T("call", "sample", (v, c), x, y)
        want = interp(b, x, y, v, near if level == 2 else abspx)
        return want if v == "Lanczos3" else lambda c: clamp01(want(c))
    XD, XS = X, xy(b)[0]
    def resize(v, same_w):
        X = XS if same_w else XD
        def run(level, opq):
            A = runop(ck, "resize", [b, W(b) if same_w else nw, nh, FM[v]], opaque=opq, unroll=20)
            if not A or not A.ok: return (None,) * 5
            asm = (not_(eq(H(b), nh)),) if same_w else (not_(eq(W(b), nw)),)
            got = index(simp(fld(A.ret, 2, "data"), asm), add(X, mul(Y, W(b) if same_w else nw)))
            rw = fc(1) if same_w else fmul(i2f(W(b)), tm.finv(i2f(nw)))
            rh = fmul(i2f(H(b)), tm.finv(i2f(nh)))
            if v == "Nearest":
                f = lambda p, r: T("f2i", "i32", T("f", "floor", fadd(fmul(i2f(p), r), C(HALF))))
                return got, (near if level == 2 else abspx)(b, f(X, rw), f(Y, rh)), A, asm, None
            gx = fsub(fmul(fadd(i2f(X), C(HALF)), rw), C(HALF))
            gy = fsub(fmul(fadd(i2f(Y), C(HALF)), rh), C(HALF))
            # the sampling position is an invertible linear image of the pixel position: name it
            q = lambda r: tm.finv(r) if not is_c(r) else r
            back = {i2f(X): fsub(fmul(fadd(sym("posx"), C(HALF)), fc(1) if same_w else fmul(i2f(nw), tm.finv(i2f(W(b))))), C(HALF)),
                    i2f(Y): fsub(fmul(fadd(sym("posy"), C(HALF)), fmul(i2f(nh), tm.finv(i2f(H(b))))), C(HALF))}
            fx = positions(sym("posx"), sym("posy"), None)
            return got, value(v, level, gx, gy), A, asm, lambda t: fx(tm.subst(t, back))
        return judge("resize/%s%s" % (v, "/same-width" if same_w else ""), v, run, "%s interpolation of the pixels around the sampled position" % v, None if v == "Nearest" else 4)
    def rotate(v):
        bg = sym("bg"); rad = sym("rad")
        XB, YB = xy(b)
        def run(level, opq):
            A = runop(ck, "rotate", [b, rad, bg, FM[v]], opaque=opq, unroll=20)
            if not A or not A.ok: return (None,) * 5
            ls = [l for l, pc in leaves(A.ret) if l is not b]
            if not ls:
                ck.unk("rotate/" + v, "no rotated image recognised", A.where); return (None,) * 5
            got = index(fld(ls[0], 2, "data"), add(XB, mul(YB, W(b))))
            import struct, math
            pi = Fraction(struct.unpack("<f", struct.pack("<f", math.pi))[0])
            a = fmul(rad, C(-pi / 180))
            s, co = T("f", "sin", a), T("f", "cos", a)
            cx, cy = fmul(fsub(i2f(W(b)), fc(1)), C(HALF)), fmul(fsub(i2f(H(b)), fc(1)), C(HALF))
            dx, dy = fsub(i2f(XB), cx), fsub(i2f(YB), cy)
            sx = fadd(fsub(fmul(dx, co), fmul(dy, s)), cx)
            sy = fadd(fadd(fmul(dx, s), fmul(dy, co)), cy)
            rnd = lambda t: T("f2i", "i32", T("f", "round", t))
            inn = and_(le(ZERO, rnd(sx)), lt(rnd(sx), W(b)), le(ZERO, rnd(sy)), lt(rnd(sy), H(b)))
            if v == "Nearest": return got, ite(inn, px(b, rnd(sx), rnd(sy)), bg), A, (), None
            val = value(v, level, sx, sy)
            return got, (lambda c: ite(inn, val(c), index(raw(bg), C(c)))), A, (), None
        return judge("rotate/" + v, v, run, "%s interpolation at the position rotated about the image centre, background outside" % v, None if v == "Nearest" else 4)
    kinds = ("Nearest", "Bilinear", "Bicubic", "Lanczos3")
    return [lambda v=v, s=s: resize(v, s) for v in kinds for s in (False, True)] + [lambda v=v: rotate(v) for v in kinds]

def split_cases(t, asm, depth=5):
    """(leaf, literals) of t under every outcome of its float comparisons that do not nest further conditionals"""
    at = next((z for z in tm.walk(t) if z.op == "flt0" and not any(y.op == "ite" for y in tm.walk(z)) and not any(y.op in ("lam",) for y in tm.walk(z))), None)
    if at is None or depth == 0: return [(t, asm)]
    out = []
    for a in (at, tm.not_(at)):
        ext = asm + tuple(lits_of((a,)))
        out += split_cases(deepcancel(simp(t, ext)), ext, depth - 1)
    return out

def uniforms(ck, b):
    """smoothing and sharpening keep a uniform image"""
    F = ck.F
    X, Y = xy(b)
    col = sym("col"); sigma = sym("sigma"); fac = sym("fac")
    cdata = arr([sym("col%d" % i) for i in range(4)])
    cv = tm.mkagg("adt:" + RGBP, "Rgb", cdata)
    none, some = tm.mkagg(tm.OPT, "None"), tm.mkagg(tm.OPT, "Some", sigma)
    FM = dict(modes(F, "FilterMode"))
    r01 = tuple(x for i in range(4) for x in (tm.not_(tm.flt(sym("col%d" % i), F0)), tm.not_(tm.flt(F1, sym("col%d" % i)))))
    ne = tuple(lits_of((lt(ZERO, W(b)), lt(ZERO, H(b)))))
    def chk(key, nm, args, n=0, unroll=60, env=None):
        A = runop(ck, nm, args, opaque=windows(b, n) if n else windows(b, 0), unroll=unroll)
        if not A or not A.ok: return 0
        got = index(fld(A.ret, 2, "data"), add(X, mul(Y, W(b))))
        for c in range(4):
            g = deepcancel(simp(uniform(index(raw(got), C(c)), b, cv), r01 + ne))
            cs = split_cases(g, r01 + ne) if any(z.op == "ite" for z in tm.walk(g)) else [(g, r01 + ne)]
            for i, (l, asm) in enumerate(cs):
                ck.eq("%s/uniform/%d%s" % (key, c, "/%d" % i if i else ""), l, sym("col%d" % c), "a uniform image stays as it is (channel %d)" % c, A.where, asm=asm, limit=800)
        return 1
    parts = []
    for r in (1, 2, 3, 4):
        for s, t in ((some, "sigma"), (none, "default")):
            parts.append(lambda r=r, s=s, t=t: chk("gaussian_blur/%d/%s" % (r, t), "gaussian_blur", [b, C(r), s], 2 * r + 1, 90))
    for r in (1, 2):
        parts.append(lambda r=r: chk("unsharp/%d" % r, "unsharp", [b, C(r), fac, some], 0, 60))
    for r in (0, 1, 2):
        for wc in (TRUE, FALSE):
            parts.append(lambda r=r, wc=wc: chk("symmetric_nearest_neighbor/%d/%s" % (r, wc is TRUE), "symmetric_nearest_neighbor", [b, C(r), wc], 0, 20))
    parts.append(lambda: chk("despeckle", "despeckle", [b, sym("thr"), sym("amount")], 3, 20))
    return parts

def despeckle(ck, b):
    """dark pixels among few dark ones become the mean of their bright neighbours; all others stay"""
    X, Y = xy(b)
    thr, amount = sym("thr"), sym("amount")
    A = runop(ck, "despeckle", [b, thr, amount], opaque=abstract(b, {"kernel": 3}), unroll=20)
    if not A or not A.ok: return 0
    got = index(fld(A.ret, 2, "data"), add(X, mul(Y, W(b))))
    P = [abspx(b, add(X, C(i - 1)), add(Y, C(j - 1))) for j in range(3) for i in range(3)]
    centre = px(b, X, Y)
    if any(z.op == "index" and z.args[0] is D(b) and z not in P and z is not centre for z in tm.walk(got)):
        ck.unk("despeckle/form", "the neighbourhood is not read through the 3x3 window", A.where); return 1
    third = C(Fraction(1, 3))
    def dark(p):
        avg = fsum(index(raw(p), C(c)) for c in range(3))
        return [flt(fmul(avg, third), thr), flt(avg, fmul(fc(3), thr))]
    flags = [dark(p) for p in P]; cflag = dark(centre)
    n = 0
    sets = [set(range(9)), {4}] + [{4, i} for i in range(9) if i != 4] + [{4, i, (i + 4) % 9, (2 * i + 1) % 9} for i in range(9)] + [set(range(9)) - {i} for i in range(9) if i != 4]
    for k, ds in enumerate(sets):
        m = {}
        for i in range(9):
            for f in flags[i] + (cflag if i == 4 else []): m[f] = TRUE if i in ds else FALSE
        g = tm.subst(got, m)
        g = simp(tm.subst(g, {P[4]: centre}), ())
        cnt = len(ds)
        bright = [P[i] if i != 4 else centre for i in range(9) if i not in ds]
        for c in range(4):
            own = index(raw(centre), C(c))
            mean = clamp01(fmul(fsum(index(raw(p), C(c)) for p in bright), C(Fraction(1, 9 - cnt)))) if cnt < 9 and c < 3 else clamp01(own) if cnt < 9 else own
            if c == 3: mean = own
            v = index(raw(g), C(c))
            r01 = (not_(flt(own, F0)), not_(flt(F1, own)))
            if any(z.op == "flt0" and any(y.op == "sym" and y is thr for y in tm.walk(z)) for z in tm.walk(v)):
                ck.unk("despeckle/form", "the brightness test is not in a known form", A.where); return 1
            ck.eq("despeckle/%d/%d" % (k, c), v, ite(lt(amount, C(cnt)), own, mean) if cnt < 9 else own, "with %d dark pixels around (channel %d): mean of the bright ones if there are at most `amount` dark, else unchanged" % (cnt, c), A.where, asm=r01)
        n += 1
    # a bright pixel is kept
    for c in range(4):
        ck.eq("despeckle/bright/%d" % c, index(raw(tm.subst(got, {f: FALSE for f in cflag})), C(c)), index(raw(centre), C(c)), "a pixel that is not dark is kept", A.where)
    return 1

def C34(ck):
    b = buffer("img")
    parts = convolution(ck, b) + gaussians(ck) + sampling(ck, b) + uniforms(ck, b) + [lambda: despeckle(ck, b)]
    n = sum(x or 0 for x in ck.par(parts))
    ck.floor("weighted operations", n, len(parts))

RULES = {"C34": (C34, "Convolution (static and dynamic kernels of several odd, even and rectangular sizes), Gaussian kernels, bilinear/bicubic/nearest resizing and rotation are abstractly evaluated for a symbolic image and position; each channel's closed form is compared, as a polynomial, with the sum of every weight times the pixel at its offset; Gaussian weights must sum to one and be symmetric; smoothing and sharpening a symbolic uniform image must give its colour.")}

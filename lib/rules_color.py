"""Rules over the colour types of d10-core: alpha, ranges, conversion routes, constants, divisions."""
from fw import *
import equiv, witness
import term as tm
import models
from rules_core import lits_of, W, H, D, COLORS, buffer, px, xy, color, chan, data_of, clamp01, CP, CT, F0, F1, EPS, tpath, valid

LABS = ("lab::Lab", "lab::Lch")
TARGET = {"to_rgb": "rgb::Rgb", "to_srgb": "srgb::Srgb", "to_hsl": "hsl::Hsl", "to_hsv": "hsv::Hsv", "to_yuv": "yuv::Yuv",
          "to_xyz": "xyz::Xyz", "to_lab": "lab::Lab", "to_lch": "lab::Lch"}
IL, OB = CP + "lab::illuminant::", CP + "lab::observer::"
D65 = (("adt", IL + "D65", ()), ("adt", OB + "O2", ()))
def cty(ty, io=D65): return ("adt", CP + ty, io if ty in LABS else ())

def convert(ck, ty, m, v, io=D65, to=None, opaque=None, required=True):
    """abstract evaluation of colour method m on value v of type ty"""
    F = ck.F
    own = F.fn(tpath(ty, m))
    to = (to if to is not None else io) if TARGET.get(m) in LABS else ()
    if own is not None:
        return ck.run(own["path"], body=own, args={0: v}, env=tuple(io if ty in LABS else ()) + tuple(to), opaque=opaque)
    b = F.fn(CT + "::" + m)
    if b is None:
        if required: ck.bad("anchor/" + m, "no conversion %s" % m)
        return None
    return ck.run(b["path"], body=b, args={0: v}, env=(cty(ty, io),) + tuple(to), opaque=opaque)

# ---- C08 ----------------------------------------------------------------------
def alpha_color(F, ty, name):
    """a symbolic colour whose alpha is some value within 0..1"""
    cs = [sym("%s_%d" % (name, i)) for i in range(3)]
    a = clamp01(sym(name + "_alpha"))
    return color(F, ty, name, cs + [a]), a
def colour_of(F, t):
    """name of the colour type of an ADT type, or None"""
    return t[1][len(CP):] if t and t[0] == "adt" and t[1].startswith(CP) and t[1][len(CP):] in COLORS else None
def self_type(t): return t[2] if t and t[0] == "ref" else t
def methods(F, keep):
    """public inherent methods of colour types returning a colour of the same type"""
    for k in sorted(F.bodies):
        b = F.bodies[k]
        if b["crate"] != "d10_core" or not b["reach"] or b["kind"] != "fn" or b["trait"] or not b["self"]: continue
        ty = colour_of(F, b["self"])
        if ty is None or not b["path"].startswith(CP + ty + "::"): continue
        bd = b["body"]
        if bd["argc"] < 1 or colour_of(F, self_type(bd["locals"][1])) != ty or colour_of(F, bd["locals"][0]) != ty: continue
        if keep(b["name"]): yield ty, b
def conv_summary(F):
    """conversions leave alpha alone (first part of this check)"""
    def op(n, k):
        m = n.rsplit("::", 1)[-1]
        if m not in TARGET or not (n.startswith(CT + "::") or n.endswith("Color>::" + m)): return False
        def f(ret, vals):
            v = vals[0]
            ty = v.args[0][4 + len(CP):] if v.op == "agg" and v.args[0].startswith("adt:" + CP) else "rgb::Rgb"
            return color(F, TARGET[m], "", [chan(F, TARGET[m], ret, i) for i in range(3)] + [chan(F, ty, v, 3)])
        return f
    return op
def C08(ck):
    F = ck.F
    n = 0
    for ty in COLORS:
        c, a = alpha_color(F, ty, "c")
        for m, to in TARGET.items():
            A = convert(ck, ty, m, c)
            if not A or not A.ok: continue
            n += 1
            ck.eq("convert/%s/%s" % (ty, m), chan(F, to, A.ret, 3), a, "%s of a %s keeps alpha" % (m, ty.split("::")[-1]), A.where)
        # the channel map gives the function's error or a colour with the same alpha
        own = ck.find(tpath(ty, "try_map_color_channels"))
        if own is not None:
            io = D65 if ty in LABS else ()
            A = ck.run(own["path"], body=own, args={0: c, 1: sym("func")}, env=tuple(io) + (("param", 8, "E"), ("param", 9, "F")))
            if A and A.ok:
                from rules_ops import ok_value
                v = ok_value(A.ret)
                n += 1
                if v is None: ck.unk("map/" + ty, show(A.ret)[:200], A.where)
                else: ck.eq("map/" + ty, chan(F, ty, v, 3), a, "try_map_color_channels keeps alpha", A.where)
        A = ck.run(CT + "::map_color_channels", args={0: c, 1: sym("func")}, env=(cty(ty), ("param", 9, "F")))
        if A and A.ok:
            n += 1
            v = pick(A.ret)
            ck.eq("mapc/" + ty, chan(F, ty, v, 3), a, "map_color_channels keeps alpha", A.where)
    # colour operations
    k = 0
    for ty, b in methods(F, lambda nm: nm not in ("difference", "alpha_blend", "with_alpha")):
        c, a = alpha_color(F, ty, "c")
        A = ck.run(b["path"], body=b, args={0: c})
        if not A or not A.ok: continue
        k += 1
        got = chan(F, ty, A.ret, 3)
        ck.eq("method/%s/%s" % (ty, b["name"]), got, a, "%s keeps alpha" % b["name"], A.where)
    ck.floor("conversions and channel maps", n, 80)
    ck.floor("colour operations", k, 40)
    # image operations
    from rules_ops import runop, modes, op
    im = buffer("img")
    x, y = xy(im)
    P, al = sym, clamp01(sym("alpha_xy"))
    ops = [("gaussian_noise", [im, P("a")]), ("random_noise", [im, P("a")]), ("rgb_noise", [im, P("a")]), ("stretch_contrast", [im, P("t")]),
           ("change_color_temperature", [im, P("x"), P("y"), P("z")]), ("optimize_color_temperature", [im, P("x"), P("y")]), ("optimize_lightness", [im, P("f")])]
    for nm, en, args in (("balance", "BalanceMode", [P("t")]), ("equalize", "EqualizeMode", [])):
        for v, val in modes(F, en): ops.append((nm, [im, val] + args, v))
    for v, val in modes(F, "SaturationMode"): ops.append(("optimize_saturation", [im, P("o"), val], v))
    def one(it):
        nm, args = it[:2]
        b = op(ck, nm)
        if b is None: return 0
        env = [("param", g[0], g[1]) for g in b["generics"]]
        pt = pixel_type(b["body"]["locals"][1])
        if pt and pt[0] == "param": env = [cty("rgb::Rgb") if g[0] == pt[1] else e for e, g in zip(env, b["generics"])]
        A = runop(ck, nm, args, opaque=conv_summary(F), env=tuple(env))
        if not A or not A.ok: return 0
        key = nm + ("/" + it[2] if len(it) > 2 else "")
        a0 = chan(F, "rgb::Rgb", px(im, x, y), 3)
        got = chan(F, "rgb::Rgb", index(fld(A.ret, 2, "data"), add(x, mul(y, W(im)))), 3)
        ck.eq("image/" + key, subst(got, {a0: al}), al, "%s keeps the alpha of each pixel" % key, A.where)
        return 1
    j = sum(v or 0 for v in ck.par([lambda it=it: one(it) for it in ops]))
    ck.floor("image operations", j, 18)
def pixel_type(t):
    """type of the pixels of a PixelBuffer type (behind references)"""
    while t and t[0] == "ref": t = t[2]
    return t[2][0] if t and t[0] == "adt" and t[1].endswith("::PixelBuffer") else None
def pick(t):
    """value of a result whose failing branches diverge"""
    return t

# ---- C19 ----------------------------------------------------------------------
INF = float("inf")
def interval(t, memo=None):
    """(lo, hi) of a float term: constants, bounds, sums, products, powers of values within 0..1"""
    memo = {} if memo is None else memo
    if t in memo: return memo[t]
    r = _interval(t, memo)
    memo[t] = r
    return r
def _mul(a, b):
    v = [0.0 if x == 0 or y == 0 else x * y for x in a for y in b]
    return min(v), max(v)
def _interval(t, memo):
    iv = lambda x: interval(x, memo)
    if is_f(t): return float(cval(t)), float(cval(t))
    if t.op == "ite":
        r = [iv(x) for x in t.args[1:3]]
        return min(r[0][0], r[1][0]), max(r[0][1], r[1][1])
    if t.op in ("fmin", "fmax"):
        r = [iv(x) for x in t.args]
        f = min if t.op == "fmin" else max
        return f(x[0] for x in r), f(x[1] for x in r)
    if t.op == "fpoly":
        lo = hi = 0.0
        for mono, c in t.args[0]:
            r = (1.0, 1.0)
            for x in mono: r = _mul(r, iv(x))
            r = _mul(r, (float(c), float(c)))
            lo += r[0]; hi += r[1]
        return (lo, hi) if lo == lo and hi == hi else (-INF, INF)
    if t.op == "f":
        a = t.args[0]
        if a == "abs":
            l, h = iv(t.args[1])
            return (0.0 if l <= 0 <= h else min(abs(l), abs(h))), max(abs(l), abs(h))
        if a == "sqrt":
            l, h = iv(t.args[1])
            return (max(l, 0.0) ** .5 if l < INF else INF), (max(h, 0.0) ** .5 if h < INF else INF)
        if a in ("sin", "cos"): return -1.0, 1.0
        if a in ("powf", "pow", "powi"):
            b, e = iv(t.args[1]), iv(t.args[2])
            if b[0] >= 0 and b[1] <= 1 and e[0] >= 0: return 0.0, 1.0
            if b[0] >= 0: return 0.0, INF
    return -INF, INF
TOL = 1e-6
def inside01(t):
    l, h = interval(t)
    return l >= -TOL and h <= 1 + TOL
def C19(ck):
    F = ck.F
    n = 0
    def chk(key, ty, v, where, alpha=True, what="", asm=None):
        for i in range(4 if alpha else 3):
            t = chan(F, ty, v, i)
            if inside01(t): ck.ok("%s/%d" % (key, i), what, where); continue
            l, h = interval(t)
            # a component that is free to leave the range on some path
            esc = []
            for z, pc in split(t):
                if inside01(z): continue
                ls = tuple(q for p in pc for q in lits_of((p,)))
                a, b = interval(z)
                if (a >= -TOL or equiv.implied(ls, tm.flt(z, F0)) is FALSE) and (b <= 1 + TOL or equiv.implied(ls, tm.flt(F1, z)) is FALSE): continue
                if len(show(z)) < 20000 and not equiv.equiv(z, clamp01(z), asm=ls): continue
                esc.append((z, not witness.agree(z, clamp01(z), ls)))
            if not esc: ck.ok("%s/%d" % (key, i), what, where); continue
            sure = any(z.op in ("sym", "fpoly", "index", "fmin", "fmax", "call") and not any(q.op in ("finv", "f", "fmulx") for q in tm.walk(z)) or is_f(z) for z, w in esc if w)
            (ck.bad if sure else ck.unk)("%s/%d" % (key, i), "%s: channel %d is %s, not bound to 0..1" % (what, i, show(esc[0][0])[:200]), where)
    for ty in ("rgb::Rgb", "srgb::Srgb"):
        for b in sorted(F.bodies.values(), key=lambda b: b["path"]):
            if not (b["crate"] == "d10_core" and b["reach"] and b["kind"] == "fn" and not b["trait"] and b["path"].startswith(CP + ty + "::new") and colour_of(F, b["body"]["locals"][0]) == ty): continue
            A = ck.run(b["path"], body=b)
            if A and A.ok: n += 1; chk("new/%s/%s" % (ty, b["name"]), ty, A.ret, A.where, what="constructor %s" % b["name"])
        own = ck.find(tpath(ty, "try_map_color_channels"))
        c, a = alpha_color(F, ty, "c")
        if own is not None:
            from rules_ops import ok_value
            A = ck.run(own["path"], body=own, args={0: c, 1: sym("func")}, env=(("param", 8, "E"), ("param", 9, "F")))
            if A and A.ok:
                v = ok_value(A.ret)
                n += 1
                if v is None: ck.unk("map/" + ty, show(A.ret)[:200], A.where)
                else: chk("map/" + ty, ty, v, A.where, what="mapped channels")
    CL = ("map_channels", "with_gamma", "with_gamma_opt", "with_level", "with_brightness", "with_contrast", "with_brightness_contrast", "with_sepia", "with_saturation",
          "stretch_saturation", "with_gamma_saturation", "with_lightness", "with_hue_rotate", "with_vibrance", "modulate", "alpha_blend")
    UNIT = ("invert", "to_gray", "to_gray_with_intensity", "difference")
    done = set()
    for ty, b in methods(F, lambda nm: nm in CL + UNIT):
        if ty != "rgb::Rgb": continue
        c, a = alpha_color(F, ty, "c")
        if b["name"] in UNIT: c = color(F, ty, "c", [clamp01(sym("c_%d" % i)) for i in range(3)] + [a])
        d, a2 = alpha_color(F, ty, "d")
        d = color(F, ty, "d", [clamp01(sym("d_%d" % i)) for i in range(3)] + [a2]) if b["name"] in UNIT else d
        args = {0: c}
        for i in range(1, b["body"]["argc"]):
            if colour_of(F, self_type(b["body"]["locals"][i + 1])) == ty: args[i] = d
        done.add(b["name"])
        from rules_ops import modes
        # (the saturation intensity is a quotient, out of reach of the interval analysis)
        for v, val in [(v, val) for v, val in modes(F, "Intensity") if v != "Saturation"] if b["name"] == "to_gray_with_intensity" else [("", None)]:
            if val is not None: args[1] = val
            A = ck.run(b["path"], body=b, args=args)
            if not A or not A.ok: continue
            n += 1
            chk("method/" + b["name"] + v, ty, A.ret, A.where, what="%s %s of %s" % (b["name"], v, "a colour within 0..1" if b["name"] in UNIT else "any colour"))
    for nm in CL + UNIT:
        if nm not in done and not ck.gave_up: ck.bad("method/" + nm, "no public colour operation %s" % nm)
    for ty in COLORS:
        c, a = alpha_color(F, ty, "c")
        for m in ("to_rgb", "to_srgb"):
            if TARGET[m] == ty or (ty, m) == ("hsv::Hsv", "to_rgb"): continue
            A = convert(ck, ty, m, c)
            if not A or not A.ok: continue
            n += 1
            chk("convert/%s/%s" % (ty, m), TARGET[m], A.ret, A.where, what="%s of %s" % (m, ty))
    # gray HSV colours keep their value: within 0..1 for a value within 0..1
    c = color(F, "hsv::Hsv", "c", [sym("c_0"), sym("c_1"), clamp01(sym("c_2")), clamp01(sym("c_alpha"))])
    A = convert(ck, "hsv::Hsv", "to_rgb", c)
    if A and A.ok: n += 1; chk("convert/hsv/to_rgb", "rgb::Rgb", A.ret, A.where, what="to_rgb of an HSV colour with a value within 0..1")
    # blending: every public blend function of two colours
    k = 0
    for b in sorted(F.bodies.values(), key=lambda b: b["path"]):
        if b["crate"] != "d10_ops" or not b["reach"] or b["kind"] != "fn" or b["trait"]: continue
        bd = b["body"]
        if colour_of(F, bd["locals"][0]) != "rgb::Rgb" or bd["argc"] != 3 or any(colour_of(F, self_type(bd["locals"][i])) != "rgb::Rgb" for i in (1, 2)) or not b["name"].startswith("blend_"): continue
        c, a = alpha_color(F, "rgb::Rgb", "c"); d, a2 = alpha_color(F, "rgb::Rgb", "d")
        A = ck.run(b["path"], body=b, args={0: c, 1: d, 2: clamp01(sym("intensity"))})
        if not A or not A.ok: continue
        k += 1
        chk("blend/" + b["name"], "rgb::Rgb", A.ret, A.where, what=b["name"])
    ck.floor("clamping operations", n, 36)
    ck.floor("blend functions", k, 10)
def split(t, pc=()):
    if t.op == "ite":
        yield from split(t.args[1], pc + (t.args[0],))
        yield from split(t.args[2], pc + (not_(t.args[0]),))
    else: yield t, pc

# ---- C21 ----------------------------------------------------------------------
OWN = {v: k for k, v in TARGET.items()}
ADAPT = {m: "into_" + m[3:] for m in TARGET}
WHITES = {("D50", "O2"): (0.96422, 1.0, 0.82521), ("D50", "O10"): (0.96720, 1.0, 0.81427), ("D65", "O2"): (0.95047, 1.0, 1.08883),
          ("D65", "O10"): (0.94811, 1.0, 1.07304), ("E", "O2"): (1.0, 1.0, 1.0), ("E", "O10"): (1.0, 1.0, 1.0)}
def io_of(i, o): return (("adt", IL + i, ()), ("adt", OB + o, ()))
def C21(ck):
    F = ck.F
    base = {}
    def direct(ty, m, v):
        A = convert(ck, ty, m, v)
        return A.ret if A and A.ok else None
    def same(key, to, got, want, what, where):
        if want is None: return
        for i in range(4): ck.eq("%s/%d" % (key, i), chan(F, to, got, i), chan(F, to, want, i), what, where)
    # standard conversion traits
    n = 0
    for b in sorted((b for b in F.bodies.values() if b["path"].endswith(" as core::convert::From>::from") and b["crate"] == "d10_core"), key=lambda b: b["key"]):
        to, ty = colour_of(F, b["self"]), colour_of(F, b["body"]["locals"][1])
        if to is None or ty is None: continue
        c = color(F, ty, "c")
        A = ck.run(b["path"], body=b, args={0: c})
        if not A or not A.ok: continue
        n += 1
        same("from/%s->%s" % (ty, to), to, A.ret, direct(ty, OWN[to], c), "the standard conversion equals %s" % OWN[to], A.where)
    ck.floor("standard conversions", n, 56)
    # a colour's own space
    for ty, m in OWN.items():
        if ty in LABS: continue
        c = color(F, ty, "c")
        A = convert(ck, ty, m, c)
        if A and A.ok: same("own/" + ty, ty, A.ret, c, "%s of %s returns the colour" % (m, ty), A.where)
    # chains of primitive conversions
    k = 0
    for ty in COLORS:
        for m, to in TARGET.items():
            if to == ty and ty not in LABS: continue
            via = {"to_rgb": "to_lab" if ty == "lab::Lch" else "to_xyz" if ty == "lab::Lab" else None, "to_yuv": "to_srgb", "to_lab": "to_xyz", "to_lch": "to_lab"}.get(m, "to_rgb")
            if m == "to_xyz" and ty in LABS or via is None or TARGET[via] == ty and (ty, m) != ("lab::Lab", "to_lch"): continue
            if ty == "rgb::Rgb" and via == "to_rgb": continue
            c = color(F, ty, "c")
            A, B = convert(ck, ty, m, c), convert(ck, ty, via, c)
            if not (A and A.ok and B and B.ok): continue
            k += 1
            if m == "to_lch":
                l_, a_, b_, al = [chan(F, "lab::Lab", B.ret, q) for q in range(4)]
                want = color(F, to, "", [l_, T("f", "sqrt", fadd(fmul(a_, a_), fmul(b_, b_))), T("f", "atan2", b_, a_), al])
            else: want = direct(TARGET[via], m, B.ret)
            same("chain/%s/%s" % (ty, m), to, A.ret, want, "%s of %s is %s of its %s" % (m, ty, m, via), A.where)
    ck.floor("chained conversions", k, 40)
    # buffers and iterator adaptors
    # (generic over the colour type; the target space and the illuminant are fixed by the return type)
    from rules_ops import PBT
    j = 0
    bf = buffer("img")
    x, y = xy(bf)
    p = px(bf, x, y)
    i = add(x, mul(y, W(bf)))
    def untype(t):
        m = {z: T("call", z.args[0], (), *z.args[2:]) for z in tm.walk(t) if z.op == "call" and z.args[0].startswith(CT + "::")}
        return subst(t, m) if m else t
    for m, to in TARGET.items():
        want = T("call", CT + "::" + m, (), p)
        b = ck.find(PBT + "::" + m)
        if b is not None:
            A = ck.run(b["path"], body=b, args={0: bf})
            if A and A.ok:
                j += 1
                ck.eq("buffer/%s/width" % m, W(A.ret), W(bf), "same width", A.where)
                ck.eq("buffer/%s/height" % m, H(A.ret), H(bf), "same height", A.where)
                ck.eq("buffer/%s/count" % m, seqlen(D(A.ret)), mul(W(bf), H(bf)), "one result per pixel", A.where, asm=(valid(W(bf), H(bf)),))
                ck.eq("buffer/%s/pixel" % m, untype(index(D(A.ret), i)), want, "pixel (x, y) is converted by %s" % m, A.where)
        it = T("iter", T("sseq", D(bf)), ZERO)
        for trait in ("ColorIter", "ColorIterRef"):
            b = ck.find(CP + "iter::%s::%s" % (trait, ADAPT[m]))
            if b is None: continue
            A = ck.run(b["path"], body=b, args={0: it})
            if not A or not A.ok: continue
            r = models.to_seq(ctx(A), A.ret, A.st)
            key = "iter/%s/%s" % (trait, m)
            if r is None: ck.unk(key, "items of %s" % show(A.ret)[:150], A.where); continue
            j += 1
            ck.eq(key + "/count", seqlen(r[0]), seqlen(D(bf)), "one result per item", A.where)
            ck.eq(key + "/item", untype(index(r[0], i)), want, "each item is converted by %s, in order" % m, A.where)
    ck.floor("buffer and iterator routes", j, 20)
    # reference whites: every illuminant and observer, in both directions
    w = 0
    for (il, ob), ref in WHITES.items():
        io = io_of(il, ob)
        white = color(F, "lab::Lab", "w", [C(1.0), C(0.0), C(0.0), C(1.0)])
        A = convert(ck, "lab::Lab", "to_xyz", white, io=io)
        if not A or not A.ok: continue
        w += 1
        got = [chan(F, "xyz::Xyz", A.ret, q) for q in range(3)]
        if not all(is_f(g) for g in got): ck.unk("white/%s/%s" % (il, ob), "white is %s" % [show(g)[:60] for g in got], A.where); continue
        ck.need("white/%s/%s" % (il, ob), all(abs(float(cval(g)) - r) < 1e-3 for g, r in zip(got, ref)), "white of %s for %s: %s" % (il, ob, [float(cval(g)) for g in got]), A.where)
        B = convert(ck, "xyz::Xyz", "to_lab", color(F, "xyz::Xyz", "w", got + [C(1.0)]), to=io)
        if B and B.ok:
            back = [chan(F, "lab::Lab", B.ret, q) for q in range(3)]
            for q, v in enumerate((1.0, 0.0, 0.0)):
                if is_f(back[q]): ck.need("white-back/%s/%s/%d" % (il, ob, q), abs(float(cval(back[q])) - v) < 1e-4, "the white of %s/%s converts to L=1, a=b=0: %s" % (il, ob, show(back[q])), B.where)
                else: ck.unk("white-back/%s/%s/%d" % (il, ob, q), show(back[q])[:200], B.where)
    ck.floor("reference whites", w, 6)

# ---- C22 ----------------------------------------------------------------------
def unclamp(t):
    """the value clamped by fmin/fmax with constants"""
    while t.op in ("fmin", "fmax"):
        r = [x for x in t.args if not is_f(x)]
        if len(r) != 1: break
        t = r[0]
    return t
def linear(t, vs):
    """(coefficients of vs, constant) of a linear float term, or None"""
    if t is None: return None
    t = unclamp(t)
    k, c0 = [0.0] * len(vs), 0.0
    for mono, c in dict(to_fpoly(t)).items():
        if len(mono) == 0: c0 = float(c)
        elif len(mono) == 1 and mono[0] in vs: k[vs.index(mono[0])] = float(c)
        else: return None
    return k, c0
def matrix(ts, vs):
    r = [linear(t, vs) for t in ts]
    return None if any(x is None for x in r) else r
def mmul(m, n):
    """composition of affine maps: m after n"""
    return [([sum(a[j] * n[j][0][i] for j in range(len(n))) for i in range(len(n[0][0]))], sum(a[j] * n[j][1] for j in range(len(n))) + c) for a, c in m]
def has_pow(t): return any(z.op == "f" and z.args[0] in ("powf", "pow", "powi", "cbrt", "sqrt") for z in tm.walk(t))
def leaf(t, power):
    """t with every piecewise part replaced by its power (or its linear) branch"""
    for _ in range(12):
        it = [z for z in tm.walk(t) if z.op == "ite"]
        if not it: return t
        z = it[0]
        if has_pow(z.args[1]) == has_pow(z.args[2]): return None
        t = subst(t, {z: z.args[1] if has_pow(z.args[1]) == power else z.args[2]})
    return None
def power(t):
    """(base, exponent) of a power term"""
    if t.op == "f" and t.args[0] in ("powf", "pow") and is_f(t.args[2]): return t.args[1], float(cval(t.args[2]))
    if t.op == "f" and t.args[0] == "powi" and t.args[2].op == "c": return t.args[1], float(cval(t.args[2]))
    if t.op == "f" and t.args[0] == "sqrt": return t.args[1], .5
    if t.op == "f" and t.args[0] == "cbrt": return t.args[1], 1 / 3
    return None
def affine_power(t):
    """(A, base, exponent, B) with t = A * base ** exponent + B"""
    ps = [z for z in tm.walk(t) if power(z)]
    if len(set(ps)) != 1: return None
    r = linear(t, [ps[0]])
    return None if r is None else (r[0][0],) + power(ps[0]) + (r[1],)
def cond_of(t):
    """the only condition deciding between the branches"""
    c = {z.args[0] for z in tm.walk(t) if z.op == "ite"}
    if len(c) != 1: return None
    c = c.pop()
    while c.op == "not": c = c.args[0]
    return c.args[0] if c.op == "flt0" else None
def C22(ck):
    F = ck.F
    V = [sym("c_%d" % i) for i in range(3)]
    n = 0
    def chans(ty, m, io=D65, to=None, opaque=None, v=None):
        A = convert(ck, ty, m, color(F, ty, "c") if v is None else v, io=io, to=to, opaque=opaque)
        if not A or not A.ok: return None, ""
        return [chan(F, TARGET[m], A.ret, q) for q in range(3)], A.where
    def near(key, got, want, tol, what, where):
        ck.need(key, abs(got - want) <= tol, "%s: %.7g, expected %.7g within %g" % (what, got, want, tol), where)
    def inverse(key, f, g, tol, where):
        """affine maps f, g: g after f is the identity"""
        p = mmul(g, f)
        for i, (a, c) in enumerate(p):
            for j, v in enumerate(a): near("%s/%d%d" % (key, i, j), v, 1.0 if i == j else 0.0, tol, "product of the forward and the inverse matrix, entry %d %d" % (i, j), where)
            near("%s/%d" % (key, i), c, 0.0, tol, "offset %d of the forward and the inverse map" % i, where)
    # RGB and XYZ
    f, w = chans("rgb::Rgb", "to_xyz"); g, w2 = chans("xyz::Xyz", "to_rgb")
    if f and g:
        f, g = matrix(f, V), matrix(g, V)
        if f and g: n += 1; inverse("xyz", f, g, 1e-5, w2)
        else: ck.unk("xyz", "the conversions are not linear", w2)
        if f: near("luma/xyz", sum(f[1][0]), 1.0, 1e-4, "sum of the luminance weights", w)
    # sRGB and YUV
    at = {}
    def stop(nm, key):
        if "srgb::Srgb as" in nm and nm.rsplit("::", 1)[-1] == "to_rgb" or nm == CT + "::to_rgb":
            def h(ret, vals):
                at["v"] = vals[0]
                return color(F, "rgb::Rgb", "", [sym("z%d" % i) for i in range(4)])
            return h
        return False
    f, w = chans("srgb::Srgb", "to_yuv"); chans("yuv::Yuv", "to_rgb", opaque=stop)
    B = ck.F.fn(tpath("yuv::Yuv", "to_rgb"))
    if f and B:
        w2 = "%s:%s" % (B["file"], B["line"])
        if "v" not in at or at["v"].op != "agg": ck.unk("yuv", "the inverse does not end in the sRGB conversion", w2)
        else:
            g = [chan(F, "srgb::Srgb", at["v"], q) for q in range(3)]
            f, g = matrix(f, V), matrix(g, V)
            if f and g: n += 1; inverse("yuv", f, g, 1e-5, w2)
            else: ck.unk("yuv", "the conversions are not linear", w2)
            if f:
                near("luma/yuv", sum(f[0][0]), 1.0, 1e-6, "sum of the luma weights", w)
                for i in (1, 2): near("luma/yuv/gray%d" % i, sum(f[i][0]), 0.0, 1e-6, "gray has no chroma", w)
    # sRGB transfer function
    f, w = chans("rgb::Rgb", "to_srgb"); g, w2 = chans("srgb::Srgb", "to_rgb")
    if f and g:
        for q in range(3):
            ft, gt = unclamp(f[q]), unclamp(g[q])
            parts = [leaf(ft, True), leaf(ft, False), leaf(gt, True), leaf(gt, False)]
            fc, gc = cond_of(ft), cond_of(gt)
            if any(p is None for p in parts + [fc, gc]): ck.unk("srgb/%d" % q, "not a two-piece function", w2); continue
            fp, gp = affine_power(parts[0]), affine_power(parts[2])
            fl, gl = linear(parts[1], [V[q]]), linear(parts[3], [V[q]])
            fk, gk = linear(fc, [V[q]]), linear(gc, [V[q]])
            if any(p is None for p in (fp, gp, fl, gl, fk, gk)) or not fk[0][0] or not gk[0][0]: ck.unk("srgb/%d" % q, "unknown shape", w2); continue
            n += 1
            A, fb, e, B = fp
            A2, gb, e2, B2 = gp
            fb, gb = linear(fb, [V[q]]), linear(gb, [V[q]])
            if fb is None or gb is None: ck.unk("srgb/%d" % q, "unknown shape", w2); continue
            k = "srgb/%d/" % q
            near(k + "slope", fl[0][0] * gl[0][0], 1.0, 1e-5, "product of the linear slopes", w2)
            near(k + "offset", abs(fl[1]) + abs(gl[1]), 0.0, 1e-6, "offset of the linear parts", w2)
            near(k + "exponent", e * e2, 1.0, 1e-4, "product of the exponents", w2)
            near(k + "scale", gb[0][0] * A, 1.0, 1e-5, "scale of the power part", w2)
            near(k + "shift", gb[0][0] * B + gb[1], 0.0, 1e-5, "shift of the power part", w2)
            near(k + "gain", A2, 1.0, 1e-5, "gain of the inverse power part", w2)
            near(k + "base", abs(fb[0][0] - 1.0) + abs(fb[1]) + abs(B2), 0.0, 1e-5, "base of the forward power part", w)
            tf, tg = -fk[1] / fk[0][0], -gk[1] / gk[0][0]
            near(k + "threshold", tf * fl[0][0], tg, 1e-3 * abs(tg) + 1e-4, "thresholds of the two directions", w2)
            # both pieces meet there
            near(k + "meet", A * max(fb[0][0] * tf + fb[1], 0) ** e + B, fl[0][0] * tf + fl[1], 1e-4, "the pieces of the forward function meet", w)
            near(k + "meet-back", A2 * max(gb[0][0] * tg + gb[1], 0) ** e2 + B2, gl[0][0] * tg + gl[1], 1e-4, "the pieces of the inverse function meet", w2)
    # Lab for every illuminant and observer
    for il, ob in WHITES:
        io = io_of(il, ob)
        k = "lab/%s/%s/" % (il, ob)
        f, w = chans("xyz::Xyz", "to_lab", to=io); g, w2 = chans("lab::Lab", "to_xyz", io=io)
        if not f or not g: continue
        fl, gl = [leaf(t, False) for t in f], [leaf(t, False) for t in g]
        fp, gp = [leaf(t, True) for t in f], [leaf(t, True) for t in g]
        if any(t is None for t in fl + gl + fp + gp): ck.unk(k, "not a two-piece function", w); continue
        fm, gm = matrix(fl, V), matrix(gl, V)
        # (the forward linear pieces of a and b carry an offset that cancels)
        if fm is None or gm is None: ck.unk(k + "linear", "unknown shape", w)
        else: n += 1; inverse(k + "linear", fm, gm, 2e-4, w2)
        ps = sorted({z for t in fp for z in tm.walk(t) if power(z)}, key=lambda z: z.id)
        roots = {}
        for z in ps:
            b, e = power(z)
            r = linear(b, V)
            if r is None or abs(r[1]) > 1e-9 or sum(1 for x in r[0] if x) != 1: roots = None; break
            i = [j for j in range(3) if r[0][j]][0]
            if i in roots: roots = None; break
            roots[i] = (z, r[0][i], e)
        if not roots or len(roots) != 3: ck.unk(k + "power", "unknown shape", w); continue
        P = [roots[i][0] for i in range(3)]
        fm = matrix(fp, P)
        inv = [affine_power(t) for t in gp]
        if fm is None or any(t is None for t in inv): ck.unk(k + "power", "unknown shape", w); continue
        gb = [linear(t[1], V) for t in inv]
        if any(t is None for t in gb): ck.unk(k + "power", "unknown shape", w); continue
        n += 1
        inverse(k + "power", fm, gb, 1e-5, w2)
        for i in range(3):
            near(k + "exponent/%d" % i, roots[i][2] * inv[i][2], 1.0, 1e-5, "product of the exponents", w2)
            near(k + "white/%d" % i, roots[i][1] * inv[i][0], 1.0, 1e-5, "white point of both directions", w2)
            near(k + "offset/%d" % i, inv[i][3], 0.0, 1e-9, "offset of the inverse", w2)
        # thresholds: the linear forward value of the threshold is the threshold of the inverse
        fc = {z.args[0] for t in f for z in tm.walk(t) if z.op == "ite"}
        th = {}
        for c in fc:
            while c.op == "not": c = c.args[0]
            r = linear(c.args[0], V) if c.op == "flt0" else None
            if r is None or sum(1 for x in r[0] if x) != 1: th = None; break
            i = [j for j in range(3) if r[0][j]][0]
            th[i] = -r[1] / r[0][i]
        gc = [cond_of(t) for t in g]
        gk = [linear(c, V) if c is not None else None for c in gc]
        if not th or len(th) != 3 or any(x is None for x in gk): ck.unk(k + "threshold", "unknown shape", w); continue
        for i, r in enumerate(mmul(gk, matrix(fl, V))):
            a = r[0][i]
            if not a: ck.bad(k + "threshold/%d" % i, "the inverse does not depend on the component", w2); continue
            near(k + "threshold/%d" % i, -r[1] / a, th[i], 2e-3 * th[i], "thresholds of the two directions", w2)
    # gray intensities
    from rules_ops import modes, leaves
    b = ck.find(CP + "rgb::Rgb::to_gray_with_intensity")
    j = 0
    if b is not None:
        for v, val in modes(F, "Intensity"):
            c = color(F, "rgb::Rgb", "c", [C(1.0)] * 3 + [C(1.0)])
            A = ck.run(b["path"], body=b, args={0: c, 1: val})
            if not A or not A.ok: continue
            j += 1
            for q in range(3):
                z = chan(F, "rgb::Rgb", A.ret, q)
                if v == "Saturation": continue
                if is_f(z): near("gray/%s/%d" % (v, q), float(cval(z)), 1.0, 1e-4, "intensity of white", A.where)
                else: ck.unk("gray/%s/%d" % (v, q), show(z)[:150], A.where)
    # hue sectors: RGB to HSV/HSL and back, for each order of the channels
    for ty in ("hsv::Hsv", "hsl::Hsl"):
        for order in ((0, 1, 2), (1, 0, 2), (1, 2, 0), (2, 1, 0), (2, 0, 1), (0, 2, 1)):
            n += sector(ck, ty, order)
    ck.floor("pairs of opposite conversions", n, 18 + 6 + 1)
    ck.floor("gray intensities", j, 4)
def sector(ck, ty, order):
    """RGB -> ty -> RGB is the identity when channel order[0] > order[1] > order[2]"""
    F = ck.F
    m = OWN[ty]
    A = convert(ck, "rgb::Rgb", m, color(F, "rgb::Rgb", "c"))
    B = convert(ck, ty, "to_rgb", color(F, ty, "h"))
    if not (A and A.ok and B and B.ok): return 0
    d, e, u = sym("delta"), sym("mid"), sym("level")
    one, eps = C(Fraction(1)), C(Fraction(1, 32768))
    half = lambda x: fmul(C(Fraction(1, 2)), x)
    cases = [("", fsub(u, d), [fle(d, u), fle(u, one)])] if ty == "hsv::Hsv" else \
            [("dark", fsub(u, half(d)), [fle(half(d), u), flt(u, C(Fraction(1, 2)))]), ("light", fsub(fsub(one, u), half(d)), [fle(half(d), u), flt(u, C(Fraction(1, 2)))])]
    done = 0
    for nm, lo, asm in cases:
        v = [None] * 3
        v[order[0]], v[order[1]], v[order[2]] = fadd(lo, d), fadd(lo, e), lo
        q = fmul(e, finv(d))
        asm = asm + [fle(eps, e), fle(eps, fsub(d, e)), fle(eps, d), fle(eps, u), flt(ZF, q), flt(q, one), flt(ZF, e), flt(e, d), flt(ZF, u)]
        mp = {sym("c_%d" % i): v[i] for i in range(3)}
        ext = lambda t: subst(t, {z: (fadd(lo, d) if z.op == "fmax" else lo) for z in tm.walk(t) if z.op in ("fmin", "fmax") and {sym("c_%d" % i) for i in range(3)} <= set(z.args)})
        h = [simp(fixabs(subst(ext(chan(F, ty, A.ret, i)), mp), d, e), asm) for i in range(3)]
        if any(z.op == "ite" for t in h for z in tm.walk(t)): ck.unk("sector/%s/%s%s" % (ty, order, nm), "not decided: %s" % [show(t)[:80] for t in h], A.where); continue
        done = 1
        # the hue lies strictly inside its sixth of the circle
        s = {(0, 1, 2): 0, (1, 0, 2): 1, (1, 2, 0): 2, (2, 1, 0): 3, (2, 0, 1): 4, (0, 2, 1): 5}[order]
        want = fadd(fmul(C(Fraction(1 if s % 2 == 0 else -1, 6)), q), C(Fraction(s if s % 2 == 0 else s + 1, 6)))
        hk = close(h[0], want)
        (ck.unk if hk is None else ck.ok if hk else ck.bad)("hue/%s/%s%s" % (ty, order, nm), "hue of sector %d: %s" % (s, show(h[0])[:150]), A.where)
        asm = asm + [flt(ZF, x) for x in (fmul(d, finv(u)), h[1]) if not is_f(x)]
        out = [subst(chan(F, "rgb::Rgb", B.ret, i), {sym("h_%d" % j): h[j] for j in range(3)}) for i in range(3)]
        for i in range(3):
            t = unclamp(fixint(out[i], s))
            t = simp(t, asm)
            t = unclamp(t)
            k = "sector/%s/%s%s/%d" % (ty, order, nm, i)
            df, t = by_ratio(t, v[i], e, d, tuple(asm))
            if df is None: ck.unk(k, "%s is not decided" % show(t)[:200], B.where)
            else: ck.need(k, df, "channel %d comes back as %s instead of %s" % (i, show(t)[:120], show(v[i])), B.where)
    return done
def by_ratio(t, w, e, d, asm=()):
    """close(leaf, w) over the leaves of t, whose conditions bound q = e/d within (0, 1); with the leaf that differs"""
    key = tuple(sorted((e, finv(d)), key=lambda z: z.id))
    worst = [True, t]
    def go(t, lo, hi, asm, other):
        if worst[0] is False: return
        m = t if t.op == "ite" else next((z for z in tm.walk(t) if z.op == "ite"), None)
        if m is None:
            r = close(t, w)
            if r is False and other and witness.agree(t, w, asm) is not False: r = None     # the case may be empty
            if r is not True: worst[:] = [r, t]
            return
        c = m.args[0]
        a = c.args[0] if c.op == "not" else c
        if a.op != "flt0": worst[:] = [None, t]; return
        p = dict(to_fpoly(a.args[0]))
        k0 = float(p.pop((), 0)); k1 = 0.0
        for mo, co in list(p.items()):
            if len(mo) == 2 and set(mo) == set(key): k1 += float(co); del p[mo]
        if p:
            for lit, truth in ((a, TRUE), (not_(a), FALSE)):
                ext = asm + (lit,)
                if not contradictory(ext, (t,)): go(unclamp(simp(subst(t, {a: truth}), ext)), lo, hi, ext, True)
            return
        # a: k0 + k1*q < 0
        yes = (lo, hi) if k1 == 0 and k0 < 0 else None if k1 == 0 else (lo, min(hi, -k0 / k1)) if k1 > 0 else (max(lo, -k0 / k1), hi)
        no = (lo, hi) if k1 == 0 and k0 >= 0 else None if k1 == 0 else (max(lo, -k0 / k1), hi) if k1 > 0 else (lo, min(hi, -k0 / k1))
        for iv, truth in ((yes, TRUE), (no, FALSE)):
            if iv and iv[1] - iv[0] > 1e-5: go(unclamp(subst(t, {a: truth})), iv[0], iv[1], asm, other)
    go(t, 0.0, 1.0, tuple(asm), False)
    return worst
ZF = C(Fraction(0))
def fixabs(t, d, e):
    """absolute values of differences with a known sign"""
    mp = {}
    for z in tm.walk(t):
        if z.op == "f" and z.args[0] == "abs":
            r = linear(z.args[1], [d, e])
            if r is None: continue
            a, c = r
            # value a0*d + a1*e with 0 < e < d
            if abs(c) < 1e-12 and (a[0] >= 0 and a[0] + a[1] >= 0): mp[z] = z.args[1]
            elif abs(c) < 1e-12 and (a[0] <= 0 and a[0] + a[1] <= 0): mp[z] = fneg(z.args[1])
    return subst(t, mp) if mp else t
def fixint(t, s):
    """the integer part of six times the hue is the sector"""
    return subst(t, {z: C(s) for z in tm.walk(t) if z.op == "f2i"})
def close(t, w):
    """the two polynomials agree up to rounding of constants; None if t is not a polynomial of known atoms"""
    p, q = to_fpoly(t), to_fpoly(w)
    p, q = dict(p), dict(q)
    if any(z.op in ("ite", "fmin", "fmax", "call", "f") for mono in p for z in mono): return None
    if all(abs(float(p.get(k, 0)) - float(q.get(k, 0))) < 1e-4 for k in set(p) | set(q)): return True
    known = {z for mono in q for z in mono}
    return None if any((z.op in ("f2i", "i2f", "fdiv") or z.op == "finv" and z.args[0].op != "sym") and z not in known for mono in p for z in mono) else False

# ---- C33 ----------------------------------------------------------------------
from equiv import infeasible, contradictory
def fpos(t, memo=None):
    """the float term is always greater than zero"""
    memo = {} if memo is None else memo
    if t in memo: return memo[t]
    memo[t] = False
    r = False
    if is_f(t): r = cval(t) > 0
    elif t.op == "ite": r = fpos(t.args[1], memo) and fpos(t.args[2], memo)
    elif t.op == "fmax": r = any(fpos(x, memo) for x in t.args)
    elif t.op == "fmin": r = all(fpos(x, memo) for x in t.args)
    elif t.op == "finv": r = fpos(t.args[0], memo)
    elif t.op == "f" and t.args[0] == "exp": r = True
    elif t.op == "fpoly": r = all(c > 0 and all(fpos(x, memo) or len(mono) == 2 and mono[0] is mono[1] for x in mono) for mono, c in t.args[0]) and any(c > 0 and all(fpos(x, memo) for x in mono) for mono, c in t.args[0])
    elif t.op == "ssum" and len(t.args) == 5 and t.args[4] == "fadd": r = fpos(t.args[2], memo) and counted(t.args[1]) and (t.args[3] in memo.get("nn", ()) or fnonneg(t.args[3]))
    elif t.op == "fold":
        # by induction: starts at zero or above, every step adds a positive value
        names, n, inits, outs, i = t.args
        if counted(n) and len(names) == len(inits) + 1 and fnonneg(inits[i]):
            nn = memo.get("nn", ())
            m2 = {"nn": nn + (names[1 + i],)}
            r = fpos(outs[i], m2)
    elif t.op == "index" and t.args[0].op == "agg": r = all(fpos(x, memo) for x in t.args[0].args[2:])
    memo[t] = r
    return r
def fnonneg(t): return is_f(t) and cval(t) >= 0 or fpos(t)
def counted(n):
    """a number of repetitions that is at least one: sizes are (assumed), sums of sizes with a positive constant too"""
    if is_int(n): return cval(n) > 0
    if n in POSN: return True
    p = dict(to_poly(n))
    return p.get((), 0) >= 1 and all(c > 0 for c in p.values())
POSN = set()
def sos(t):
    """a sum of squares: the quadratic form is positive semidefinite"""
    p = dict(to_fpoly(t))
    ats, q = [None], {}
    for mono, c in p.items():
        if len(mono) > 2: return False
        m = (None,) * (2 - len(mono)) + tuple(mono)
        for z in m:
            if z not in ats: ats.append(z)
        q[m] = q.get(m, 0.0) + float(c)
    n = len(ats)
    if n > 60: return False
    M = [[0.0] * n for _ in range(n)]
    for (a, b), c in q.items():
        i, j = ats.index(a), ats.index(b)
        M[i][j] += c / 2; M[j][i] += c / 2
    sc = max([abs(x) for r in M for x in r] or [1.0])
    for k in range(n):
        # pivoting on the largest diagonal entry of the rest
        i = max(range(k, n), key=lambda z: M[z][z])
        M[k], M[i] = M[i], M[k]
        for r in M: r[k], r[i] = r[i], r[k]
        d = M[k][k]
        if d < -1e-6 * sc: return False
        if d <= 1e-9 * sc: return all(abs(M[x][y]) <= 1e-5 * sc for x in range(k, n) for y in range(k, n))
        for x in range(k + 1, n):
            f = M[x][k] / d
            for y in range(k, n): M[x][y] -= f * M[k][y]
    return True
class Undecided(Exception): pass
MAXC = 600
def fcons(lit):
    """linear constraints (sum <= 0 with a slack for strict ones) of a literal; [] when it says nothing linear"""
    ng = False
    c = lit
    if c.op == "not": c, ng = c.args[0], True
    if c.op in ("flt0", "feq0"):
        d = dict(to_fpoly(c.args[0]))
        d = expand(d)
        if d is None: return []
        nd = {m: -v for m, v in d.items()}
        if c.op == "feq0": return [] if ng else [d, nd]
        if ng: return [nd]
        d[()] = d.get((), 0) + Fraction(1, 10 ** 12)
        return [d]
    if c.op in ("lt0", "eq"):
        from equiv import lin_of
        return lin_of(lit)
    return []
def expand(d):
    """conversions of integers are the integers themselves"""
    out = {}
    for mono, c in d.items():
        if len(mono) == 1 and mono[0].op == "i2f":
            for m, v in dict(to_poly(mono[0].args[0])).items(): out[m] = out.get(m, 0) + c * v
        else: out[mono] = out.get(mono, 0) + c
    return out
def cases(lits, done=(), n=None):
    """case distinction over connectives, minima, maxima, absolute values and conditional parts"""
    n = n if n is not None else [0]
    n[0] += 1
    if n[0] > MAXC: raise Undecided()
    have = set(lits)
    if any(l.op == "not" and l.args[0] in have for l in lits): return
    for i, l in enumerate(lits):
        rest = lits[:i] + lits[i + 1:]
        if l is TRUE: yield from cases(rest, done, n); return
        if l is FALSE: return
        if l.op == "and": yield from cases(list(l.args) + rest, done, n); return
        if l.op == "not" and l.args[0].op == "or": yield from cases([not_(x) for x in l.args[0].args] + rest, done, n); return
        if l.op == "or":
            for x in l.args: yield from cases([x] + rest, done, n)
            return
        if l.op == "not" and l.args[0].op == "and":
            for x in l.args[0].args: yield from cases([not_(x)] + rest, done, n)
            return
        c = l.args[0] if l.op == "not" else l
        if c.op == "ite":
            ng = not_ if l.op == "not" else (lambda z: z)
            yield from cases([c.args[0], ng(c.args[1])] + rest, done, n)
            yield from cases([not_(c.args[0]), ng(c.args[2])] + rest, done, n)
            return
        if c.op == "feq0" and l.op == "not":
            p = c.args[0]
            yield from cases([flt(p, ZF)] + rest, done, n)
            yield from cases([flt(ZF, p)] + rest, done, n)
            return
        if c.op not in ("flt0", "feq0"): continue
        # an inner part to distinguish (only parts of this literal: those of others do not matter)
        for mono in dict(to_fpoly(c.args[0])):
            for z in mono:
                w = inner(z)
                if w is None: continue
                for v, cond in options(w):
                    m = {w: v}
                    yield from cases([cond] + [subst(x, m) for x in lits], done, n)
                return
    yield lits
def inner(z):
    if z.op in ("fmin", "fmax", "ite") or z.op == "f" and z.args[0] == "abs":
        for a in z.args:
            if not isinstance(a, Term) or a.op == "not" or a.op in ("flt0", "and", "or"): continue
            if a.op in ("fmin", "fmax", "ite") or a.op == "f" and a.args[0] == "abs":
                w = inner(a)
                if w is not None: return w
            if a.op == "fpoly":
                for mono in dict(to_fpoly(a)):
                    for q in mono:
                        w = inner(q)
                        if w is not None: return w
        return z
    return None
def options(w):
    if w.op == "ite": return [(w.args[1], w.args[0]), (w.args[2], not_(w.args[0]))]
    if w.op == "f": return [(w.args[1], fle(ZF, w.args[1])), (fneg(w.args[1]), flt(w.args[1], ZF))]
    r = []
    for a in w.args:
        r.append((a, and_(*[(fle(b, a) if w.op == "fmax" else fle(a, b)) for b in w.args if b is not a])))
    return r
def satisfiable(lits, facts):
    """None: no case is possible; otherwise the atoms of a possible case"""
    for c in cases(list(lits)):
        if c is None: continue
        cs = [d for l in c for d in fcons(l)]
        at = {m for d in cs for m in d if m}
        for m in at:
            if len(m) != 1: continue
            z = m[0]
            cs += [d for l in facts(z) for d in fcons(l)]
        if not infeasible(cs): return c, at
    return None
def chan_facts(z):
    """values of channels lie within 0..1"""
    if z.op == "f" and z.args[0] == "tanh": return [flt(z, C(Fraction(1))), flt(C(Fraction(-1)), z)]
    if z.op == "sym" and z.args[0].startswith("c_") or z.op in ("index", "fld") and any(q.op == "sym" for q in tm.walk(z)) and not any(q.op in ("fold", "call", "scatter", "ssum") for q in tm.walk(z)): return [fle(ZF, z), fle(z, C(Fraction(1)))]
    return []
def tanh_cases(lits):
    """tanh has the sign of its argument"""
    ts = sorted({z for l in lits for z in tm.walk(l) if z.op == "f" and z.args[0] == "tanh"}, key=lambda z: z.id)[:3]
    return [or_(and_(flt(ZF, z), flt(ZF, z.args[1])), and_(fle(z, ZF), fle(z.args[1], ZF))) for z in ts]
def clamp_syms(ts):
    """clamped inner values are replaced by values within 0..1 (an over-approximation)"""
    m = {}
    for t in ts:
        for z in tm.walk(t):
            if z.op == "fmin" and len(z.args) == 2 and any(is_f(a) and cval(a) == 1 for a in z.args) and any(a.op == "fmax" and len(a.args) == 2 and any(is_f(b) and cval(b) == 0 for b in a.args) for a in z.args) \
               and tm.height(z) > 4: m[z] = sym("c_clamped%d" % len(m))
    return [subst(t, m) for t in ts] if m else ts, bool(m)
def leaf_atoms(l):
    x = l.args[0] if l.op == "not" else l
    if x.op in ("flt0", "feq0"): return {m for m in (expand(dict(to_fpoly(x.args[0]))) or {}) if m}
    if x.op in ("lt0",): return {m for m in dict(to_poly(x.args[0])) if m}
    if x.op == "eq": return {m for m in dict(to_poly(sub(x.args[0], x.args[1]))) if m} if not isinstance(x.args[0], tuple) and x.args[0].op not in ("agg",) else {(x,)}
    return {(x,)}
def connected(q, lits):
    """literals (and their atoms) connected to the question by shared symbols"""
    base = lambda ms: {z for m in ms for t in m for z in tm.walk(t) if z.op in ("sym", "fold", "ssum", "call")}
    have = base(leaf_atoms(q)) | {z for z in tm.walk(q) if z.op == "sym"}
    todo, out = list(lits), []
    while True:
        nx = [l for l in todo if base(leaf_atoms(l)) & have]
        if not nx: break
        out += nx; todo = [l for l in todo if l not in nx]
        for l in nx: have |= base(leaf_atoms(l))
    return {m for l in out for m in leaf_atoms(l) if l.op in ("flt0", "feq0", "lt0", "eq") or l.op == "not" and l.args[0].op in ("flt0", "feq0", "lt0", "eq")}, out
def conv_chan(z):
    """a channel of a converted colour: any value within 0..1"""
    while z.op in ("fld", "index") and isinstance(z.args[0], Term): z = z.args[0]
    return z.op == "call" and z.args[0].rsplit("::", 1)[-1] in TARGET
def free_atom(z): return conv_chan(z) or z.op in ("sym", "index", "fld", "len") and not any(q.op in ("fold", "call", "scatter", "ssum", "first", "ite", "gen") for q in tm.walk(z))
def irange(t, d=0):
    """constant bounds (lo, hi) of an integer term; None = unbounded"""
    if is_int(t): return cval(t), cval(t)
    if d > 12: return None, None
    if t.op == "poly":
        lo = hi = 0
        for m, c in t.args[0]:
            if not m: l = h = 1
            elif len(m) == 1: l, h = irange(m[0], d + 1)
            else: return None, None
            if c < 0: l, h = h, l
            lo = None if lo is None or l is None else lo + c * l
            hi = None if hi is None or h is None else hi + c * h
        return lo, hi
    if t.op in ("imin", "imax"):
        r = [irange(x, d + 1) for x in t.args]
        los, his = [x[0] for x in r if x[0] is not None], [x[1] for x in r if x[1] is not None]
        f = min if t.op == "imin" else max
        return ((f(los) if len(los) == len(r) else None) if t.op == "imin" else (f(los) if los else None),
                (f(his) if his else None) if t.op == "imin" else (f(his) if len(his) == len(r) else None))
    if t.op == "div" and is_int(t.args[1]) and cval(t.args[1]) > 0:
        l, h = irange(t.args[0], d + 1)
        return None if l is None or l < 0 else l // cval(t.args[1]), None if h is None or l is None or l < 0 else h // cval(t.args[1])
    if t.op == "f2i" and t.args[0] in ("usize", "u64", "u32", "u16", "u8"): return 0, None
    if t.op in ("len",): return 0, None
    return None, None
def always(l):
    if l.op == "lt0":
        h = irange(l.args[0])[1]
        return h is not None and h < 0
    if l.op == "not" and l.args[0].op == "lt0":
        lo = irange(l.args[0].args[0])[0]
        return lo is not None and lo >= 0
    return False
def never(lits, asm=(), depth=0):
    """the conjunction is impossible: True, False (possible for inputs of the analysed function) or None"""
    lits = [l for l in list(lits) + list(asm) if not always(l)]
    seen = set()
    for l in lits:
        for _ in tm.walk(l, seen): pass
        if len(seen) > 1500: return None
    lits, ab = clamp_syms(lits)
    try: r = satisfiable(lits + tanh_cases(lits), chan_facts)
    except (Undecided, RecursionError): return None
    if r is None: return True
    c, at = r
    # only what is connected to the question has to be understood
    at, c = connected(lits[0], c)
    odd = ab or any(len(m) != 1 or not free_atom(m[0]) for m in at) or any(l.op not in ("flt0", "feq0", "lt0", "eq", "not", "isvar", "sym") for l in c) or any(l.op == "not" and l.args[0].op not in ("flt0", "feq0", "lt0", "eq", "isvar", "sym") for l in c)
    if not odd: return False
    # products of inputs: look for an instance
    if depth < 2 and not ab:
        for m in sorted((m for m in at if len(m) > 1 and all(free_atom(z) for z in m)), key=lambda m: [z.id for z in m])[:2]:
            for v in (Fraction(1, 2), Fraction(0), Fraction(1)):
                z = [q for q in m if q.op != "sym"] or list(m)
                if never([subst(l, {z[0]: C(v)}) for l in lits], (), depth + 1) is False: return False
    return None
def nonzero(y, pc, asm):
    """the divisor differs from zero on the path"""
    if fpos(y) or fpos(fneg(y)): return True
    p = dict(to_fpoly(y))
    if len(p) == 1:
        (mono, c), = p.items()
        if len(mono) > 1 or mono and mono[0] is not y:
            r = [nonzero(z, pc, asm) for z in dict.fromkeys(mono)]
            return True if all(x is True for x in r) else False if any(x is False for x in r) else None
    if y.op == "i2f":
        n = y.args[0]
        z = simp(eq(n, ZERO), tuple(asm) + tuple(pc))
        if z is FALSE: return True
        if n.op == "len" or n.op in ("poly",): pass
    return never([feq(y, ZF)] + list(pc), asm)
def C33(ck):
    F = ck.F
    seen = {}
    def sites(A, label, asm=()):
        exps = [e.args[1] for e in A.events if e.kind == "fdom" and e.name == "powf"]
        k = {}
        for e in A.events:
            if e.kind not in ("fdiv", "fdom"): continue
            k[(e.fn, e.kind)] = k.get((e.fn, e.kind), 0) + 1
            key = "%s/%s/%s%d" % (label, e.fn.replace("d10_core::", "").replace("d10_ops::", ""), e.kind[1:], k[(e.fn, e.kind)])
            lo = [le(ZERO, q) for q, hi in e.loops if isinstance(q, Term)] + [lt(q, hi) for q, hi in e.loops if isinstance(hi, Term) and hi.op != "inf"]
            pc = [p for p in e.pc] + lo
            where = "%s:%s" % (e.fn, e.line)
            if e.kind == "fdiv":
                y = e.args[1]
                if is_f(y):
                    ck.need(key, cval(y) != 0, "division by a constant", where); yield 1; continue
                if any(finv(y) in set(tm.walk(x)) or e.ret is not None and not is_c(e.ret) and e.ret in set(tm.walk(x)) for x in exps):
                    ck.ok(key, "the quotient is only an exponent", where); yield 1; continue
                r = nonzero(y, pc, asm)
                if r is None and label.startswith("uniform"):
                    # decide the remaining choices by the literals of the path
                    lits = [p for p in pc if not any(z.op == "ite" for z in tm.walk(p))]
                    more = tuple(asm) + tuple(lits)
                    y2, pc2 = simp(y, more), [p if p in lits else simp(p, more) for p in pc]
                    if y2 is not y or pc2 != pc: r = nonzero(y2, pc2, asm)
                (ck.ok if r else ck.unk if r is None else ck.bad)(key, "divisor %s under %s" % (show(y)[:200], [show(p)[:90] for p in e.pc][:5]), where)
                yield 1
            else:
                b = e.args[0]
                if e.name == "powf" and len(e.args) > 1 and is_f(e.args[1]) and cval(e.args[1]).denominator == 1: continue
                if e.name == "powf" and len(e.args) > 1 and e.fn.startswith("d10_ops::") and not is_f(e.args[1]) and e.args[1].op != "sym":
                    x, g = e.args[1], e.args[1]
                    p = dict(to_fpoly(x))
                    if len(p) == 1:
                        (mono, c), = p.items()
                        if len(mono) == 1 and mono[0].op == "finv": g = fmul(C(c), mono[0].args[0])      # same sign
                    r = True if fpos(g) else never([feq(b, ZF), flt(g, ZF)] + pc, asm)
                    (ck.ok if r else ck.unk if r is None else ck.bad)(key + "/zero", "zero to the power of %s under %s" % (show(x)[:200], [show(p)[:90] for p in e.pc][:5]), where)
                    yield 1
                r = True if interval(b)[0] >= 0 or fpos(b) or sos(b) else never([flt(b, ZF)] + pc, asm)
                if r is None and label.startswith("kernel/edge"):
                    # the convolved pixels are arbitrary: a negative value somewhere is one that occurs
                    import witness
                    if witness.agree(b, fmax(b, ZF), tuple(pc) + tuple(asm), votes=6) is False: r = False
                (ck.ok if r else ck.unk if r is None else ck.bad)(key, "%s of %s under %s" % (e.name, show(b)[:200], [show(p)[:90] for p in e.pc][:5]), where)
                yield 1
    n = 0
    for ty in COLORS:
        for m in TARGET:
            if TARGET[m] == ty: continue
            # (values of other spaces reach the divisions only through RGB)
            v = color(F, ty, "c") if ty in ("rgb::Rgb", "srgb::Srgb", "hsl::Hsl", "hsv::Hsv") else color(F, ty, "v")
            A = convert(ck, ty, m, v, opaque=None if ty == "rgb::Rgb" or m == "to_rgb" else conv_rgb(F, ty))
            if A and A.ok: n += sum(sites(A, "convert/%s/%s" % (ty, m)))
    ck.floor("divisions and powers in conversions", n, 30)
    j = 0
    for ty, b in methods(F, lambda nm: True):
        A = ck.run(b["path"], body=b, args={0: color(F, ty, "c")}, opaque=conv_summary(F))
        if A: j += sum(sites(A, "method/%s/%s" % (ty, b["name"])))
    ck.floor("divisions and powers in colour operations", j, 6)
    # smoothing kernels
    from rules_core import const_env
    k = 0
    for path, env in ((CP[:-len("color::")] + "kernel::Kernel::new_gaussian", True), (CP[:-len("color::")] + "kernel_dyn::KernelDyn::new_gaussian", False)):
        b = ck.find(path)
        if b is None: continue
        A = ck.run(path, body=b, env=const_env(b, sym("N")) if env else None)
        POSN.update([sym("N")] if env else [A.p[0]] if A else [])
        if A: k += sum(sites(A, "kernel/" + path.rsplit("::", 2)[1], asm=(le(ONE, A.p[0]),) if not env else ()))
    ck.floor("divisions in smoothing kernels", k, 4)
    def one(nm):
        from rules_ops import op
        b = op(ck, nm)
        if b is None: return 0
        args = {}
        asm = []
        for i in range(b["body"]["argc"]):
            if pixel_type(b["body"]["locals"][i + 1]) is not None:
                bf = buffer("img%d" % i); args[i] = bf
                asm += [lt(ZERO, W(bf)), lt(ZERO, H(bf)), eq(seqlen(D(bf)), mul(W(bf), H(bf))), lt(ZERO, seqlen(D(bf)))]
        A = ck.run(b["path"], body=b, args=args, opaque=conv_summary(F))
        r = sum(sites(A, "op/" + nm, tuple(asm))) if A else 0
        if nm == "edge_detection":
            # whatever the convolution yields
            cs = conv_summary(F)
            from rules_ops import same_dims
            A = ck.run(b["path"], body=b, args=args, opaque=lambda n_, k_: same_dims(n_) if n_.rsplit("::", 1)[-1] in ("apply_kernel", "apply_kernel_dyn") else cs(n_, k_))
            r += sum(sites(A, "kernel/" + nm, tuple(asm))) if A else 0
        # the same for an image of one colour
        for i in list(args):
            bf = args[i]
            args[i] = agg("adt:d10_core::pixelbuffer::PixelBuffer", "PixelBuffer", W(bf), H(bf), tm.rep(color(F, "rgb::Rgb", "c"), mul(W(bf), H(bf))))
        A = ck.run(b["path"], body=b, args=args, opaque=conv_summary(F))
        return r + (sum(sites(A, "uniform/" + nm, tuple(asm))) if A else 0)
    ops = ["balance", "despeckle", "edge_detection", "equalize", "stretch_contrast", "symmetric_nearest_neighbor", "change_color_temperature",
           "optimize_color_temperature", "optimize_saturation", "optimize_lightness", "unsharp", "rotate", "apply_palette", "jpeg_quality"]
    i = sum(x or 0 for x in ck.par([lambda nm=nm: one(nm) for nm in ops]))
    ck.floor("divisions and powers in image operations", i, 20)
def conv_rgb(F, ty):
    """conversions to RGB give channels within 0..1 (decided for each space separately)"""
    def op(n, k):
        if n.rsplit("::", 1)[-1] != "to_rgb" or not (n.startswith(CT + "::") or n.endswith("Color>::to_rgb")): return False
        return lambda ret, vals: color(F, "rgb::Rgb", "c")
    return op

RULES = {
 "C08": (C08, "Conversions, colour operations and colour-mapping image operations are abstractly evaluated on a colour with symbolic channels and alpha; the closed form of the result's alpha is compared with the input's alpha."),
 "C19": (C19, "Constructors, channel maps, colour operations, conversions and blend functions are abstractly evaluated on symbolic channels; an interval analysis of the closed form of every result channel must stay within 0..1."),
 "C21": (C21, "Every route (method, From impl, buffer conversion, iterator adaptor) is abstractly evaluated on the same symbolic colour or sequence; the closed forms of all four components are compared with the direct method, chains with the composition of the primitive conversions, reference whites with the standard illuminants."),
 "C22": (C22, "The closed forms of opposite conversions are taken from the source and composed symbolically: matrices multiply to the identity, exponents, offsets, white points and thresholds of piecewise functions cancel, and RGB to HSV/HSL and back is the identity in each hue sector (orderings of the channels as case split)."),
 "C33": (C33, "Every floating point division, root and power met while evaluating conversions, colour operations, smoothing kernels and image operations is an obligation: under its path condition the divisor cannot be zero (base cannot be negative), decided by case distinction over minima, maxima and branches and linear arithmetic (Fourier-Motzkin).", "path-sensitive abstract interpretation of MIR with linear arithmetic over path conditions"),
}

"""Rules over d10-ops: geometry, in-place/copying pairs, dimensions, modes, composition."""
from fw import *
import term as tm
import models
from rules_core import PB, MAXPIX, W, H, D, COLORS, buffer, px, xy, color, chan, data_of, clamp01, CP, F0, F1, lits_of, ok_part, valid, inside, nonempty

PBT = "d10_core::pixelbuffer::PixelBuffer"
def op(ck, name, required=True):
    """public operation of d10-ops by its exported name"""
    c = [b for b in ck.F.bodies.values() if b["crate"] == "d10_ops" and b["name"] == name and b["kind"] == "fn" and b["reach"] and b["self"] is None]
    if len(c) > 1: c = [b for b in c if b["path"] == "d10_ops::%s" % name] or c
    if not c:
        if required: ck.bad("anchor/" + name, "d10-ops exports no operation %s" % name)
        return None
    return c[0]
def runop(ck, name, args, opaque=None, **kw):
    b = op(ck, name)
    if b is None: return None
    A = ck.run(b["path"], body=b, args=dict(enumerate(args)), opaque=opaque, **kw)
    return A
def pix(v, x, y): return index(fld(v, 2, "data"), add(x, mul(y, fld(v, 0, "width"))))
def dims(v): return fld(v, 0, "width"), fld(v, 1, "height")

def C11(ck):
    b = buffer("img")
    w, h = W(b), H(b)
    spec = {
        "flip_horizontal": (w, h, lambda x, y: (sub(sub(w, ONE), x), y)),
        "flip_vertical": (w, h, lambda x, y: (x, sub(sub(h, ONE), y))),
        "rotate90": (h, w, lambda x, y: (y, sub(sub(h, ONE), x))),
        "rotate180": (w, h, lambda x, y: (sub(sub(w, ONE), x), sub(sub(h, ONE), y))),
        "rotate270": (h, w, lambda x, y: (sub(sub(w, ONE), y), x)),
    }
    n = 0
    for name, (ow, oh, src) in spec.items():
        A = runop(ck, name, [b])
        if not A or not A.ok: continue
        n += 1
        gw, gh = dims(A.ret)
        ck.eq(name + "/width", gw, ow, "output width", A.where)
        ck.eq(name + "/height", gh, oh, "output height", A.where)
        x, y = bounded("x", ow), bounded("y", oh)
        got = index(fld(A.ret, 2, "data"), add(x, mul(y, ow)))
        sx, sy = src(x, y)
        ck.eq(name + "/pixel", got, px(b, sx, sy), "output (x, y) is the corresponding input pixel", A.where)
        ck.nopanic(name + "/total", A, (lt(ZERO, w), lt(ZERO, h), le(mul(w, h), MAXPIX)), "never panics on a valid image")
    ox, oy, cw, ch = sym("ox"), sym("oy"), sym("cw"), sym("ch")
    for s in (ox, oy, cw, ch): tm.BND[s] = (ZERO, T("inf"))
    A = runop(ck, "crop", [b, ox, oy, cw, ch])
    if A and A.ok:
        n += 1
        x0, y0 = imin(ox, w), imin(oy, h)
        iw, ih = imin(cw, sub(w, x0)), imin(ch, sub(h, y0))
        empty = or_(eq(iw, ZERO), eq(ih, ZERO))
        gw, gh = dims(A.ret)
        asm = (valid(w, h),)
        ck.eq("crop/width", gw, ite(empty, ZERO, iw), "width of the intersection", A.where, asm=asm, limit=2000)
        ck.eq("crop/height", gh, ite(empty, ZERO, ih), "height of the intersection", A.where, asm=asm, limit=2000)
        x, y = sym("cx"), sym("cy")
        inn = (le(ZERO, x), le(ZERO, y), lt(x, iw), lt(y, ih), not_(empty), lt(ZERO, w), lt(ZERO, h))
        for s in (x, y): tm.BND[s] = (ZERO, T("inf"))
        X, Y = bounded("x", iw), bounded("y", ih)
        ne = (not_(empty), lt(ZERO, w), lt(ZERO, h))
        d = simp_deep(fld(A.ret, 2, "data"), ne)
        got = index(d, add(X, mul(Y, iw)))
        ck.eq("crop/pixel", got, px(b, add(x0, X), add(y0, Y)), "output (x, y) is input (offset_x + x, offset_y + y)", A.where, asm=ne, limit=2000)
    ck.floor("geometric operations", n, 6)
def simp_deep(t, asm):
    from equiv import simp
    return simp(t, asm)

# ---- shared -------------------------------------------------------------------
OPTION = "adt:core::option::Option"
def modes(F, name):
    """[(variant, value)] of a field-less enum of d10-ops or d10-core"""
    for a in F.adts.values():
        if a["path"].endswith("::" + name) and a["crate"] in ("d10_ops", "d10_core"):
            return [(v["name"], agg("adt:" + a["path"], v["name"])) for v in a["variants"] if not v["fields"]]
    return []
def snake(n):
    return "".join("_" + c.lower() if c.isupper() and i else c.lower() for i, c in enumerate(n))
def subterms(t):
    seen, st = set(), [t]
    while st:
        x = st.pop()
        if isinstance(x, tuple): st.extend(x); continue
        if not isinstance(x, Term) or x.id in seen: continue
        seen.add(x.id); yield x
        st.extend(x.args)
CONV = ("to_hsl", "to_hsv", "to_lch", "to_lab", "to_xyz", "to_yuv", "to_srgb", "to_rgb")
def conv(n, k=None): return n.startswith("d10_core::color::") and n.rsplit("::", 1)[-1] in CONV
def same_dims(name):
    """summary of an operation whose result has its input's dimensions (an obligation of C10)"""
    def f(ret, vals):
        d = fld(ret, 2, "data")
        tm.SEQ_LEN[d] = mul(W(vals[0]), H(vals[0]))
        return mkbuf(W(vals[0]), H(vals[0]), d)
    return f
def mkbuf(w, h, d): return tm.mkagg("adt:" + PBT, "PixelBuffer", w, h, d)
def opaque_ops(ck, names, more=lambda n, k: False):
    paths = {b["path"]: n for n in names for b in [op(ck, n, False)] if b}
    return lambda n, k: same_dims(paths[n]) if n in paths else more(n, k)
def ap(f, *args): return T("call", "apply", (), f, *args)
def cf(x):
    import struct
    return C(struct.unpack("<f", struct.pack("<f", x))[0])

# ---- C09 ----------------------------------------------------------------------
RGB_T = ("adt", CP + "rgb::Rgb", ())
def nostate(t):
    """t with every random draw freed from the generator's state"""
    m = {}
    for z in subterms(t):
        if z.op == "call" and z.args[0].startswith("rand") and len(z.args) > 2 and isinstance(z.args[2], Term): m[z.args[2]] = sym("rng")
    return subst(t, m)
def C09(ck):
    b = buffer("img")
    w, h = W(b), H(b)
    n = mul(w, h)
    f = sym("f")
    RES = "adt:core::result::Result"
    done = 0
    def pair(key, A, B):
        """copying result and in-place state hold the same pixel everywhere"""
        got, post = A.ret, B.st.store[B.ro[0]]
        i = bounded("i", n)
        ck.eq(key + "/pixel", index(fld(post, 2, "data"), i), index(fld(got, 2, "data"), i), "pixel i of the changed buffer is pixel i of the new buffer", B.where)
        for j, d in ((0, "width"), (1, "height")):
            ck.eq("%s/%s" % (key, d), fld(post, j, d), fld(got, j, d), "same " + d, B.where)
            ck.eq("%s/%s-input" % (key, d), fld(got, j, d), fld(b, j, d), "same %s as the input" % d, A.where)
    for en in ("", "_enumerated"):
        args = (lambda k: (f, rem(k, w), div(k, w), index(D(b), k))) if en else (lambda k: (f, index(D(b), k)))
        A = ck.run(PBT + "::map_colors" + en, args={0: b, 1: f})
        B = ck.run(PBT + "::mod_colors" + en, args={0: b, 1: f})
        if A and B and A.ok and B.ok:
            done += 1
            pair("map_colors" + en, A, B)
            x, y = xy(b)
            want = ap(f, x, y, px(b, x, y)) if en else ap(f, px(b, x, y))
            ck.eq("map_colors%s/applies" % en, pix(A.ret, x, y), want, "the function is applied to every pixel once", A.where)
        A = ck.run(PBT + "::try_map_colors" + en, args={0: b, 1: f})
        B = ck.run(PBT + "::try_mod_colors" + en, args={0: b, 1: f})
        if A and B and A.ok and B.ok:
            done += 1
            k = bounded("k", n)
            ok_k = isvar(ap(*args(k)), "Ok")
            allok = tm.forall(k, n, ok_k)
            fst = tm.first(k, n, not_(ok_k))
            firsterr = fld(down(ap(*args(fst)), "Err"), 0)
            for nm, X in (("try_map_colors" + en, A), ("try_mod_colors" + en, B)):
                r = simp(X.ret, (allok,)); e = simp(X.ret, (not_(allok),))
                ck.eq(nm + "/ok", isvar(r, "Ok"), TRUE, "succeeds when every call succeeds", X.where)
                ck.eq(nm + "/err", isvar(e, "Err"), TRUE, "fails when some call fails", X.where)
                if e.op == "agg": ck.eq(nm + "/first", fld(e, 0), firsterr, "returns the first error in pixel order", X.where, asm=(not_(allok),))
            r = simp(A.ret, (allok,))
            post = simp(B.st.store[B.ro[0]], (allok,))
            if r.op == "agg":
                i = bounded("i", n)
                want = fld(down(ap(*args(i)), "Ok"), 0)
                ck.eq("try_map_colors%s/pixel" % en, index(fld(fld(r, 0), 2, "data"), i), want, "pixel i is the success value", A.where, asm=(isvar(ap(*args(i)), "Ok"),))
                ck.eq("try_mod_colors%s/pixel" % en, index(fld(post, 2, "data"), i), want, "pixel i is the success value", B.where, asm=(isvar(ap(*args(i)), "Ok"),))
            for j, d in ((0, "width"), (1, "height")):
                ck.eq("try_mod_colors%s/%s" % (en, d), fld(B.st.store[B.ro[0]], j, d), fld(b, j, d), "same " + d, B.where)
            # after an error the pixels behind it are untouched
            post = simp(B.st.store[B.ro[0]], (not_(allok),))
            i = bounded("i", n)
            late = index(fld(post, 2, "data"), i)
            ck.eq("try_mod_colors%s/stops" % en, simp(late, (not_(lt(i, fst)),)), index(D(b), i), "pixels from the failing one on keep their value", B.where)
    # operations offered in both forms: op / op_in_place and op / add_op
    pub = {}
    for x in ck.F.bodies.values():
        if x["crate"] == "d10_ops" and x["kind"] == "fn" and x["reach"] and x["self"] is None: pub.setdefault(x["name"], x)
    pairs = []
    for nm in pub:
        for other in (nm + "_in_place", "add_" + nm):
            if other in pub: pairs.append((nm, other))
    for nm in ("random_noise", "gaussian_noise", "rgb_noise", "salt_n_pepper_noise"):
        if (nm, "add_" + nm) not in pairs: ck.bad("anchor/" + nm, "no pair %s / add_%s" % (nm, nm))
    if ("apply_palette", "apply_palette_in_place") not in pairs: ck.bad("anchor/apply_palette", "no pair apply_palette / apply_palette_in_place")
    for nm, other in sorted(pairs):
        rest = {i: (buffer("pal") if "palette" in nm else sym("arg%d" % i)) for i in range(1, pub[nm]["body"]["argc"])}
        env = tuple(RGB_T for _ in range(3))
        A = ck.run(pub[nm]["path"], body=pub[nm], args=dict(rest, **{0: b}) if False else {0: b, **rest}, env=env if pub[nm]["generics"] else None)
        B = ck.run(pub[other]["path"], body=pub[other], args={0: b, **rest}, env=env if pub[other]["generics"] else None)
        if not (A and B and A.ok and B.ok): continue
        done += 1
        pair(nm, A, B)
        # the same over shared private helpers, whatever they compute
        hid = {x["path"] for x in ck.F.bodies.values() if x["crate"] == "d10_ops" and x["kind"] == "fn" and not x["reach"]}
        hop = lambda n_, k_: n_ in hid
        A2 = ck.run(pub[nm]["path"], body=pub[nm], args={0: b, **rest}, env=env if pub[nm]["generics"] else None, opaque=hop)
        B2 = ck.run(pub[other]["path"], body=pub[other], args={0: b, **rest}, env=env if pub[other]["generics"] else None, opaque=hop)
        if A2 and B2 and A2.ok and B2.ok:
            i = bounded("i", n)
            g, w_ = index(fld(B2.st.store[B2.ro[0]], 2, "data"), i), index(fld(A2.ret, 2, "data"), i)
            used = lambda t: {z.args[0] for z in subterms(t) if z.op == "call" and z.args[0] in hid}
            if not nm.endswith("_noise") and used(g) and used(g) == used(w_): ck.eq(nm + "/helpers", g, w_, "both forms use the results of their helpers in the same way", B.where)
        # the drawn values by distribution alone, whatever the generator's state
        i = bounded("i", n)
        g, w_ = nostate(index(fld(B.st.store[B.ro[0]], 2, "data"), i)), nostate(index(fld(A.ret, 2, "data"), i))
        if nm.endswith("_noise"): ck.eq(nm + "/distribution", g, w_, "both forms use the drawn values in the same way", B.where)
    ck.floor("copy/in-place pairs", done, 9)

# ---- C10 ----------------------------------------------------------------------
def C10(ck):
    F = ck.F
    b, o = buffer("img"), buffer("other")
    w, h = W(b), H(b)
    P = sym
    some = lambda x: agg(OPTION, "Some", x)
    none = agg(OPTION, "None")
    n = 0
    parts = []
    def chk(key, nm, args, opq, ow, oh): parts.append(lambda: chk1(key, runop(ck, nm, args, opaque=opq), ow, oh))
    def chk1(key, A, ow, oh, asm=()):
        if not A or not A.ok: return 0
        gw, gh = dims(A.ret)
        ck.eq(key + "/width", gw, ow, "output width", A.where, asm=asm)
        ck.eq(key + "/height", gh, oh, "output height", A.where, asm=asm)
        return 1
    keep = [("apply_palette", [b, buffer("pal")]), ("despeckle", [b, P("t"), P("a")]), ("gaussian_noise", [b, P("a")]), ("random_noise", [b, P("a")]),
            ("rgb_noise", [b, P("a")]), ("salt_n_pepper_noise", [b, P("a")]), ("interlace", [b, P("o")]), ("stretch_contrast", [b, P("t")]),
            ("change_color_temperature", [b, P("x"), P("y"), P("z")]), ("optimize_color_temperature", [b, P("x"), P("y")]),
            ("optimize_lightness", [b, P("f")]), ("symmetric_nearest_neighbor", [b, P("r"), P("c")]),
            ("flip_horizontal", [b]), ("flip_vertical", [b]), ("rotate180", [b])]
    for nm, en, args in (("balance", "BalanceMode", [P("t")]), ("equalize", "EqualizeMode", []), ("edge_detection", "EdgeDetection", [])):
        for v, val in modes(F, en): keep.append((nm, [b, val] + args, v))
    for v, val in modes(F, "SaturationMode"): keep.append(("optimize_saturation", [b, P("o"), val], v))
    for v, val in modes(F, "FilterMode"): keep.append(("rotate", [b, P("rad"), P("bg"), val], v))
    for it in keep:
        nm, args = it[:2]
        chk(nm + ("/" + it[2] if len(it) > 2 else ""), nm, args, conv, w, h)
    chk("rotate90", "rotate90", [b], None, h, w)
    chk("rotate270", "rotate270", [b], None, h, w)
    # operations built from others: the ones already proved size preserving are summarised
    ops1 = opaque_ops(ck, ("gaussian_blur",))
    for s, nmS in ((none, "default"), (some(P("s")), "given")):
        chk("unsharp/" + nmS, "unsharp", [b, P("r"), P("f"), s], ops1, w, h)
        chk("gaussian_blur/" + nmS, "gaussian_blur", [b, P("r"), s], None, w, h)
    ops2 = opaque_ops(ck, ("gaussian_blur", "unsharp", "despeckle"), conv)
    for v, val in modes(F, "DrawingMode"):
        chk("drawing/" + v, "drawing", [b, P("r"), val], ops2, w, h)
    nw, nh = P("nw"), P("nh")
    for s in (nw, nh): tm.BND[s] = (ZERO, T("inf"))
    for v, val in modes(F, "FilterMode"):
        chk("resize/" + v, "resize", [b, nw, nh, val], None, nw, nh)
    # compose and blend
    mw, mh = imax(w, W(o)), imax(h, H(o))
    for v, val in modes(F, "BlendOp")[:2]:
        chk("blend/" + v, "blend_image", [b, o, val, P("i")], conv, mw, mh)
    parts = parts[::-1]
    n += sum(v or 0 for v in ck.par(parts))
    o3 = buffer("third")
    mw3, mh3 = imax(mw, W(o3)), imax(mh, H(o3))
    for nm in ("compose", "compose_slice", "try_compose", "try_compose_slice"):
        for ls, xw, xh in (([b, o], mw, mh), ([b, o, o3], mw3, mh3)):
            A = run_compose(ck, nm, ls)
            if not A or not A.ok: continue
            r = A.ret
            if nm.startswith("try_"): r = ok_value(r)
            key = nm + "/%d" % len(ls)
            if r is None: ck.unk(key, "result shape", A.where); continue
            n += 1
            ck.eq(key + "/width", W(r), xw, "largest width", A.where)
            ck.eq(key + "/height", H(r), xh, "largest height", A.where)
    # crop: intersection with the image
    ox, oy, cw, ch = P("ox"), P("oy"), P("cw"), P("ch")
    for s in (ox, oy, cw, ch): tm.BND[s] = (ZERO, T("inf"))
    A = runop(ck, "crop", [b, ox, oy, cw, ch])
    if A and A.ok:
        iw, ih = imin(cw, sub(w, imin(ox, w))), imin(ch, sub(h, imin(oy, h)))
        empty = or_(eq(iw, ZERO), eq(ih, ZERO))
        n += 1
        gw, gh = dims(A.ret)
        ck.eq("crop/width", gw, ite(empty, ZERO, iw), "width of the intersection", A.where, asm=(valid(w, h),), limit=2000)
        ck.eq("crop/height", gh, ite(empty, ZERO, ih), "height of the intersection", A.where, asm=(valid(w, h),), limit=2000)
    # a simulated JPEG quality is the decoded form of the encoded buffer
    q, pa = P("quality"), P("preserve_alpha")
    A = runop(ck, "jpeg_quality", [b, q, pa], opaque=lambda n, k: n in ("d10_codecs::encode", "d10_codecs::decode_buffer"))
    if A and A.ok:
        n += 1
        enc, dec = calls(A, "d10_codecs::encode"), calls(A, "d10_codecs::decode_buffer")
        if ck.need("jpeg_quality/roundtrip", len(enc) == 1 and len(dec) == 1, "one encode and one decode", A.where):
            ck.need("jpeg_quality/encodes-input", b in enc[0].args, "the input buffer is encoded", A.where)
            ck.need("jpeg_quality/decodes-encoded", any(x.op == "post" and x.args[1] is enc[0].ret for x in subterms(dec[0].args[0])), "the encoded bytes are decoded: %s" % show(dec[0].args[0])[:120], A.where)
            d = fld(fld(down(dec[0].ret, "Ok"), 0), buffer_index(F), "buffer")
            gw, gh = dims(A.ret)
            ck.eq("jpeg_quality/width", gw, W(d), "width of the decoded image", A.where)
            ck.eq("jpeg_quality/height", gh, H(d), "height of the decoded image", A.where)
    # Image::resize_pct
    pct, I = P("pct"), P("image")
    img_b = fld(I, 0, "buffer")
    A = ck.run("d10::image::Image::resize_pct", args={0: I, 1: pct, 2: P("filter")}, opaque=lambda n, k: n.startswith("d10_ops::") and n.endswith("::resize"))
    if A and A.ok:
        n += 1
        cs = callsuf(A, "resize")
        if ck.need("resize_pct/delegates", len(cs) == 1, "one resize call", A.where):
            e = cs[0]
            f2 = fdiv(pct, C(100.0))
            ln = 1 if len(e.args) == 4 else None
            ww, hh = fld(img_b, 0, "width"), fld(img_b, 1, "height")
            for j, s, nm in ((1, ww, "width"), (2, hh, "height")):
                want = scaled(s, f2)
                ck.eq("resize_pct/" + nm, e.args[j], want, "the new %s is the old %s times the percentage, at least 1" % (nm, nm), A.where)
    ck.floor("operations", n, 45)
def scaled(s, f): return imax(T("f2i", "u32", tm.T("f", "round", fmul(T("i2f", s), f))), ONE)
def buffer_index(F):
    a = F.adt("d10_codecs::DecodedImage")
    fs = [f[0] for f in a["variants"][0]["fields"]]
    return fs.index("buffer")
def ok_value(r):
    """the value of the Ok branch of a Result term"""
    for leaf, pc in leaves(r):
        if leaf.op == "agg" and leaf.args[1] == "Ok": return leaf.args[2]
    return None
def leaves(t, pc=()):
    if t.op == "ite":
        yield from leaves(t.args[1], pc + (t.args[0],))
        yield from leaves(t.args[2], pc + (not_(t.args[0]),))
    else: yield t, pc
def run_compose(ck, nm, layers, opaque=None):
    b = op(ck, nm)
    if b is None: return None
    env = [("param", g[0], g[1]) for g in b["generics"]]
    for i, g in enumerate(b["generics"]):
        if g[1].isupper() and len(g[1]) == 1 and g[1] == "N" or is_const_generic(b, g[0]): env[i] = ("cv", len(layers))
    return ck.run(b["path"], body=b, args={0: tm.agg("array", "", *layers), 1: sym("default"), 2: sym("func")}, env=tuple(env), opaque=opaque)
def is_const_generic(b, i):
    def f(t): return isinstance(t, tuple) and (t[:1] == ("array",) and len(t) > 2 and isinstance(t[2], tuple) and t[2][:2] == ("param", i) or any(f(x) for x in t))
    return any(f(t) for t in b["body"]["locals"])

# ---- C29 ----------------------------------------------------------------------
def layer(b, x, y, default): return ite(and_(lt(x, W(b)), lt(y, H(b))), px(b, x, y), default)
def C29(ck):
    F = ck.F
    n = 0
    f, dfl = sym("func"), sym("default")
    for nm in ("compose", "compose_slice", "try_compose", "try_compose_slice"):
        for cnt in (1, 2, 3):
            ls = [buffer("layer%d" % i) for i in range(cnt)]
            A = run_compose(ck, nm, ls)
            if not A or not A.ok: continue
            key = "%s/%d" % (nm, cnt)
            r, t = A.ret, nm.startswith("try_")
            if t:
                r = ok_value(A.ret)
                if r is None: ck.unk(key, "result is not built from an Ok value: %s" % show(A.ret)[:200], A.where); continue
            n += 1
            mw, mh = W(ls[0]), H(ls[0])
            for l in ls[1:]: mw, mh = imax(mw, W(l)), imax(mh, H(l))
            x, y = bounded("x", mw), bounded("y", mh)
            got = index(fld(r, 2, "data"), add(x, mul(y, W(r))))
            cs, alien = set(), None
            for c, pc in leaves(got):
                if t:
                    if c.op == "fld" and c.args[0].op == "down" and c.args[0].args[1] == "Ok": c = c.args[0].args[0]
                    elif c.op == "call": c = BOT
                if c.op == "call" and c.args[0] == "apply" and c.args[2] is f and len(c.args) == 6: cs.add(c)
                else: alien = (c, pc)
            if alien or len(cs) != 1:
                # the callback's result must be the pixel
                c = alien[0] if alien else got
                (ck.bad if alien and c.op in ("call", "sym", "index", "agg", "c", "fld") else ck.unk)(key + "/callback", "output pixel is %s under %s, not the callback's result" % (show(c)[:100], [show(q)[:100] for q in (alien[1] if alien else ())]), A.where); continue
            c = cs.pop()
            ck.eq(key + "/x", c.args[3], x, "callback gets the output column", A.where)
            ck.eq(key + "/y", c.args[4], y, "callback gets the output row", A.where)
            ck.eq(key + "/layers", seqlen(c.args[5]), C(cnt), "callback gets one colour per layer", A.where)
            for i, l in enumerate(ls):
                ck.eq("%s/layer%d" % (key, i), index(c.args[5], C(i)), layer(l, x, y, dfl), "colour %d is layer %d at (x, y), or the default outside" % (i, i), A.where)
            # evaluated exactly once per output pixel
            evs = [e for e in A.events if e.kind == "apply" and e.args and e.args[0] is f]
            if len(evs) == 1: ck.need(key + "/once", len(evs[0].loops) >= 1, "one callback site inside loops over the output", A.where)
            elif not evs: ck.bad(key + "/once", "the callback is never called", A.where)
            else:
                both = [and_(*e.pc, *g.pc) for i, e in enumerate(evs) for g in evs[i + 1:]]
                if all(c is FALSE for c in both): ck.ok(key + "/once", "the callback sites exclude each other", A.where)
                else: (ck.bad if any(c is TRUE for c in both) else ck.unk)(key + "/once", "%d callback sites, two may run for one pixel" % len(evs), A.where)
            if len(evs) == 1 and evs[0].loops and all(isinstance(l[1], Term) for l in evs[0].loops): ck.eq(key + "/count", __import__("functools").reduce(mul, [l[1] for l in evs[0].loops]), mul(mw, mh), "callback runs once per output pixel", A.where)
            if t:
                k = None
                okc = [(leaf, pc) for leaf, pc in leaves(A.ret)]
                errs = [(l, pc) for l, pc in okc if l.op == "agg" and l.args[1] == "Err"]
                if not errs: ck.bad(key + "/error", "errors of the callback never reach the caller", A.where); continue
                e, pc = errs[0]
                p = e.args[2]
                good = p.op == "fld" and p.args[0].op == "down" and p.args[0].args[1] == "Err"
                cc = p.args[0].args[0] if good else None
                if not (good and cc.op == "call" and cc.args[0] == "apply"): ck.unk(key + "/error", "error value %s" % show(p)[:200], A.where); continue
                fx, fy = cc.args[3], cc.args[4]
                if fx.op == "first" and fy.op == "first":          # columns within rows
                    ck.eq(key + "/error-range", tup(fx.args[1], fy.args[1]), tup(mw, mh), "the first failing pixel of the whole output", A.where); continue
                fs = [z for z in subterms(fx) if z.op == "first"]
                if len(set(fs)) != 1: ck.unk(key + "/error", "no first failing pixel in %s" % show(p)[:200], A.where); continue
                ck.eq(key + "/error-range", fs[0].args[1], mul(mw, mh), "the first failing pixel of the whole output", A.where)
                ck.eq(key + "/error-x", fx, rem(fs[0], mw), "the error of the first failing pixel", A.where)
    # blending
    for v, val in modes(F, "BlendOp"):
        b1, b2 = buffer("layer1"), buffer("layer2")
        i = sym("intensity")
        A = runop(ck, "blend_image", [b1, b2, val, i], opaque=lambda n, k: n.startswith("d10_ops::") and n.rsplit("::", 1)[-1].startswith("blend_") and n.rsplit("::", 1)[-1] not in ("blend_image", "blend_image_with_func") and public(F, k))
        if not A or not A.ok: continue
        n += 1
        w, h = dims(A.ret)
        x, y = bounded("x", imax(W(b1), W(b2))), bounded("y", imax(H(b1), H(b2)))
        got = index(fld(A.ret, 2, "data"), add(x, mul(y, W(A.ret))))
        p1, p2 = px(b1, x, y), px(b2, x, y)
        key = "blend/" + v
        i1, i2 = (lt(x, W(b1)), lt(y, H(b1))), (lt(x, W(b2)), lt(y, H(b2)))
        in1, in2 = and_(*i1), and_(*i2)
        for j, nm in ((0, "x"), (1, "y")):
            a1, a2 = i1 + (not_(i2[j]),), i2 + (not_(i1[j]),)
            ck.eq("%s/only-first/%s" % (key, nm), simp(got, a1), p1, "where only the first image reaches its pixel is kept", A.where, asm=a1)
            ck.eq("%s/only-second/%s" % (key, nm), simp(got, a2), p2, "where only the second image reaches its pixel is used", A.where, asm=a2)
        g0 = simp(got, i1 + i2)
        if g0.op == "call":
            if len(g0.args) == 5:
                ck.eq(key + "/first", g0.args[2], p1, "first colour is the first image at (x, y)", A.where, asm=(in1, in2))
                ck.eq(key + "/second", g0.args[3], p2, "second colour is the second image at (x, y)", A.where, asm=(in1, in2))
                ck.eq(key + "/intensity", g0.args[4], i, "with the caller's intensity", A.where)
            else: ck.unk(key + "/both", show(g0)[:200], A.where)
        else: ck.unk(key + "/both", show(g0)[:200], A.where)
    ck.floor("compositions", n, 24)
def public(F, key): return key in F.bodies and F.bodies[key]["reach"]

# ---- C17 ----------------------------------------------------------------------
def chdeps(t):
    """(conversion or 'img', component) pairs a term reads from pixels"""
    s = set()
    for x in subterms(t):
        if x.op != "index": continue
        y, d, i = x.args[0], 0, x.args[1]
        while y.op in ("fld", "down"): y, d = y.args[0], d + 1
        if is_int(i): i = cval(i)
        else:
            # a loop over the channels: the first one it reaches
            m = tm.to_poly(i)
            i = "%d.." % m.get((), 0) if sum(1 for q in m if q) == 1 and all(v == 1 and len(q) == 1 for q, v in m.items() if q) else None
        if y.op == "call" and conv(y.args[0]): s.add((y.args[0].rsplit("::", 1)[-1], i))
        elif y.op == "index" and d: s.add(("img", i))
    return s
def outspace(F, t):
    """(colour type, components) of a pixel that is a colour, possibly converted back to RGB"""
    if t.op == "call" and t.args[0].endswith("::to_rgb"): t = t.args[2]
    if t.op == "agg" and t.args[0].startswith("adt:" + CP):
        ty = t.args[0][4:]
        return ty.rsplit("::", 1)[-1], [chan(F, ty[len(CP):], t, i) for i in range(4)]
    return None, None
BLENDS = {}
def C17(ck):
    b = buffer("img")
    x, y = xy(b)
    parts = [lambda: blend_rules(ck, b), lambda: edge_rules(ck, b, x, y), lambda: drawing_rules(ck, b, x, y), lambda: filter_rules(ck, b, "resize"), lambda: filter_rules(ck, b, "rotate"), lambda: gray_rules(ck)]
    parts = parts[3:5] + [lambda t=t, v=v: table_rules(ck, b, x, y, t, v) for t in ("balance", "equalize", "optimize_saturation") for v in modes(ck.F, MODE_ENUM[t])] + parts[:3] + parts[5:]
    n = sum(v or 0 for v in ck.par(parts))
    ck.floor("modes", n, 48)
MODE_ENUM = {"balance": "BalanceMode", "equalize": "EqualizeMode", "optimize_saturation": "SaturationMode"}
def blend_rules(ck, b):
    F, n = ck.F, 0
    # blending formulas over opaque conversions
    p, q = color(F, "rgb::Rgb", "p"), color(F, "rgb::Rgb", "q")
    t = sym("t")
    P_, Q_ = [chan(F, "rgb::Rgb", p, i) for i in range(4)], [chan(F, "rgb::Rgb", q, i) for i in range(4)]
    lerp = lambda a, c, s: fadd(fmul(a, fsub(F1, s)), fmul(c, s))
    per = {"addition": fadd, "subtract": fsub, "darken": fmin, "lighten": fmax}
    def cv(name, c, A):
        for e in A.events:
            if e.kind == "call" and e.name.rsplit("::", 1)[-1] == name and e.args and e.args[0] is c: return e.ret
        return None
    seen_forms = {}
    for v, val in modes(F, "BlendOp"):
        nm = snake(v)
        b1, b2 = buffer("layer1"), buffer("layer2")
        A = runop(ck, "blend_image", [b1, b2, val, t], opaque=conv)
        if not A or not A.ok: continue
        X, Y = bounded("x", imax(W(b1), W(b2))), bounded("y", imax(H(b1), H(b2)))
        got = index(fld(A.ret, 2, "data"), add(X, mul(Y, W(A.ret))))
        in1 = [lt(X, W(b1)), lt(Y, H(b1)), lt(X, W(b2)), lt(Y, H(b2))]
        got = simp(got, tuple(in1))
        p1, p2 = px(b1, X, Y), px(b2, X, Y)
        got = subst(got, {p1: p, p2: q})
        n += 1
        seen_forms.setdefault(got, []).append(v)
        key = "blend/" + v
        if nm in per or nm == "normal":
            for i in range(3):
                o = per[nm](P_[i], Q_[i]) if nm in per else Q_[i]
                ck.eq("%s/%d" % (key, i), chan(F, "rgb::Rgb", got, i), clamp01(lerp(P_[i], o, fmul(t, Q_[3]))), "%s of channel %d weighted by intensity and alpha" % (nm, i), A.where)
            continue
        sp = nm.split("_")[0]
        ty, cs = outspace(F, got)
        want_ty = {"hsl": "Hsl", "lch": "Lch"}[sp]
        if ty is None: ck.unk(key, "result %s" % show(got)[:200], A.where); continue
        if not ck.need(key + "/space", ty == want_ty, "blends in %s (%s)" % (want_ty, ty), A.where): continue
        s1 = conv_of(got, "to_" + sp, p); s2 = conv_of(got, "to_" + sp, q)
        if s1 is None: ck.unk(key, "first colour not converted to %s" % sp, A.where); continue
        a = [index(data_fld(F, ty, s1), C(i)) for i in range(4)]
        c = [index(data_fld(F, ty, s2), C(i)) if s2 is not None else None for i in range(4)]
        what = nm.split("_")[1]
        L = 2 if sp == "hsl" else 0
        mod = {"darken": {L: lambda i: lerp(a[i], fmin(a[i], c[i]), t)}, "lighten": {L: lambda i: lerp(a[i], fmax(a[i], c[i]), t)},
               "hue": {2: None}, "saturation": {1: lambda i: lerp(a[i], c[i], t)}, "color": {1: lambda i: lerp(a[i], c[i], t), 2: lambda i: lerp(a[i], c[i], t)}}[what]
        for i in range(4):
            if i in mod:
                if s2 is None: ck.bad("%s/%d" % (key, i), "component %d ignores the second colour" % i, A.where); continue
                if mod[i] is None:
                    # hue: interpolated on the shorter arc; equal hues and zero intensity keep it
                    d = chdeps(cs[i])
                    ck.need("%s/%d" % (key, i), d == {("to_lch", 2)}, "hue depends on the two hues only (%s)" % sorted(d, key=str), A.where)
                    near = fle(T("f", "abs", fsub(a[2], c[2])), C(pi32()))
                    ck.eq("%s/near" % key, simp(cs[i], (near,)), lerp(a[2], c[2], t), "hues less than half a turn apart are interpolated", A.where, asm=(near,))
                    # otherwise the lower hue is taken one turn further and the result brought back
                    far, PI_ = not_(near), C(pi32())
                    turn = fmul(C(2.0), PI_)
                    m = ite(flt(a[2], F0), lerp(fadd(a[2], turn), c[2], t), lerp(a[2], fadd(c[2], turn), t))
                    ck.eq("%s/far" % key, simp(cs[i], (far,)), ite(flt(PI_, m), fsub(m, turn), m), "hues more than half a turn apart are interpolated across the turn", A.where, asm=(far,))
                else: ck.eq("%s/%d" % (key, i), cs[i], mod[i](i), "component %d blended by %s" % (i, what), A.where)
            else: ck.eq("%s/%d" % (key, i), cs[i], a[i], "component %d of the first colour is kept" % i, A.where)
    for g, vs in seen_forms.items():
        ck.need("blend/distinct/" + vs[0], len(vs) == 1, "%s have their own formula" % vs, "")
    # every public per-colour blend function is the one the mode runs
    for v, val in modes(F, "BlendOp"):
        bn = op(ck, "blend_" + snake(v))
        if bn is None: continue
        B = ck.run(bn["path"], body=bn, args={0: p, 1: q, 2: t}, opaque=conv)
        if not B or not B.ok: continue
        forms = [g for g, vs in seen_forms.items() if v in vs]
        if forms: ck.eq("blend/function/" + v, forms[0], B.ret, "blend_image in mode %s computes blend_%s" % (v, snake(v)), B.where)
    return n
def table_rules(ck, b, x, y, name, mode):
    F, n = ck.F, 0
    # modes that work on some channels of one colour space
    tables = {
        "balance": ("BalanceMode", {"Rgb": ("Rgb", "img", (0, 1, 2)), "Srgb": ("Srgb", "to_srgb", (0, 1, 2)), "Hsv": ("Hsv", "to_hsv", (1, 2)), "Hsl": ("Hsl", "to_hsl", (1, 2)), "Lch": ("Lch", "to_lch", (0, 1))}, lambda v: [b, v, sym("threshold")]),
        "equalize": ("EqualizeMode", {"Rgb": ("Rgb", "img", (0, 1, 2)), "Srgb": ("Srgb", "to_srgb", (0, 1, 2)), "Saturation": ("Hsl", "to_hsl", (1,)), "Lightness": ("Hsl", "to_hsl", (2,)), "SaturationLightness": ("Hsl", "to_hsl", (1, 2))}, lambda v: [b, v]),
        "optimize_saturation": ("SaturationMode", {"Hsl": ("Hsl", "to_hsl", {1: (1, 2)}), "Hsv": ("Hsv", "to_hsv", {1: (1, 2)}), "Lch": ("Lch", "to_lch", {1: (0, 1)})}, lambda v: [b, sym("offset"), v]),
    }
    en, table, mk = tables[name]
    for v, val in (mode,):
        if True:
            if not ck.need("%s/%s/known" % (name, v), v in table, "mode %s is documented" % v): return n
            ty, src, chs = table[v]
            if not isinstance(chs, dict): chs = {i: (i,) for i in chs}
            A = runop(ck, name, mk(val), opaque=conv)
            if not A or not A.ok: return n
            n += 1
            key = "%s/%s" % (name, v)
            got = index(fld(A.ret, 2, "data"), add(x, mul(y, W(b))))
            if name == "optimize_saturation":
                # colours without saturation may be passed on as they are
                lv = [l for l, _ in leaves(got) if l is not px(b, x, y)]
                if len(lv) == 1: got = lv[0]
            gty, cs = outspace(F, got)
            if gty is None: ck.unk(key, "pixel is %s" % show(got)[:150], A.where); return n
            ck.need(key + "/space", gty == ty, "works in %s (%s)" % (ty, gty), A.where)
            for i in range(4):
                d = chdeps(cs[i])
                if i in chs:
                    ck.need("%s/%d" % (key, i), d - {(src, "%d.." % min(min(z) for z in chs.values()))} == {(src, j) for j in chs[i]}, "component %d is computed from component(s) %s of %s: %s" % (i, chs[i], src, sorted(d, key=str)), A.where)
                elif i < 3:
                    ck.need("%s/%d" % (key, i), cs[i].op == "index" and d == {(src, i)}, "component %d is kept: %s" % (i, show(cs[i])[:80]), A.where)
                else:
                    c3 = unclamp(cs[i])
                    if name == "optimize_saturation":
                        j = min(chs)
                        sums = [z for z in subterms(cs[j]) if z.op == "ssum"]
                        if not sums: ck.unk("%s/average" % key, "no sum over the pixels in %s" % show(cs[j])[:200], A.where)
                        for z in sums:
                            ck.need("%s/average" % key, chdeps(z.args[2]) == {(src, j)} and z.args[1] is mul(W(b), H(b)), "the average is taken of component %d of %s over all pixels: %s of %s" % (j, src, sorted(chdeps(z.args[2]), key=str), show(z.args[1])), A.where)
                    ck.need("%s/alpha" % key, c3.op == "index" and d in ({(src, 3)}, {("img", 3)}), "alpha is kept: %s" % show(cs[i])[:80], A.where)
    return n
def gray_rules(ck):
    F, n = ck.F, 0
    p, q = color(F, "rgb::Rgb", "p"), color(F, "rgb::Rgb", "q")
    # gray intensities
    luma = {"Rec601Luma": (0.298_839, 0.586_811, 0.114_350), "Rec709Luma": (0.212_656, 0.715_158, 0.072_186)}
    c = [chan(F, "rgb::Rgb", p, i) for i in range(4)]
    mx = fmax(fmax(c[0], c[1]), c[2]); mn = fmin(fmin(c[0], c[1]), c[2])
    for v, val in modes(F, "Intensity"):
        A = ck.run(CP + "rgb::Rgb::to_gray_with_intensity", args={0: p, 1: val}, opaque=conv)
        if not A or not A.ok: continue
        n += 1
        if v in luma:
            want = fadd(fadd(fmul(c[0], cf(luma[v][0])), fmul(c[1], cf(luma[v][1]))), fmul(c[2], cf(luma[v][2])))
        elif v == "Saturation":
            got = chan(F, "rgb::Rgb", A.ret, 0)
            ck.need("intensity/" + v, got.op == "index" and chdeps(got) == {("to_hsl", 1)}, "saturation of the HSL colour: %s" % show(got)[:100], A.where)
            want = got
        else: want = {"Average": fdiv(fadd(fadd(c[0], c[1]), c[2]), C(3.0)), "Brightness": mx, "Lightness": fdiv(fadd(mn, mx), C(2.0)), "Red": c[0], "Green": c[1], "Blue": c[2]}.get(v)
        if want is None: ck.bad("intensity/" + v, "undocumented intensity", A.where); continue
        for i in range(3):
            if v in luma: near_eq(ck, "intensity/%s/%d" % (v, i), chan(F, "rgb::Rgb", A.ret, i), luma[v], c, A.where)
            else:
                # components lie in 0..1: compare with and without redundant bounds
                g = chan(F, "rgb::Rgb", A.ret, i)
                m = {z: clamp01(z) for z in c[:3]}
                ck.eq_any("intensity/%s/%d" % (v, i), subst(g, m), [subst(want, m), want], "gray value by %s" % v, A.where)
        ck.eq("intensity/%s/alpha" % v, chan(F, "rgb::Rgb", A.ret, 3), c[3], "alpha kept", A.where)
    return n
def near_eq(ck, key, got, weights, c, where):
    """got is the weighted sum of the channels, weights within 0.001 of the standard's"""
    m = tm.to_fpoly(got)
    ok = set(m) <= {(x,) for x in c[:3]}
    if not ok: return ck.unk(key, show(got)[:200], where)
    w = [float(m.get((x,), 0)) for x in c[:3]]
    ck.need(key, all(abs(a - b) < 0.001 for a, b in zip(w, weights)), "luma weights %s" % (w,), where)
def pi32():
    import struct, math
    return struct.unpack("<f", struct.pack("<f", math.pi))[0]
def unclamp(t):
    while t.op in ("fmin", "fmax"):
        r = [a for a in t.args if isinstance(a, Term) and not is_c(a)]
        if len(r) != 1: return t
        t = r[0]
    return t
def conv_of(t, name, c):
    for z in subterms(t):
        if z.op == "call" and z.args[0].rsplit("::", 1)[-1] == name and z.args[-1] is c: return z
    return None
def data_fld(F, ty, v):
    for a in F.adts.values():
        if a["path"].startswith(CP) and a["path"].rsplit("::", 1)[-1] == ty and a["path"][len(CP):] in COLORS: return data_of(F, a["path"][len(CP):], v)

def edge_rules(ck, b, x, y):
    F, n = ck.F, 0
    def summ(nm, k=None):
        if nm.rsplit("::", 1)[-1] in ("apply_kernel", "apply_kernel_dyn") and nm.startswith(PBT): return same_dims(nm)
        return False
    SX = ((1, 0, -1), (2, 0, -2), (1, 0, -1))
    SY = tuple(zip(*SX))
    LA = ((1, 1, 1), (1, -8, 1), (1, 1, 1))
    norm = lambda k: max(k, tuple(tuple(-v for v in r) for r in k))
    for v, val in modes(F, "EdgeDetection"):
        A = runop(ck, "edge_detection", [b, val], opaque=summ)
        if not A or not A.ok: continue
        n += 1
        key = "edge/" + v
        ks = {}
        for e in A.events:
            if e.kind == "call" and e.name.endswith("::apply_kernel"):
                k = kernel_values(e.args[1])
                if k is None: ks = None; break
                ks[norm(k)] = e
                ck.need(key + "/input", e.args[0] is b, "the kernel is applied to the input image", A.where)
        if ks is None: ck.unk(key, "kernel values unknown", A.where); continue
        want = {"Sobel": {norm(SX), norm(SY)}, "Laplace": {norm(LA)}}.get(v)
        if not ck.need(key + "/kernels", want is not None and set(ks) == want, "%s kernels: %s" % (v, sorted(ks)), A.where): continue
        got = index(fld(A.ret, 2, "data"), add(x, mul(y, W(b))))
        pxs = {k: index(fld(e.ret, 2, "data"), add(x, mul(y, W(b)))) for k, e in ks.items()}
        for i in range(3):
            g = unclamp(chan(F, "rgb::Rgb", got, i))
            if v == "Sobel":
                sq = ZERO and None
                s = C(Fraction(0))
                for k in sorted(pxs): s = fadd(s, fmul(chan(F, "rgb::Rgb", pxs[k], i), chan(F, "rgb::Rgb", pxs[k], i)))
                ck.eq("%s/%d" % (key, i), g, T("f", "sqrt", s), "channel %d is the gradient's magnitude" % i, A.where)
            else: ck.eq("%s/%d" % (key, i), g, chan(F, "rgb::Rgb", list(pxs.values())[0], i), "channel %d is the kernel's response" % i, A.where)
    return n
def kernel_values(k):
    for z in subterms(k):
        if z.op == "agg" and z.args[0] == "array" and all(r.op == "agg" and r.args[0] == "array" for r in z.args[2:]) and len(z.args) > 2:
            try: return tuple(tuple(float(cval(v)) for v in r.args[2:]) for r in z.args[2:])
            except Exception: return None
    return None

def drawing_rules(ck, b, x, y):
    F, n = ck.F, 0
    res = {}
    for v, val in modes(F, "DrawingMode"):
        A = runop(ck, "drawing", [b, sym("radius"), val], opaque=opaque_ops(ck, ("gaussian_blur", "unsharp", "despeckle"), conv))
        if not A or not A.ok: continue
        n += 1
        res[v] = (A, index(fld(A.ret, 2, "data"), add(x, mul(y, W(b)))))
    if set(res) >= {"Gray", "Colored"}:
        A, g = res["Gray"]
        ck.need("drawing/Gray", not any(z.op == "call" and conv(z.args[0]) and z.args[2] is px(b, x, y) for z in subterms(g)), "the gray drawing has no colour of the source pixel", A.where)
        A, c = res["Colored"]
        if g.op == "index": c = subst(c, {g: sym("drawn")}); g = sym("drawn")
        ty, cs = outspace(F, c)
        if ty is None: ck.unk("drawing/Colored", show(c)[:200], A.where)
        else:
            ho, hd = conv_of(c, "to_hsl", px(b, x, y)), conv_of(c, "to_hsl", g)
            if ho is None or hd is None: ck.unk("drawing/Colored", "no HSL of source and drawing", A.where)
            else:
                do, dd = data_fld(F, "Hsl", ho), data_fld(F, "Hsl", hd)
                ck.need("drawing/Colored/space", ty == "Hsl", "merged in HSL", A.where)
                ck.eq("drawing/Colored/0", cs[0], index(do, C(0)), "hue of the source", A.where)
                ck.eq("drawing/Colored/1", cs[1], index(do, C(1)), "saturation of the source", A.where)
                ck.eq("drawing/Colored/2", cs[2], fmin(index(do, C(2)), index(dd, C(2))), "darker of source and drawing", A.where)
    pairs = [(a, c) for a in res for c in res if a < c]
    for a, c in pairs:
        ck.need("drawing/distinct/%s-%s" % (a, c), res[a][1] is not res[c][1], "%s and %s differ" % (a, c), res[a][0].where)
    return n

def filter_rules(ck, b, only):
    """resize and rotate: the filter reads the neighbourhood of its name"""
    F, n = ck.F, 0
    RDS = {"Nearest": 1, "Bilinear": 4, "Bicubic": 16}
    nw, nh = sym("nw"), sym("nh")
    for s in (nw, nh): tm.BND[s] = (ZERO, T("inf"))
    diff = (not_(and_(eq(W(b), nw), eq(H(b), nh))),)
    XR, YR = bounded("x", nw), bounded("y", nh)
    XB, YB = xy(b)
    for name, args, where in (("resize", lambda v: [b, nw, nh, v], None), ("rotate", lambda v: [b, sym("rad"), sym("bg"), v], None)):
        if name != only: continue
        px_of = {}
        for v, val in modes(F, "FilterMode"):
            A = runop(ck, name, args(val))
            if not A or not A.ok: continue
            n += 1
            r = A.ret
            d = simp(fld(r, 2, "data"), diff) if name == "resize" else fld(r, 2, "data")
            if name == "rotate":
                # not a full turn
                ls = [l for l, pc in leaves(r)]
                d = fld([l for l in ls if l is not b][0], 2, "data") if any(l is not b for l in ls) else d
            enl = None
            if name == "resize":
                X, Y = XR, YR
                got = index(d, add(X, mul(Y, nw)))
                if v == "Auto":
                    up, dn = or_(le(W(b), nw), le(H(b), nh)), and_(lt(nw, W(b)), lt(nh, H(b)))
                    px_of["Auto"] = (simp(got, (lt(W(b), nw),)), A, (lt(W(b), nw),))
                    px_of["Auto2"] = (simp(got, (lt(H(b), nh),)), A, (lt(H(b), nh),))
                    px_of["AutoDown"] = (simp(got, (dn,)), A, (dn,))
                    continue
            else:
                X, Y = XB, YB
                got = index(d, add(X, mul(Y, W(b))))
            px_of[v] = (got, A, ())
        def reads(t): return {z for z in subterms(t) if z.op == "index" and z.args[0] is D(b)}
        for v, k in RDS.items():
            if v not in px_of: continue
            got, A, _ = px_of[v]
            r = reads(simp(got, (lt(W(b), nw), lt(H(b), nh))) if name == "resize" else got)
            ck.need("%s/%s/taps" % (name, v), len(r) == k, "%s reads %d source pixels (%d)" % (v, k, len(r)), A.where)
        if "Lanczos3" in px_of:
            got, A, _ = px_of["Lanczos3"]
            ck.need("%s/Lanczos3/kernel" % name, any(z.op == "f" and z.args[0] == "sin" for z in subterms(got)), "Lanczos3 weights use a windowed sinc", A.where)
        pairs = [("Auto", "Bicubic")] + ([("Auto2", "Bicubic")] if name == "resize" else [])
        for a, c in pairs:
            if a in px_of and c in px_of:
                ck.eq("%s/%s==%s" % (name, a, c), px_of[a][0], px_of[c][0], "automatic filter is bicubic" + (" when enlarging" if name == "resize" else ""), px_of[a][1].where, asm=px_of[a][2])
        if "AutoDown" in px_of and "Bicubic" in px_of:
            ck.need("%s/auto-shrink" % name, px_of["AutoDown"][0] is not px_of["Bicubic"][0], "automatic filter is not bicubic when shrinking", px_of["AutoDown"][1].where)
        vs = [v for v in px_of if not v.startswith("Auto")]
        for i, a in enumerate(vs):
            for c in vs[i + 1:]:
                ck.need("%s/distinct/%s-%s" % (name, a, c), px_of[a][0] is not px_of[c][0], "%s and %s run different filters" % (a, c), px_of[a][1].where)
    return n

RULES = {
 "C09": (C09, "Copying and in-place forms are abstractly evaluated on the same symbolic buffer; the closed forms of pixel i, of the success condition and of the first error are compared."),
 "C10": (C10, "Every operation and mode is abstractly evaluated on a symbolic buffer; the closed forms of the output dimensions are compared with the documented ones."),
 "C11": (C11, "Flips, right-angle rotations and crop are abstractly evaluated for symbolic sizes; the closed form of the output array at a symbolic position is compared with the geometric source pixel."),
 "C17": (C17, "Every mode of every parameterised operation is abstractly evaluated; the pixel's closed form is compared with the formula of that name, or its channel data dependences with the colour space and components of that name."),
 "C29": (C29, "compose (1 to 3 layers, array and slice, fallible or not) and blend_image are abstractly evaluated with symbolic layers and callback; callback arguments, call count, the default and the first error are compared with the specification."),
}

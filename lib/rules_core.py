"""Rules over d10-core: buffer invariant, pixel access, maps, equality, accessors."""
from fw import *
from fractions import Fraction
import term as tm
import models

PB = "d10_core::pixelbuffer::PixelBuffer"
M = "d10_core::pixelbuffer::"
MAXPIX = C((2**31 - 1) // 2)

def W(b): return fld(b, 0, "width")
def H(b): return fld(b, 1, "height")
def D(b): return fld(b, 2, "data")
def buffer(name):
    """a symbolic PixelBuffer that satisfies the type invariant"""
    b = sym(name)
    tm.SEQ_LEN[D(b)] = mul(W(b), H(b))
    tm.BND[W(b)] = tm.BND[H(b)] = (ZERO, T("inf"))
    return b
def valid(w, h):
    return ite(eq(w, ZERO), eq(h, ZERO), and_(not_(eq(h, ZERO)), le(mul(w, h), MAXPIX)))
def px(b, x, y): return index(D(b), add(x, mul(y, W(b))))
def xy(b_or_wh):
    w, h = (W(b_or_wh), H(b_or_wh)) if isinstance(b_or_wh, Term) else b_or_wh
    return bounded("x", w), bounded("y", h)

def bodies_with_agg(F, path, crate=None):
    """bodies (closures attributed to their root function) that construct adt `path`"""
    out = {}
    for b in F.bodies.values():
        if crate and b["crate"] != crate: continue
        hit = any(s[0] == "=" and s[2][0] == "agg" and s[2][1][0] == "adt" and s[2][1][1] == path
                  for blk in b["body"]["blocks"] for s in blk["s"])
        if hit:
            r = b
            while r["root"] and r["root"] != r["key"] and r["root"] in F.bodies: r = F.bodies[r["root"]]
            out[r["key"]] = r
    return out

def contains_type(t, pred):
    if isinstance(t, tuple):
        if pred(t): return True
        return any(contains_type(x, pred) for x in t)
    return False

def C01(ck):
    F = ck.F
    a = F.adt(PB)
    if not ck.need("struct", a is not None, "PixelBuffer exists"): return
    fields = [f[0] for f in a["variants"][0]["fields"]]
    ck.need("fields-private", not any(f[2] for f in a["variants"][0]["fields"]),
            "no field of PixelBuffer is public (fields %s)" % fields, a["file"])
    if not F.layout_known: ck.unk("fields-layout", "the fields of PixelBuffer holding width, height and pixels are not recognised", a["file"])
    # size predicate
    w, h = sym("width"), sym("height")
    A = ck.run(M + "is_valid_buffer_size")
    if A:
        ck.eq("is_valid_buffer_size", A.ret, valid(w, h), "true exactly for both-zero or both-non-zero sizes of at most i32::MAX/2 pixels", A.where)
        for e in A.events:
            if e.kind == "narrow": ck.bad("is_valid_buffer_size/overflow", "size computed in %s: %s" % (e.targs, show(e.ret)), "%s:%s" % (e.fn, e.line))
        ck.need("is_valid_buffer_size/total", panic_cond(A) is FALSE, "never panics", A.where)
    b = F.fn(M + "MAX_BUFFER_SIZE")
    if b is not None:
        v = Engine(F).eval_const(b, ())
        ck.eq("MAX_BUFFER_SIZE", v, MAXPIX, "documented maximum i32::MAX / 2")
    # constructors and everything else that builds a PixelBuffer
    ctors = {"new": (), "new_with_color": (), "new_from_raw": ("data",), "try_new_from_func": (), "new_from_func": ()}
    for n in ctors:
        p = PB + "::" + n
        data = sym("data")
        A = ck.run(p)
        if not A: continue
        lenok = eq(seqlen(data), mul(w, h)) if n == "new_from_raw" else TRUE
        if A.st is None: ck.bad(n + "/returns", "never returns", A.where); continue
        pc = and_(*A.st.pc)
        bad = and_(pc, not_(and_(valid(w, h), lenok)))
        ck.eq(n + "/refuses-invalid", bad, FALSE, "returns only when size (and data length) are valid", A.where)
        pan = FALSE
        for e in A.events:
            if e.kind in ("panic", "assert") and not e.loops:
                pan = or_(pan, and_(*e.pc, not_(e.ret) if e.kind == "assert" else TRUE))
        ck.eq(n + "/accepts-valid", and_(pan, valid(w, h), lenok, lt(mul(w, h), C(1 << 64))), FALSE, "never refuses a valid size", A.where)
        for e in A.events:
            if e.kind == "narrow":
                t = and_(*e.pc, not_(valid(w, h)))
                ck.eq("%s/overflow" % n, t, FALSE, "size arithmetic in %s only after validation (%s)" % (e.targs, show(e.ret)), "%s:%s" % (e.fn, e.line))
    cons = bodies_with_agg(F, PB)
    nobl = 0
    for key, b in sorted(cons.items()):
        if b["crate"] != "d10_core" or not b["path"].startswith(M) and not b["path"].startswith("<" + M):
            ck.bad("construct/" + b["path"], "PixelBuffer constructed outside its module", "%s:%s" % (b["file"], b["line"])); continue
        slf = buffer("self")
        A = ck.run(b["path"], body=b, args={"self": slf})
        for e in A.events:
            if e.kind != "adt" or e.name != PB: continue
            nobl += 1
            ew, eh, ed = e.args[:3]
            nm = b["path"].split("::")[-1]
            asm = tuple(lit for p in e.pc for lit in ([p] if p.op != "and" else p.args))
            ck.eq("construct/%s/len" % nm, seqlen(ed), mul(ew, eh), "stored pixels == width*height", "%s:%s" % (e.fn, e.line), asm=asm)
            if ew is W(slf) and eh is H(slf) or ew is H(slf) and eh is W(slf): ck.ok("construct/%s/size" % nm, "dimensions of an existing buffer")
            else: ck.eq("construct/%s/size" % nm, and_(*asm, not_(valid(ew, eh))), FALSE, "dimensions validated before construction", "%s:%s" % (e.fn, e.line))
    ck.floor("construction sites", nobl, 10)
    # no operation changes the dimensions or the pixel count
    n = 0
    for b in F.bodies.values():
        if b["crate"] != "d10_core" or not b["self"] or b["self"][:2] != ("adt", PB) or "{closure" in b["path"]: continue
        bd = b["body"]
        if not bd["argc"] or b["kind"] == "closure" or "{closure" in b["key"]: continue
        t1 = bd["locals"][1]
        if not (t1[0] == "ref" and t1[1] and t1[2][0] == "adt" and t1[2][1] == PB): continue
        slf = buffer("self")
        A = ck.run(b["path"], body=b, args={b["params"][0]: slf})
        n += 1
        nm = b["path"].split("::")[-1]
        if A.st is None: continue
        fin = ck.out(A, b["params"][0])
        ck.eq("mutate/%s/width" % nm, fld(fin, 0, "width"), W(slf), "width unchanged", A.where)
        ck.eq("mutate/%s/height" % nm, fld(fin, 1, "height"), H(slf), "height unchanged", A.where)
        ck.eq("mutate/%s/len" % nm, seqlen(fld(fin, 2, "data")), mul(W(slf), H(slf)), "pixel count unchanged", A.where)
    ck.floor("&mut self methods", n, 6)
    # no public signature hands out a resizable view of the storage or a mutable size
    vec_mut = lambda t: t[0] == "ref" and len(t) > 2 and t[1] is True and (t[2][:2] == ("adt", "alloc::vec::Vec") or t[2] == ("prim", "u32"))
    k = 0
    for b in F.bodies.values():
        if b["crate"] != "d10_core" or not b["reach"] or not b["self"] or b["self"][:2] != ("adt", PB): continue
        k += 1
        r = b["body"]["locals"][0]
        if contains_type(r, lambda t: len(t) > 2 and vec_mut(t)):
            ck.bad("escape/" + b["path"], "returns a mutable reference into the buffer's size or vector", "%s:%s" % (b["file"], b["line"]))
    ck.floor("public PixelBuffer methods", k, 30)


COLORS = {"rgb::Rgb": ("red", "green", "blue"), "srgb::Srgb": ("red", "green", "blue"), "hsl::Hsl": ("hue", "saturation", "lightness"),
          "hsv::Hsv": ("hue", "saturation", "value"), "yuv::Yuv": ("y", "u", "v"), "xyz::Xyz": ("x", "y", "z"),
          "lab::Lab": ("l", "a", "b"), "lab::Lch": ("l", "c", "h")}
CP = "d10_core::color::"
CT = CP + "Color"
EPS = C(Fraction(1, 32768))
F1, F0 = C(Fraction(1)), C(Fraction(0))
def clamp01(x): return fmin(F1, fmax(F0, x))

def color(F, ty, name, comps=None):
    """an explicit colour value of type `ty` (path below d10_core::color)"""
    a = F.adt(CP + ty)
    fs = a["variants"][0]["fields"]
    if comps is None: comps = [sym("%s_%d" % (name, i)) for i in range(4)]
    vals = []
    for f in fs:
        vals.append(tm.agg("array", "", *comps) if f[0] == "data" else sym("phantom"))
    return tm.mkagg("adt:" + CP + ty, a["variants"][0]["name"], *vals)
def data_of(F, ty, v):
    a = F.adt(CP + ty)
    i = [f[0] for f in a["variants"][0]["fields"]].index("data")
    return fld(v, i, "data")
def chan(F, ty, v, i): return index(data_of(F, ty, v), C(i))
def tpath(ty, m, trait=CT): return "<%s%s as %s>::%s" % (CP, ty, trait, m)

def apply_events(A): return [e for e in A.events if e.kind == "apply"]

# ---------------------------------------------------------------- C12: pixel access
def inside(x, y, b): return and_(le(ZERO, x), lt(x, W(b)), le(ZERO, y), lt(y, H(b)))
def nonempty(b): return and_(lt(ZERO, W(b)), lt(ZERO, H(b)))
def clampi(v, n): return imax(ZERO, imin(v, sub(n, ONE)))

def C12(ck):
    F = ck.F
    b = buffer("buf")
    x, y, c = sym("px"), sym("py"), sym("col")
    nneg = (le(ZERO, x), le(ZERO, y))
    dims = (le(ZERO, W(b)), le(ZERO, H(b)), valid(W(b), H(b)))
    # get_pixel / put_pixel
    A = ck.run(PB + "::get_pixel", args={0: b, 1: x, 2: y})
    if A:
        if ck.need("get_pixel/returns", A.ok, "returns for some coordinates", A.where):
            ck.eq("get_pixel/value", A.ret, px(b, x, y), "the pixel at (x, y)", A.where, asm=nneg + tuple(lits_of(A.st.pc)))
            ck.eq("get_pixel/guard", and_(*A.st.pc, not_(inside(x, y, b))), FALSE, "returns only for coordinates inside both axes", A.where, asm=nneg)
            ck.eq("get_pixel/accepts", and_(panic_only(A), inside(x, y, b)), FALSE, "never refuses coordinates inside the image", A.where, asm=nneg)
    A = ck.run(PB + "::put_pixel", args={0: b, 1: x, 2: y, 3: c})
    if A:
        if ck.need("put_pixel/returns", A.ok, "returns for some coordinates", A.where):
            o = ck.out(A, 0)
            ck.eq("put_pixel/value", D(o), store(D(b), add(x, mul(y, W(b))), c), "stores exactly at (x, y)", A.where, asm=nneg + tuple(lits_of(A.st.pc)))
            ck.eq("put_pixel/guard", and_(*A.st.pc, not_(inside(x, y, b))), FALSE, "writes only for coordinates inside both axes", A.where, asm=nneg)
            ck.eq("put_pixel/accepts", and_(panic_only(A), inside(x, y, b)), FALSE, "never refuses coordinates inside the image", A.where, asm=nneg)
    A = ck.run(PB + "::is_in_image", args={0: b, 1: x, 2: y})
    if A and A.ok: ck.eq("is_in_image", A.ret, inside(x, y, b), "true exactly inside both axes", A.where, asm=dims)
    A = ck.run(PB + "::get_pixel_optional", args={0: b, 1: x, 2: y})
    if A and A.ok:
        ck.eq("get_pixel_optional", A.ret, ite(inside(x, y, b), some(px(b, x, y)), en.T("agg", tm.OPT, "None")), "pixel inside, nothing outside", A.where, asm=dims)
        ck.eq("get_pixel_optional/total", panic_only(A), FALSE, "never panics on an image that holds width*height pixels", A.where, asm=dims)
    ne = tuple(lits_of((nonempty(b),)))
    clp = px(b, clampi(x, W(b)), clampi(y, H(b)))
    A = ck.run(PB + "::get_pixel_clamped", args={0: b, 1: x, 2: y})
    if A and A.ok:
        ck.eq("get_pixel_clamped", A.ret, clp, "nearest pixel of a non-empty image", A.where, asm=ne)
        ck.eq("get_pixel_clamped/total", panic_only(A), FALSE, "never panics on a non-empty image", A.where, asm=ne)
    # kernel windows
    q = sym("half"); n = 0
    tm.BND[q] = (ZERO, T("inf"))
    for r in (0, 1):
        size = add(mul(C(2), q), C(r))
        for nm in ("get_kernel", "get_kernel_dyn"):
            bb = F.fn(PB + "::" + nm)
            if bb is None: ck.bad("anchor/" + nm, "no %s" % nm); continue
            if nm == "get_kernel":
                A = ck.run(PB + "::" + nm, args={0: b, 1: x, 2: y}, env=const_env(bb, size))
            else: A = ck.run(PB + "::" + nm, args={0: b, 1: x, 2: y, 3: size})
            if not A or not A.ok: continue
            tx, ty = bounded("tx", size), bounded("ty", size)
            got = index(index(A.ret, ty), tx)
            want = px(b, clampi(add(x, sub(tx, q)), W(b)), clampi(add(y, sub(ty, q)), H(b)))
            asm = ne + (le(ONE, size),)
            ck.eq("%s/%s" % (nm, "odd" if r else "even"), got, want, "window cell (tx, ty) is the clamped pixel at (x+tx-N/2, y+ty-N/2)", A.where, asm=asm, limit=3000)
            ck.eq("%s/rows/%d" % (nm, r), seqlen(A.ret), size, "N rows", A.where)
            n += 1
    ck.floor("kernel window cases", n, 4)
    # coordinates handed to callbacks and enumerations
    X, Y = xy((W(b), H(b)))
    i = add(X, mul(Y, W(b)))
    def at(seq): return index(seq, i)
    A = ck.run(PB + "::enumerate", args={0: b})
    if A and A.ok:
        s = items_of(A)
        if s is None: ck.unk("enumerate", "result is not a recognised iterator", A.where)
        else:
            ck.eq("enumerate/len", seqlen(s), mul(W(b), H(b)), "one item per pixel", A.where)
            ck.eq("enumerate/item", at(s), tm.tup(X, Y, px(b, X, Y)), "item i is (x, y, pixel at (x, y))", A.where)
    f = sym("fun")
    nw, nh = sym("nw"), sym("nh")
    tm.BND[nw] = tm.BND[nh] = (ZERO, T("inf"))
    X2, Y2 = xy((nw, nh))
    for nm in ("new_from_func", "try_new_from_func"):
        A = ck.run(PB + "::" + nm, args={0: nw, 1: nh, 2: f})
        if not A or not A.ok: continue
        r = A.ret if nm == "new_from_func" else fld(ok_part(A.ret), 0)
        v = T("call", "apply", (), f, X2, Y2)
        if nm[0] == "t": v = fld(down(v, "Ok"), 0)
        ck.eq(nm + "/pixel", index(D(r), add(X2, mul(Y2, nw))), v, "pixel (x, y) is what the callback gives for exactly (x, y)", A.where, asm=lits_of((lt(ZERO, nw), lt(ZERO, nh))))
        ck.eq(nm + "/width", W(r), nw, "requested width", A.where)
        ck.eq(nm + "/height", H(r), nh, "requested height", A.where)
    for nm, key in (("map_colors_enumerated", None), ("mod_colors_enumerated", None), ("try_map_colors_enumerated", "Ok"), ("try_mod_colors_enumerated", "Ok")):
        A = ck.run(PB + "::" + nm, args={0: b, 1: f})
        if not A or not A.ok: continue
        ap = lambda xx, yy: T("call", "apply", (), f, xx, yy, px(b, xx, yy))
        calls_ = apply_events(A)
        ck.need(nm + "/applies", len(calls_) == 1, "the callback is applied at one site", A.where)
        for e in calls_:
            k = e.loops[-1][0] if e.loops else None
            if k is None: ck.unk(nm + "/coords", "callback outside a loop", A.where); continue
            got = tm.tup(*[subst(a, {k: i}) for a in e.args[1:]])
            ck.eq(nm + "/coords", got, tm.tup(X, Y, px(b, X, Y)), "callback gets the pixel's own coordinates", "%s:%s" % (e.fn, e.line))
        if nm == "map_colors_enumerated": ck.eq(nm + "/placed", at(D(A.ret)), ap(X, Y), "result stored at the same position", A.where)
        elif nm == "mod_colors_enumerated": ck.eq(nm + "/placed", at(D(ck.out(A, 0))), ap(X, Y), "result stored at the same position", A.where)
        elif nm == "try_map_colors_enumerated":
            v = down(A.ret, "Ok")
            ck.eq(nm + "/placed", at(D(fld(ok_part(A.ret), 0))), fld(down(ap(X, Y), "Ok"), 0), "result stored at the same position", A.where)
        else:
            okc = isvar(A.ret, "Ok")
            ck.eq(nm + "/placed", ite(okc, at(D(ck.out(A, 0))), ZERO), ite(okc, fld(down(ap(X, Y), "Ok"), 0), ZERO), "result stored at the same position", A.where)

def ok_part(t):
    """the Ok branch of a Result valued term"""
    if t.op == "ite":
        a = ok_part(t.args[1])
        return a if a is not None else ok_part(t.args[2])
    if t.op == "agg": return t if t.args[1] == "Ok" else None
    return down(t, "Ok")
def lits_of(pc): return [l for p in pc for l in (p.args if p.op == "and" else (p,))]
def panic_only(A): return panic_cond(A, ("panic", "assert"))
def const_env(b, size):
    """environment binding the const parameter N to a term"""
    return tuple(("cterm", size) if is_const_param(b, g[0]) else ("param", g[0], g[1]) for g in b["generics"])
def is_const_param(b, i):
    """does parameter i occur as an array length in the signature"""
    hit = lambda t: isinstance(t, tuple) and (t[:1] == ("array",) and len(t) > 2 and t[2][:2] == ("param", i) or any(hit(x) for x in t))
    return any(hit(t) for t in b["body"]["locals"][:b["body"]["argc"] + 1])
def items_of(A):
    """sequence denoted by a returned iterator value"""
    if A.ret.op != "iter": return None
    r = models.to_seq(ctx(A), A.ret, A.st)
    return r[0] if r else None


# ---------------------------------------------------------------- C27: components
def C27(ck):
    F = ck.F
    done = 0
    impls = sorted(i["self"][1] for i in F.impl_by_trait.get(CT, []) if i["self"][0] == "adt")
    ck.need("types", set(impls) >= {CP + t for t in COLORS}, "all eight colour types implement Color (%s)" % impls)
    for full in impls:
        ty = full[len(CP):] if full.startswith(CP) else None
        if ty not in COLORS: ck.unk("type/" + full, "colour type without a component specification"); continue
        a = F.adt(full)
        if a is None or "data" not in [f[0] for f in a["variants"][0]["fields"]]: ck.bad("layout/" + ty, "no component array"); continue
        comps = COLORS[ty]; short = ty.split("::")[1]
        slf = color(F, ty, "c")
        v = sym("val")
        c4 = [chan(F, ty, slf, i) for i in range(4)]
        def cmp4(key, got, want, where, clampable=()):
            for i in range(4):
                g = chan(F, ty, got, i)
                ws = [want[i]] + ([clamp01(want[i])] if i in clampable else [])
                ck.eq_any("%s/%s" % (key, (comps + ("alpha",))[i]), g, ws, "component %d" % i, where)
        allc = (0, 1, 2, 3) if ty in ("rgb::Rgb", "srgb::Srgb") else ()
        x = [sym("x%d" % i) for i in range(4)]
        A = ck.run(full + "::new_with_alpha", args={i: x[i] for i in range(4)})
        if A and A.ok: cmp4(short + "/new_with_alpha", A.ret, x, A.where, allc); done += 1
        A = ck.run(full + "::new", args={i: x[i] for i in range(3)})
        if A and A.ok: cmp4(short + "/new", A.ret, x[:3] + [F1], A.where, allc); done += 1
        f = sym("fun")
        if F.fn(full + "::new_from_fn"):
            A = ck.run(full + "::new_from_fn", args={0: f})
            if A.ok: cmp4(short + "/new_from_fn", A.ret, [T("call", "apply", (), f, C(i)) for i in range(4)], A.where, allc); done += 1
        for i, n in enumerate(comps + ("alpha",)):
            g, s_, w = (full + "::" + n, full + "::set_" + n, full + "::with_" + n) if i < 3 else (tpath(ty, "alpha"), tpath(ty, "set_alpha"), tpath(ty, "with_alpha"))
            A = ck.run(g, args={0: slf})
            if A and A.ok: ck.eq("%s/get/%s" % (short, n), A.ret, c4[i], "reads its own component", A.where); done += 1
            want = list(c4); want[i] = v
            A = ck.run(s_, args={0: slf, 1: v})
            if A and A.ok: cmp4("%s/set/%s" % (short, n), ck.out(A, 0), want, A.where, (i,) if allc else ()); done += 1
            if i == 3 or F.fn(w) or ty != "xyz::Xyz":
                A = ck.run(w, args={0: slf, 1: v})
                if A and A.ok: cmp4("%s/with/%s" % (short, n), A.ret, want, A.where, (i,) if allc else ()); done += 1
        A = ck.run(tpath(ty, "data"), args={0: slf})
        if A and A.ok: ck.eq(short + "/data", A.ret, tm.agg("array", "", *c4), "all four components in order", A.where); done += 1
        A = ck.run(tpath(ty, "data_mut"), args={0: slf})
        if A and A.ok:
            r = A.ret
            ck.eq(short + "/data_mut", A.E.read(A.st, r) if r.op == "ref" else r, tm.agg("array", "", *c4), "the component array itself", A.where)
            ck.need(short + "/data_mut/aliases", r.op == "ref" and r.args[0] == A.ro[0], "refers into the colour", A.where)
        # channel maps
        A = ck.run(tpath(ty, "try_map_color_channels"), args={0: slf, 1: f})
        if A and A.ok:
            ap = [T("call", "apply", (), f, c4[i]) for i in range(3)]
            okc = and_(*[isvar(y, "Ok") for y in ap])
            ev = apply_events(A)
            if all(not e.loops for e in ev): ck.need(short + "/map/order", [e.args[1] for e in ev] == c4[:3], "each colour channel visited once, in order, never alpha: %s" % [show(e.args[1]) for e in ev], A.where)
            val = fld(ok_part(A.ret), 0) if ok_part(A.ret) is not None else None
            if val is None: ck.unk(short + "/map", "no Ok result", A.where)
            else:
                ck.eq(short + "/map/ok-iff", isvar(A.ret, "Ok"), okc, "succeeds exactly when every channel does", A.where)
                cmp4(short + "/map", val, [fld(down(y, "Ok"), 0) for y in ap] + [c4[3]], A.where, (0, 1, 2, 3) if allc else ())
            done += 1
    # Rgb helpers and the trait's default map
    slf = color(F, "rgb::Rgb", "c"); c4 = [chan(F, "rgb::Rgb", slf, i) for i in range(4)]
    f = sym("fun"); ap = [T("call", "apply", (), f, c4[i]) for i in range(3)]
    for n, cl in (("map_channels", (0, 1, 2, 3)), ("map_channels_unclamped", ()), ("mod_color_channels", ())):
        A = ck.run(CP + "rgb::Rgb::" + n, args={0: slf, 1: f})
        if not A or not A.ok: continue
        res = ck.out(A, 0) if n.startswith("mod_") else A.ret
        for i in range(4):
            w = (ap + [c4[3]])[i]
            ck.eq_any("Rgb/%s/%d" % (n, i), chan(F, "rgb::Rgb", res, i), [w] + ([clamp01(w)] if cl else []), "function applied to the colour channels only", A.where)
        done += 1
    A = ck.run(CT + "::map_color_channels", args={0: sym("self"), 1: f})
    if A and A.ok:
        ck.need("Color/map_color_channels", bool([e for e in A.events if e.kind == "call" and e.name == CT + "::try_map_color_channels"]), "built on the colour's own channel map", A.where)
    ck.floor("component operations", done, 90)

# ---------------------------------------------------------------- C24: equality, image predicates
def C24(ck):
    F = ck.F
    n = 0
    b = F.fn(CP + "EPSILON")
    if b is not None: ck.eq("EPSILON", Engine(F).eval_const(b, ()), EPS, "one 15-bit step")
    for full in sorted(i["self"][1] for i in F.impl_by_trait.get(CT, []) if i["self"][0] == "adt"):
        ty = full[len(CP):]
        if ty not in COLORS: continue
        short = ty.split("::")[1]
        p, q = color(F, ty, "p"), color(F, ty, "q")
        A = ck.run(tpath(ty, "eq", "core::cmp::PartialEq"), args={0: p, 1: q})
        if not A or not A.ok: continue
        n += 1
        d = [tm.fsub(chan(F, ty, p, i), chan(F, ty, q, i)) for i in range(4)]
        want = and_(*[tm.fle(T("f", "abs", x), EPS) for x in d])
        ck.eq(short + "/eq", A.ret, want, "equal iff all four components differ by at most 1/32768", A.where)
        A2 = ck.run(tpath(ty, "eq", "core::cmp::PartialEq"), args={0: q, 1: p})
        ck.eq(short + "/symmetric", A.ret, A2.ret, "a == b iff b == a", A.where)
        if F.fn(tpath(ty, "ne", "core::cmp::PartialEq")):
            A3 = ck.run(tpath(ty, "ne", "core::cmp::PartialEq"), args={0: p, 1: q})
            if A3.ok: ck.eq(short + "/ne", A3.ret, not_(want), "!= is the negation of ==", A3.where)
    ck.floor("colour equalities", n, 8)
    p = color(F, "rgb::Rgb", "p"); c4 = [chan(F, "rgb::Rgb", p, i) for i in range(4)]
    for m in ["<%s as %s>::has_transparency" % (CP + t, CT) for t in COLORS] + [CT + "::has_transparency"]:
        if not F.fn(m): continue
        # the default method is evaluated for a concrete colour type
        A = ck.run(m, args={0: p}, env=(("adt", CP + "rgb::Rgb", ()),))
        if A and A.ok: ck.eq("has_transparency", A.ret, tm.flt(EPS, T("f", "abs", tm.fsub(F1, c4[3]))), "transparent iff alpha is more than one step away from 1", A.where)
    A = ck.run(CP + "rgb::Rgb::is_grayscale", args={0: p})
    if A and A.ok:
        dd = lambda i, j: T("f", "abs", tm.fsub(c4[i], c4[j]))
        pairs = ((0, 1), (1, 2), (0, 2))
        for i, j in pairs[:2]:
            ck.eq("is_grayscale/%d%d" % (i, j), and_(A.ret, not_(tm.fle(dd(i, j), EPS))), FALSE, "gray only if channels %d and %d agree" % (i, j), A.where)
        eqv = color(F, "rgb::Rgb", "p", [c4[0], c4[0], c4[0], c4[3]])
        A2 = ck.run(CP + "rgb::Rgb::is_grayscale", args={0: eqv})
        ck.eq("is_grayscale/equal", A2.ret, TRUE, "equal channels are gray", A.where)
    buf = buffer("buf")
    opq = lambda nm, key: nm.endswith("::has_transparency") and "Image" not in nm and "PixelBuffer" not in nm or nm.endswith("Rgb::is_grayscale")
    k = bounded("i", seqlen(D(buf)))
    for nm, callee, neg_ in (("has_transparency", "has_transparency", True), ("is_grayscale", "is_grayscale", False)):
        A = ck.run(PB + "::" + nm, args={0: buf}, opaque=opq)
        if not A or not A.ok: continue
        r = not_(A.ret) if neg_ else A.ret
        fa = r if r.op == "forall" else None
        if not ck.need(nm + "/all-pixels", fa is not None, "a test over pixels: %s" % show(A.ret), A.where): continue
        ck.eq(nm + "/range", fa.args[1], mul(W(buf), H(buf)), "looks at every pixel", A.where)
        body = subst(fa.args[2], {fa.args[0]: k})
        lit = body.args[0] if body.op == "not" else body
        ck.need(nm + "/test", lit.op == "call" and lit.args[0].endswith("::" + callee) and lit.args[-1] is index(D(buf), k) and (body.op == "not") == neg_,
                "per pixel test is the colour's own %s: %s" % (callee, show(body)), A.where)
    # images delegate
    for nm in ("has_transparency", "is_grayscale"):
        A = ck.run("d10::image::Image::" + nm, args={0: sym("img")}, opaque=lambda q, key: q.startswith(PB))
        if A and A.ok: ck.need("Image/" + nm, A.ret.op == "call" and A.ret.args[0] == PB + "::" + nm, "image test is the buffer's test: %s" % show(A.ret), A.where)

RULES = {
 "C01": (C01, "Every site that builds or mutates a PixelBuffer is abstractly evaluated (value numbering over MIR, loops in closed form); obligations: stored length = width*height, size validated on the path, refusal exactly of invalid sizes, no size change by any &mut method, fields private."),
 "C12": (C12, "Accessors, kernel windows and enumerated maps are abstractly evaluated for symbolic size and coordinates; returned element/address, guards and callback coordinates are compared with row-major addressing and edge clamping."),
 "C27": (C27, "Every constructor, getter, setter, replacer and channel map of every implementor of Color is abstractly evaluated on an explicit four-component colour; each resulting component is compared with the table of component orders."),
 "C24": (C24, "PartialEq of every colour type, the colour predicates and the buffer/image predicates are abstractly evaluated; results are compared with the four-component EPSILON comparison and with a quantification over all pixels."),
}

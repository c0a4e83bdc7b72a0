"""C28: numpy import and export."""
from fw import *
from rules_core import *
from rules_color import convert, TARGET
from rules_py import Some, NONE, Ok_, PYM, inner, wrap, peel
import models

RESU = "adt:core::result::Result"
ERRV = T("agg", RESU, "Err", sym("py_error"))
# Python name -> (conversion, channels)
SPACES = {}
for _n, _m in (("hsl", "to_hsl"), ("hsv", "to_hsv"), ("yuv", "to_yuv"), ("srgb", "to_srgb"), ("xyz", "to_xyz"), ("lab", "to_lab"), ("lch", "to_lch"), ("rgb", None)):
    SPACES[_n], SPACES[_n + "a"] = (_m, 3), (_m, 4)
SPACES["gray"] = ("to_gray", 1)
CLASSES = {"float32": "f32", "float64": "f64", "uint8": "u8", "uint16": "u16", "uint32": "u32", "bool": "bool"}
SCALE = {"uint8": 255, "uint16": 65535, "uint32": 4294967296}      # 2^32 - 1 as a single precision number
SPELL = {k: ["<class 'numpy.%s'>" % k] for k in CLASSES}
SPELL["bool"] += ["<class 'numpy.bool_'>", "<class 'bool'>"]

def externals(kind, txt, prim=None, shape=None, src=None, bad=None):
    """summaries of the Python and numpy calls for one scenario: how the data type presents itself, and
    for imports the array's shape and elements"""
    def plain_format(ret, vals):
        """format!("{}", data type)"""
        a = vals[0]
        if kind == "class" and a.op == "call" and len(a.args) == 4 and a.args[2] is C(b"\xc0\x00") and a.args[3].op == "agg" and len(a.args[3].args) == 3:
            x = a.args[3].args[2]
            if x.op == "call" and x.args[0].endswith("::new_display") and x.args[2].op in ("sym", "call"): return C(txt)
        return ret
    def o(n, k=None):
        if n.endswith("PyAny::extract"): return lambda ret, vals: (Ok_(C(txt)) if "String" in str(ret.args[1]) and kind == "name" else ERRV)
        if n.endswith("ToString::to_string"): return lambda ret, vals: C(txt) if kind == "class" and vals[0].op in ("sym", "call") else ret
        if n == "alloc::fmt::format": return plain_format
        if shape is None: return False
        m = n.rsplit("::", 1)[-1]
        if m == "downcast":
            def down(ret, vals):
                t = str(ret.args[1])
                return Ok_(sym("np_array")) if "PyUntypedArray" in t or "('prim', '%s')" % prim in t else ERRV
            return down
        if m == "ndim" and n.startswith(("numpy::", "ndarray::")): return lambda ret, vals: C(len(shape))
        if m == "shape" and n.startswith(("numpy::", "ndarray::")): return lambda ret, vals: tm.mkagg("array", "", *shape)
        if m == "len" and n.startswith(("numpy::", "ndarray::")): return lambda ret, vals: tm.SEQ_LEN[src]
        if m == "IxDyn" or n.endswith(("IntoDimension::into_dimension", "Dim")) and n.startswith("ndarray::"): return lambda ret, vals: vals[0]
        if n.endswith(("Index::index", "Index>::index")):
            def ind(ret, vals):
                if is_int(vals[1]) and cval(vals[1]) >= len(shape):
                    bad.append(show(vals[1])); return sym("nothing")
                return index(vals[0], vals[1])
            return ind
        if m in ("readonly", "as_array", "view") and n.startswith(("numpy::", "ndarray::")): return lambda ret, vals: vals[0]
        if n.startswith("ndarray::") and m in ("iter", "into_iter"): return lambda ret, vals: T("iter", T("sseq", src), ZERO)
        if n.startswith(("numpy::", "ndarray::")) and m == "into_iter": return lambda ret, vals: T("iter", T("sseq", src), ZERO)
        return False
    return o

def entry(ck, name):
    l = [k for k in ck.F.bodies if k.startswith(PYM) and k.endswith("::" + name) and ck.F.bodies[k]["kind"] == "fn"]
    ck.need("anchor/" + name, len(l) == 1, "one exported function %s" % name)
    return ck.F.bodies[l[0]] if len(l) == 1 else None
def pos(b, name): return list(b["params"]).index(name) if name in b["params"] else None

def unwrap(x):
    while x.op == "call" and x.args[0].rsplit("::", 1)[-1] in ("from", "into", "as_ref", "to_object", "into_py", "to_owned", "clone") and len(x.args) >= 3: x = x.args[2]
    return x

def export(ck, b, cs, dtkind, dt, full):
    F = ck.F
    key = "export/%s/%s" % (cs or "default", dt or "default")
    self_, buf, pxs = image(F, peel(b["self"])[1])
    args = {0: self_, pos(b, "colorspace"): Some(C(cs)) if cs else NONE, pos(b, "data_type"): Some(sym("dtype")) if dt else NONE}
    A = ck.run(b["path"], body=b, args=args, opaque=externals(dtkind, dt), unroll=8)
    if not A.ok: return ck.unk(key, "not analysed: %s" % (A.unk[:1],), A.where)
    name = dt or "float32"
    for k, l in SPELL.items():
        if dtkind == "class" and dt in l: name = k
    if (cs and cs not in SPACES) or name not in CLASSES:
        r = A.ret
        if r.op == "agg" and r.args[1] == "Err": ck.ok(key, "an unknown name raises", A.where)
        elif r.op == "agg" and r.args[1] == "Ok" or r.op == "ite" and r.args[0].op == "isvar" and r.args[0].args[0].op == "call" and r.args[0].args[0].args[0].endswith("::reshape"): ck.bad(key, "an unknown name is accepted: %s" % show(r)[:200], A.where)
        else: ck.unk(key, "unclear result %s" % show(r)[:200], A.where)
        return ck.nopanic(key + "/panic", A)
    meth, depth = SPACES[cs or "rgba"]
    rs = [t for t in tm.walk(A.ret) if t.op == "call" and t.args[0].endswith("::reshape")]
    if len(rs) != 1:
        if A.ret.op == "agg" and A.ret.args[1] == "Err": return ck.bad(key, "a supported combination raises: %s" % show(A.ret)[:200], A.where)
        return ck.unk(key, "no single reshaped array: %s" % show(A.ret)[:200], A.where)
    rs = rs[0]
    good = simp(A.ret, (isvar(rs, "Ok"),))
    bad = simp(A.ret, (not_(isvar(rs, "Ok")),))
    okv = unwrap(good.args[2]) if good.op == "agg" and good.args[1] == "Ok" else None
    if okv is None or okv is not fld(T("down", rs, "Ok"), 0, "") and okv is not field0_ok(rs): ck.unk(key + "/result", "result is not the reshaped array: %s" % show(good)[:200], A.where)
    else: ck.ok(key + "/result", "the reshaped array is returned", A.where)
    if bad.op == "agg" and bad.args[1] == "Err": ck.ok(key + "/error", "a failing reshape raises", A.where)
    elif bad.op == "agg": ck.bad(key + "/error", "a failing reshape is not reported", A.where)
    else: ck.unk(key + "/error", show(bad)[:200], A.where)
    arr, shp = rs.args[2], rs.args[3]
    ck.eq(key + "/shape", shp, tm.mkagg("array", "", H(buf), W(buf), C(depth)), "shape is height, width, channels", A.where)
    if arr.op != "call" or arr.args[0].rsplit("::", 1)[-1] not in ("from_vec", "from_iter", "from_slice", "from_owned_array") or len(arr.args) != 4:
        return ck.unk(key, "array constructor %s" % show(arr)[:200], A.where)
    el = arr.args[1][0]
    ck.need(key + "/dtype", el == ("prim", CLASSES[name]), "array of %s for %s" % (el, name), A.where)
    seq = arr.args[3]
    if seq.op == "iter": 
        r = models.to_seq(ctx(A), seq, A.st)
        if r is None: return ck.unk(key, "samples are not a plain sequence", A.where)
        seq = r[0]
    n = tm.seqlen(pxs)
    i = tm.bounded("i", n)
    got_n = tm.seqlen(seq)
    ck.eq(key + "/length", got_n, mul(n, C(depth)), "one sample per pixel and channel", A.where)
    p = index(pxs, i)
    if meth:
        conv = convert(ck, "rgb::Rgb", meth, p) if meth in TARGET else ck.run("d10_core::color::rgb::Rgb::" + meth, args={0: p})
        if not conv or not conv.ok: return ck.unk(key + "/samples", "conversion %s not analysed" % meth, A.where)
        c, ty = conv.ret, TARGET.get(meth, "rgb::Rgb")
    else: c, ty = p, "rgb::Rgb"
    for j in range(depth):
        v = chan(F, ty, c, j)
        ck.eq("%s/sample%d" % (key, j), index(seq, add(mul(i, C(depth)), C(j))), scaled(name, v), "channel %d of %s as %s" % (j, cs or "rgba", name), A.where)
def field0_ok(r):
    from rules_app import field0
    return field0(r, "Ok")
def scaled(name, v):
    if name in SCALE: return T("f2i", CLASSES[name], tm.fmul(v, C(Fraction(SCALE[name]))))
    if name == "bool": return tm.fle(C(Fraction(1, 2)), v)
    return v
def unscaled(name, v):
    if name in SCALE: return tm.fdiv(tm._i2f(v) if hasattr(tm, "_i2f") else T("i2f", v), C(Fraction(SCALE[name])))
    if name == "bool": return ite(v, C(Fraction(1)), C(Fraction(0)))
    return v
def pixbuf(F, im):
    a = F.adt("d10::image::Image")
    for i, f in enumerate(a["variants"][0]["fields"]):
        if "PixelBuffer" in str(f[1]): return fld(im, i, f[0])
def image(F, cls):
    """a Python image with pixels whose four channels are explicit: (image, buffer, pixels)"""
    w, h, r = sym("width"), sym("height"), sym("samples")
    tm.BND[w] = tm.BND[h] = (ZERO, T("inf"))
    n = mul(w, h)
    k = tm.bounded("k", n)
    tm.SEQ_LEN[r] = mul(n, C(4))
    pxs = tm.gen(k, n, color(F, "rgb::Rgb", "", [index(r, add(mul(k, C(4)), C(j))) for j in range(4)]))
    pb = F.adt(PBP)["variants"][0]
    buf = tm.mkagg("adt:" + PBP, pb["name"], *[w if f[0] == "width" else h if f[0] == "height" else pxs for f in pb["fields"]])
    ia = F.adt("d10::image::Image")["variants"][0]
    im = tm.mkagg("adt:d10::image::Image", ia["name"], *[buf if f[1][0] == "adt" and f[1][1] == PBP else NONE for f in ia["fields"]])
    return wrap(F, cls, im), buf, pxs
PBP = "d10_core::pixelbuffer::PixelBuffer"

IMPORT = {4: {}, 3: {}, 1: {"gray": "gray", "auto": "gray"}}
TYPES = {"rgb": "rgb::Rgb", "srgb": "srgb::Srgb", "hsl": "hsl::Hsl", "hsv": "hsv::Hsv", "yuv": "yuv::Yuv", "xyz": "xyz::Xyz", "lab": "lab::Lab", "lch": "lab::Lch"}
for _n in TYPES:
    IMPORT[3][_n] = _n
    IMPORT[4][_n] = IMPORT[4][_n + "a"] = _n
IMPORT[3]["auto"] = IMPORT[4]["auto"] = "rgb"

def importing(ck, b, dims, cs, dtkind, dt):
    F = ck.F
    d = 1 if dims == 2 else dims[1]
    nd = 2 if dims == 2 else dims[0]
    key = "import/%s/%s/%s" % ("2d" if dims == 2 else "%dd%s" % (nd, d), cs or "default", dt)
    h, w = sym("rows"), sym("cols")
    shape = [h, w, C(d), C(1), C(1)][:nd]
    name = None
    for k, l in SPELL.items():
        if dt in l: name = k
    src = sym("samples_%s_%s" % (d, name))
    tm.SEQ_LEN[src] = mul(mul(h, w), C(d))
    badidx = []
    A = ck.run(b["path"], body=b, args={pos(b, "colorspace"): Some(C(cs)) if cs else NONE},
               opaque=externals(dtkind, dt, CLASSES.get(name, "i64"), shape, src, badidx), unroll=8)
    if badidx: return ck.bad(key, "dimension %s of a %d-dimensional array is read" % (badidx[0], nd), A.where)
    if not A.ok: return ck.unk(key, "not analysed: %s" % (A.unk[:1],), A.where)
    r = A.ret
    sp = IMPORT.get(d, {}).get(cs or "auto") if nd in (2, 3) and not (nd == 2 and d != 1) else None
    if sp is None or name is None:
        if r.op == "agg" and r.args[1] == "Err": ck.ok(key, "an unsupported array raises", A.where)
        elif r.op == "agg" and r.args[1] == "Ok": ck.bad(key, "an unsupported array is accepted: %s" % show(r)[:200], A.where)
        else: ck.unk(key, "unclear result %s" % show(r)[:200], A.where)
        return ck.nopanic(key + "/panic", A)
    if r.op == "agg" and r.args[1] == "Err": return ck.bad(key, "a supported array raises: %s" % show(r)[:200], A.where)
    if not (r.op == "agg" and r.args[1] == "Ok"): return ck.unk(key, "unclear result %s" % show(r)[:200], A.where)
    buf = pixbuf(F, inner(F, PYM + "Image", r.args[2]))
    ck.eq(key + "/width", W(buf), w, "width is the second axis", A.where)
    ck.eq(key + "/height", H(buf), h, "height is the first axis", A.where)
    data = D(buf)
    n = mul(h, w)
    ck.eq(key + "/length", tm.seqlen(data), n, "one pixel per row and column", A.where)
    i = tm.bounded("i", n)
    s = [unscaled(name, index(src, add(mul(i, C(d)), C(j)))) for j in range(d)]
    if sp == "gray": c = mkcolor(ck, "rgb::Rgb", [s[0], s[0], s[0]])
    else: c = mkcolor(ck, TYPES[sp], s)
    if c is None: return ck.unk(key + "/pixels", "no constructor", A.where)
    if sp not in ("gray", "rgb"):
        conv = convert(ck, TYPES[sp], "to_rgb", c)
        if not conv or not conv.ok: return ck.unk(key + "/pixels", "conversion not analysed", A.where)
        c = conv.ret
    got = index(data, i)
    for j in range(4):
        ck.eq("%s/channel%d" % (key, j), chan(F, "rgb::Rgb", got, j), chan(F, "rgb::Rgb", c, j), "channel %d of %s samples of type %s" % (j, cs or "auto", name), A.where)
def mkcolor(ck, ty, comps):
    own = ck.F.fn(CP + ty + ("::new_with_alpha" if len(comps) == 4 else "::new"))
    if own is None: return None
    from rules_color import D65, LABS
    A = ck.run(own["path"], body=own, args={i: v for i, v in enumerate(comps)}, env=tuple(D65) if ty in LABS else ())
    return A.ret if A.ok else None

def C28(ck):
    e, i = entry(ck, "to_np_array"), entry(ck, "from_np_array")
    th = []
    if e is not None:
        for cs in list(SPACES):
            def f(cs=cs):
                for dt in CLASSES: export(ck, e, cs, "name", dt, True)
            th.append(f)
        def f():
            export(ck, e, None, None, None, True)
            for k, l in SPELL.items():
                for s in l: export(ck, e, "rgba", "class", s, False)
            for s in ("cmyk", "", "RGB", "rgbx"): export(ck, e, s, "name", "float32", False)
            for s in ("int8", "uint64", ""): export(ck, e, "rgba", "name", s, False)
            for s in ("<class 'numpy.int64'>", "<class 'int'>"): export(ck, e, "rgba", "class", s, False)
        th.append(f)
    if i is not None:
        for d in IMPORT:
            for cs in list(IMPORT[d]) + [None]:
                def f(d=d, cs=cs):
                    for k in CLASSES: importing(ck, i, (3, d), cs, "class", SPELL[k][0])
                th.append(f)
        def f():
            for cs in ("gray", "auto", None):
                for k in CLASSES: importing(ck, i, 2, cs, "class", SPELL[k][0])
            for s in SPELL["bool"][1:]: importing(ck, i, (3, 3), "rgb", "class", s)
            for dims, cs in ((2, "rgb"), (2, "hsla"), ((3, 1), "rgb"), ((3, 3), "rgba"), ((3, 3), "gray"), ((3, 4), "gray"), ((3, 3), "cmyk"), ((3, 4), "cmyk"), ((3, 2), "auto"), ((3, 5), "auto"), ((3, 5), "rgba"),
                             ((3, 0), "auto"), ((3, 2), "rgb"), ((1, 3), "auto"), ((1, 3), "gray"), ((4, 3), "auto"), ((4, 4), "rgba"), ((0, 0), "gray"), ((5, 1), "gray")):
                importing(ck, i, dims, cs, "class", SPELL["float32"][0])
            for s in ("<class 'numpy.int64'>", "<class 'numpy.float16'>"):
                importing(ck, i, (3, 3), "rgb", "class", s); importing(ck, i, 2, "gray", "class", s)
        th.append(f)
    ck.par(th)
    ck.floor("combinations", len(th), 40)

RULES = {"C28": (C28, "source -> MIR -> abstract evaluation of to_np_array and from_np_array for every colour space, dtype and shape they name; shape, sample order, scaling and conversion compared with the specified ones, unsupported combinations must end in an exception")}

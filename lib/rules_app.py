"""Rules over the application layer: the high-level image, the command queue and the command line tool."""
from fw import *
from rules_core import *
from rules_ops import op, opaque_ops, mkbuf
from rules_misc import variant
import models, callgraph

IM = "d10::image::Image"
def boundary(n, k=None): return n.startswith(("d10_ops::", "d10_codecs::", "<d10_ops::", "<d10_codecs::")) or n.startswith(PB + "::") or n.startswith("<" + PB)
def free_ops(F):
    """public free functions of the operations crate by name"""
    out = {}
    for b in F.bodies.values():
        if b["crate"] == "d10_ops" and b["kind"] == "fn" and b["reach"] and not b["self"] and not b["trait"]: out.setdefault(b["name"], b)
    return out
def img_fields(F):
    """positions of the pixel buffer and of the background colour in the image struct"""
    fs = F.adt(IM)["variants"][0]["fields"]
    bi = [i for i, f in enumerate(fs) if f[1][0] == "adt" and f[1][1] == PB]
    gi = [i for i, f in enumerate(fs) if f[1][0] == "adt" and f[1][1].endswith("option::Option")]
    return fs, bi, gi

# operation whose name differs, or whose arguments are not the caller's in order
def special(bufo, bg):
    none_rgb = None
    return {
        "with_jpeg_quality": ("jpeg_quality", lambda p: [p[1], p[2]]),
        "white_balance": ("balance", lambda p: [("variant", "BalanceMode", "Rgb"), p[1]]),
        "rotate": ("rotate", lambda p: [p[1], ("bg",), p[2]]),
        "blend": ("blend_image", lambda p: [("buf", p[1]), p[2], p[3]]),
        "apply_palette": ("apply_palette", lambda p: [("buf", p[1])]),
        "apply_palette_in_place": ("apply_palette_in_place", lambda p: [("buf", p[1])]),
    }
DELEG = ("width height is_empty data data_mut has_transparency is_grayscale mod_colors try_mod_colors mod_colors_enumerated "
         "try_mod_colors_enumerated map_colors try_map_colors map_colors_enumerated try_map_colors_enumerated get_pixel put_pixel "
         "get_pixel_clamped get_pixel_optional is_in_image").split()
OPS = ("crop flip_horizontal flip_vertical rotate90 rotate180 rotate270 rotate edge_detection resize with_jpeg_quality random_noise "
       "add_random_noise salt_n_pepper_noise add_salt_n_pepper_noise rgb_noise add_rgb_noise gaussian_noise add_gaussian_noise gaussian_blur "
       "unsharp white_balance balance blend drawing interlace apply_palette apply_palette_in_place despeckle stretch_contrast "
       "optimize_saturation change_color_temperature optimize_color_temperature optimize_lightness equalize symmetric_nearest_neighbor").split()
CTORS = ("new", "new_with_color", "new_from_raw")

def field0(t, v): return fld(down(t, v), 0, "0")
def post(i, t): return T("post", i, t)
def rewrapped(r):
    """a unit result taken apart and put together again"""
    return ite(isvar(r, "Ok"), tm.mkagg("adt:" + RES, "Ok", tm.mkagg("tuple", "")), tm.mkagg("adt:" + RES, "Err", field0(r, "Err")))
def reaches(r, obj):
    """a reference into obj"""
    return any(isinstance(x, Term) and x.op == "ref" and x.args[0] == obj for x in tm.walk(r)) if hasattr(tm, "walk") else False

def C26(ck):
    F = ck.F
    if not ck.need("struct", F.adt(IM) is not None, "Image exists"): return
    fs, bi, gi = img_fields(F)
    if len(bi) != 1 or len(gi) != 1:
        ck.unk("struct/fields", "image has fields %s; expected one pixel buffer and one optional colour" % [f[0] for f in fs]); return
    bi, gi = bi[0], gi[0]
    BUF = lambda v: fld(v, bi, fs[bi][0])
    BG = lambda v: fld(v, gi, fs[gi][0])
    def image(buf, bg):
        v = [None] * len(fs); v[bi] = buf; v[gi] = bg
        return tm.mkagg("adt:" + IM, "Image", *v)
    NONE = tm.mkagg("adt:core::option::Option", "None")
    meths = {b["name"]: b for b in F.bodies.values() if b["kind"] == "fn" and b["self"] and b["self"][:2] == ("adt", IM) and not b["trait"]}
    ops = free_ops(F)
    pbm = {b["name"]: b for b in F.bodies.values() if b["self"] and b["self"][:2] == ("adt", PB) and not b["trait"] and b["kind"] == "fn"}
    G = callgraph.Graph(F)
    sp = special(BUF, BG)
    n = 0
    def val(A, x):
        """the value an argument stands for (references followed to the referent)"""
        if isinstance(x, Term) and x.op == "ref":
            o = x.args[0]
            v = A.st.store.get(o)
            return v if v is not None else x
        return x
    def run(nm):
        b = meths.get(nm)
        if b is None: ck.bad("anchor/" + nm, "Image::%s does not exist" % nm); return None
        A = ck.run(b["path"], body=b, opaque=boundary)
        return A if A.ok else None
    def selfv(A): return A.p[0]
    def args_of(A, spec):
        out = []
        for x in spec:
            if isinstance(x, tuple) and x[0] == "bg":
                d = rgb_none(F)
                out.append(("bg", d))
            elif isinstance(x, tuple) and x[0] == "buf": out.append(BUF(x[1]))
            elif isinstance(x, tuple) and x[0] == "variant": out.append(variant(F, enum_path(F, x[1]), x[2]))
            else: out.append(x)
        return out
    def callee_of(A, body):
        return [e for e in A.events if e.kind == "call" and e.extra and e.extra[2] == body["key"]] or \
               [e for e in A.events if e.kind == "call" and e.name == body["path"]]
    def fallback(nm, A, target, args, form, why):
        """the method does not simply call the operation: compare the two function bodies instead"""
        try:
            A1 = ck.run(meths[nm]["path"], body=meths[nm], budget=400000)
            A2 = ck.run(target["path"], body=target, args={i: v for i, v in enumerate(args)}, budget=400000, env=rgb_env(target))
            if A1.ok and A2.ok:
                if form == "new": got, want = A1.ret, image(A2.ret, BG(selfv(A1)))
                elif form == "inplace": got, want = ck.out(A1, 0), image(ck.out(A2, 0), BG(selfv(A1)))
                else: got, want = A1.ret, A2.ret
                m = equiv(got, want, (), 200)
                if not m: ck.ok(nm + "/body", "same result as %s" % target["path"], A.where); return
                if any(x.sure for x in m): ck.bad(nm + "/operation", "%s; results differ: %r" % (why, [x for x in m if x.sure][0]), A.where); return
        except Exception: pass
        called = {e.extra[2] for e in A.events if e.kind == "call" and e.extra and boundary(e.name)}
        reach = G.reach(target["key"]) if called else set()
        other = [F.bodies[k]["path"] for k in called if k in F.bodies and k not in reach and F.bodies[k]["crate"] == "d10_ops"]
        if other or not called: ck.bad(nm + "/operation", "%s: calls %s, not %s" % (why, other, target["path"]), A.where)
        else: ck.unk(nm + "/operation", why, A.where)
    def deleg(nm, target, spec, form):
        """Image::nm = target(self.buffer, spec...) wrapped according to form"""
        nonlocal n
        A = run(nm)
        if A is None: return
        n += 1
        s = selfv(A)
        args = [BUF(s)] + args_of(A, spec)
        ev = callee_of(A, target)
        argv = []
        for i, x in enumerate(args):
            argv.append(ite(isvar(BG(s), "Some"), field0(BG(s), "Some"), x[1]) if isinstance(x, tuple) else x)
        if len(ev) != 1:
            fallback(nm, A, target, argv, form, "%d calls of %s" % (len(ev), target["path"])); return
        e = ev[0]
        if len(e.args) != len(argv): ck.unk(nm + "/arity", "operation takes %d arguments" % len(e.args), A.where); return
        pn = target["params"]
        sure = True
        for i, (g, w) in enumerate(zip(e.args, argv)):
            if ck.eq("%s/arg/%s" % (nm, pn[i] if i < len(pn) else i), val(A, g), val(A, w), "argument %s of %s" % (pn[i] if i < len(pn) else i, target["path"]), A.where) is not True: sure = False
        if not sure: return
        r = e.ret
        if form == "new": ck.eq(nm + "/result", A.ret, image(r, BG(s)), "the operation's result with this image's background colour", A.where)
        elif form == "inplace":
            ck.eq(nm + "/result", ck.out(A, 0), image(post(0, r), BG(s)), "the operation's effect on this image's pixels", A.where)
        elif form == "ret": ck.eq(nm + "/result", A.ret, r, "the buffer's answer", A.where)
        elif form == "both":
            ck.eq(nm + "/result", ck.out(A, 0), image(post(0, r), BG(s)), "the buffer's effect", A.where)
            if A.ret is not None and target["body"]["locals"][0] != ("tuple", ()): ck.eq(nm + "/returned", A.ret, r, "the buffer's answer", A.where)
        elif form == "try": result(nm, A, r, lambda v: image(v, BG(s)))
    def result(nm, A, r, wrap):
        want = ite(isvar(r, "Ok"), tm.mkagg("adt:" + RES, "Ok", wrap(field0(r, "Ok"))), tm.mkagg("adt:" + RES, "Err", field0(r, "Err")))
        ck.eq(nm + "/result", A.ret, want, "Ok wraps the result, errors are passed on", A.where)
    # constructors
    for nm in CTORS:
        A = run(nm)
        if A is None: continue
        n += 1
        t = pbm.get(nm)
        ev = callee_of(A, t) if t else []
        if len(ev) != 1: ck.unk(nm, "%d calls of PixelBuffer::%s" % (len(ev), nm), A.where); continue
        for i, (g, w) in enumerate(zip(ev[0].args, A.p)): ck.eq("%s/arg/%d" % (nm, i), g, w, "constructor argument", A.where)
        ck.eq(nm + "/result", A.ret, image(ev[0].ret, NONE), "a new image has no background colour", A.where)
    A = run("new_from_buffer")
    if A: n += 1; ck.eq("new_from_buffer", A.ret, image(A.p[0], NONE), "wraps the buffer", A.where)
    A = run("new_from_buffer_with_meta")
    if A: n += 1; ck.eq("new_from_buffer_with_meta", A.ret, image(A.p[1], BG(A.p[0])), "wraps the buffer, keeps the background colour", A.where)
    A = run("new_from_raw_with_meta")
    if A:
        n += 1
        ev = callee_of(A, pbm["new_from_raw"])
        if len(ev) == 1:
            for i in range(3): ck.eq("new_from_raw_with_meta/arg/%d" % i, ev[0].args[i], A.p[i + 1], "constructor argument", A.where)
            ck.eq("new_from_raw_with_meta/result", A.ret, image(ev[0].ret, BG(A.p[0])), "keeps the background colour", A.where)
        else: ck.unk("new_from_raw_with_meta", "%d constructor calls" % len(ev), A.where)
    for nm in ("buffer", "buffer_mut"):
        A = run(nm)
        if A:
            n += 1
            if nm == "buffer": ck.eq(nm, val(A, A.ret), BUF(A.p[0]), "the image's own buffer", A.where)
            else:
                r = A.ret
                good = isinstance(r, Term) and r.op == "ref" and r.args[0] == A.ro[0] and [p[1] if isinstance(p, tuple) else p for p in r.args[1]][:1] == [bi]
                (ck.ok if good else ck.unk)(nm, "a reference to the image's own buffer", A.where)
    # accessors and maps of the buffer
    for nm in DELEG:
        if nm not in pbm: ck.bad("anchor/buffer/" + nm, "PixelBuffer::%s does not exist" % nm); continue
        b = meths.get(nm)
        if b is None: ck.bad("anchor/" + nm, "Image::%s does not exist" % nm); continue
        mut = b["body"]["locals"][1][0] == "ref" and b["body"]["locals"][1][1]
        form = "try" if nm.startswith("try_map") else "new" if nm.startswith("map") else "both" if mut and nm != "data_mut" else "ret"
        np = b["body"]["argc"]
        if nm == "data_mut":
            A = run(nm)
            if A:
                n += 1
                A = ck.run(b["path"], body=b)   # inlined: a reference into the image's own pixel vector
                r = A.ret
                good = r is not None and reaches(r, A.ro[0])
                (ck.ok if good else ck.unk)(nm, "the image's own pixels", A.where)
            continue
        deleg(nm, pbm[nm], [sym(p) for p in b["params"][1:np]], form)
    # operations
    rest = sorted(x for x in ops if x in meths and x not in OPS and not x.endswith("compose") and not x.endswith("compose_slice"))
    for nm in OPS + rest:
        b = meths.get(nm)
        if b is None: ck.bad("anchor/" + nm, "Image::%s does not exist" % nm); continue
        on, f = sp.get(nm, (nm, None))
        if on not in ops: ck.bad("anchor/op/" + on, "operation %s does not exist" % on); continue
        p = [sym(x) for x in b["params"]]
        mut = b["body"]["locals"][1][0] == "ref" and b["body"]["locals"][1][1]
        deleg(nm, ops[on], f(p) if f else p[1:], "inplace" if mut else "new")
    # percent resize
    A = run("resize_pct")
    if A:
        n += 1
        ev = callee_of(A, ops["resize"])
        if len(ev) != 1: ck.unk("resize_pct", "%d resize calls" % len(ev), A.where)
        else:
            e = ev[0]
            s = BUF(A.p[0])
            pw, ph = pbm["width"], pbm["height"]
            f = fdiv(A.p[1], C(100.0))
            sub = {}
            for c in A.events:
                if c.kind == "call" and c.extra and c.extra[2] in (pw["key"], ph["key"]): sub[c.ret] = W(s) if c.extra[2] == pw["key"] else H(s)
            scaled = lambda v: imax(T("f2i", "u32", tm.T("f", "round", fmul(T("i2f", v), f))), ONE)
            ck.eq("resize_pct/buffer", val(A, e.args[0]), s, "this image's pixels", A.where)
            ck.eq("resize_pct/width", tm.subst(e.args[1], sub), scaled(W(s)), "round(width * pct / 100), at least 1", A.where)
            ck.eq("resize_pct/height", tm.subst(e.args[2], sub), scaled(H(s)), "round(height * pct / 100), at least 1", A.where)
            ck.eq("resize_pct/filter", e.args[3], A.p[2], "the caller's filter", A.where)
            ck.eq("resize_pct/result", A.ret, image(e.ret, BG(A.p[0])), "the operation's result", A.where)
    # composition
    for nm in ("try_compose", "compose", "try_compose_slice", "compose_slice"):
        b = meths.get(nm)
        if b is None or nm not in ops: ck.bad("anchor/" + nm, "Image::%s or operation missing" % nm); continue
        for cnt in (1, 2, 3):
            ims = [sym("img%d" % i) for i in range(cnt)]
            arr = tm.mkagg("array", "", *ims)
            env = const_env(b, C(cnt)) if not nm.endswith("slice") else None
            A = ck.run(b["path"], body=b, opaque=boundary, args={0: arr}, env=env)
            n += 1
            if not A.ok: continue
            ev = callee_of(A, ops[nm])
            if len(ev) != 1: ck.unk("%s/%d" % (nm, cnt), "%d calls of the operation" % len(ev), A.where); continue
            e = ev[0]
            bufs = e.args[0]
            for i in range(cnt):
                ck.eq("%s/%d/layer%d" % (nm, cnt, i), index(bufs, C(i)) if bufs.op != "agg" else bufs.args[2 + i], BUF(ims[i]), "layer %d is image %d" % (i, i), A.where)
            ck.eq("%s/%d/default" % (nm, cnt), e.args[1], A.p[1], "default colour", A.where)
            ck.eq("%s/%d/func" % (nm, cnt), e.args[2], A.p[2], "caller's function", A.where)
            wrap = lambda v: image(v, BG(ims[0]))
            if nm.startswith("try"): result("%s/%d" % (nm, cnt), A, e.ret, wrap)
            else: ck.eq("%s/%d/result" % (nm, cnt), A.ret, wrap(e.ret), "composed pixels with the first image's background colour", A.where)
    # files and encoded buffers
    def codec(name): return F.fn("d10_codecs::" + name)
    def one(nm, tn, want_args, tail):
        nonlocal n
        A = run(nm)
        t = codec(tn)
        if A is None or t is None: ck.need("anchor/codec/" + tn, t is not None, "codec entry point"); return
        n += 1
        ev = callee_of(A, t)
        if len(ev) != 1: ck.unk(nm, "%d calls of %s" % (len(ev), t["path"]), A.where); return
        for i, w in enumerate(want_args(A)):
            if w is not None: ck.eq("%s/arg/%d" % (nm, i), val(A, ev[0].args[i]), w, "argument %d of %s" % (i, tn), A.where)
        tail(A, ev[0].ret)
    dec = F.adt("d10_codecs::DecodedImage")
    di = [i for i, f in enumerate(dec["variants"][0]["fields"]) if f[1][0] == "adt" and f[1][1] == PB] if dec else []
    dbuf = lambda v: fld(v, di[0], dec["variants"][0]["fields"][di[0]][0])
    if di:
        tl = lambda nm: (lambda A, r: result(nm, A, r, lambda v: image(dbuf(v), NONE)))
        one("open", "decode_file", lambda A: [A.p[0]], tl("open"))
        one("read_from_buffer", "decode_buffer", lambda A: [A.p[0]], tl("read_from_buffer"))
    same = lambda nm: (lambda A, r: ck.eq_any(nm + "/result", A.ret, [r, rewrapped(r)], "the encoder's result is returned", A.where))
    one("save", "encode_to_file", lambda A: [A.p[1], BUF(A.p[0]), NONE], same("save"))
    one("save_with_format", "encode_to_file", lambda A: [A.p[1], BUF(A.p[0]), tm.mkagg("adt:core::option::Option", "Some", A.p[2])], same("save_with_format"))
    one("save_to_writer", "encode", lambda A: [A.p[1], BUF(A.p[0]), A.p[2]], same("save_to_writer"))
    def tob(A, r): result("save_to_buffer", A, r, lambda v: post(0, r))
    def emptyv(A):
        ev = callee_of(A, codec("encode"))
        return [None, BUF(A.p[0]), A.p[1]]
    one("save_to_buffer", "encode", emptyv, tob)
    ck.floor("image methods", n, 60)

def rgb_env(b):
    """bind the colour parameter of an operation over PixelBuffer<C> to Rgb"""
    t = b["body"]["locals"][1]
    while t[0] == "ref": t = t[2]
    c = t[2][0] if t[0] == "adt" and t[1] == PB and t[2] else None
    return tuple(RGBT if c and c[0] == "param" and c[1] == g[0] else ("param", g[0], g[1]) for g in b["generics"])
RGBT = ("adt", "d10_core::color::rgb::Rgb", ())
def rgb_none(F):
    b = F.fn("d10_core::color::rgb::Rgb::NONE")
    return Engine(F).eval_const(b, ()) if b is not None else None
def enum_path(F, short):
    for p in F.adts if hasattr(F, "adts") else ():
        if p.startswith("d10_") and p.rsplit("::", 1)[-1] == short: return p
OPT, RES = "core::option::Option", "core::result::Result"

# ---- command queue and command line tool --------------------------------------------------
CMD, QUE, CERR = "d10_commands::commands::Cmd", "d10_commands::queue::Queue", "d10_commands::errors::CommandError"
RGBP = "d10_core::color::rgb::Rgb::"
# command -> (image or colour method, is it a colour method, command line option)
COMMANDS = {
    "ToGray": ("to_gray_with_intensity", True, "grayscale"), "Invert": ("invert", True, "invert"), "Gamma": ("with_gamma", True, "gamma"),
    "Level": ("with_level", True, "level"), "Brightness": ("with_brightness", True, "brightness"), "Contrast": ("with_contrast", True, "contrast"),
    "BrightnessContrast": ("with_brightness_contrast", True, "brightness-contrast"), "Saturation": ("with_saturation", True, "saturation"),
    "StretchSaturation": ("stretch_saturation", True, "stretch-saturation"), "Lightness": ("with_lightness", True, "lightness"),
    "HueRotate": ("with_hue_rotate", True, "hue-rotate"), "Rotate": ("rotate", False, "rotate"), "RandomNoise": ("random_noise", False, "random-noise"),
    "SaltNPepperNoise": ("salt_n_pepper_noise", False, "salt-n-pepper-noise"), "RgbNoise": ("rgb_noise", False, "rgb-noise"),
}
# parameters of with_level are (black point, white point, gamma), of brightness_contrast (brightness, contrast), of rotate (radians, filter)
ORDER = {"Level": ["black_point", "white_point", "gamma"], "BrightnessContrast": ["brightness", "contrast"], "Rotate": ["radians", "filter"]}
BUILDERS = dict({v: (m if not c else None) for v, (m, c, o) in COMMANDS.items()})
def cmds(F):
    a = F.adt(CMD)
    return {v["name"]: [f[0] for f in v["fields"]] for v in a["variants"]} if a else {}
def cmd(F, name, *vals):
    """a command value; parameters in declared order"""
    return tm.mkagg("adt:" + CMD, name, *vals)
def cmd_of(F, name, given):
    """command with parameters given in the order of ORDER"""
    fs = cmds(F)[name]
    if name in ORDER:
        m = dict(zip(ORDER[name], given))
        return cmd(F, name, *[m.get(f, sym("?" + f)) for f in fs])
    return cmd(F, name, *given[:len(fs)])
def params_of(F, name):
    return [sym("p_" + f) for f in (ORDER[name] if name in ORDER else cmds(F)[name])]
def queue_of(F, *cs):
    fs = F.adt(QUE)["variants"][0]["fields"]
    vec = [i for i, f in enumerate(fs) if f[1][0] == "adt" and f[1][1] == "alloc::vec::Vec"]
    if len(fs) != 1 or not vec: return None
    return tm.mkagg("adt:" + QUE, "Queue", tm.mkagg("array", "", *cs))
def image_calls(n, k=None): return n.startswith(IM + "::")
def run_queue(ck, *cs, more=()):
    q = queue_of(ck.F, *cs)
    if q is None: ck.unk("queue", "the queue is not a list of commands"); return None
    return ck.run(QUE + "::run", args={0: q}, unroll=24, opaque=lambda n, k=None: image_calls(n) or any(n == x for x in more))
def evs(A, name): return [e for e in A.events if e.kind == "call" and e.name == name]
def imgs(A): return [e for e in A.events if e.kind == "call" and e.name.startswith(IM + "::")]
def res(v, x): return tm.mkagg("adt:" + RES, v, x)
UNIT = tm.mkagg("tuple", "")
def cerr(v, *x): return tm.mkagg("adt:" + CERR, v, *x)
def strip(t, names=("from", "into", "to_path_buf", "as_ref", "to_string_lossy", "into_owned", "to_string", "to_owned", "clone", "new", "as_path", "as_os_str", "deref", "borrow", "into_os_string", "to_os_string", "into_string")):
    """a value without conversions between string and path types"""
    while isinstance(t, Term) and t.op == "call" and t.args[0].rsplit("::", 1)[-1] in names and len(t.args) == 3: t = t.args[2]
    return t
def image_methods(F):
    return {b["name"]: b for b in F.bodies.values() if b["kind"] == "fn" and b["self"] and b["self"][:2] == ("adt", IM) and not b["trait"]}

def C15(ck):
    F = ck.F
    cv = cmds(F)
    if not ck.need("enum", bool(cv), "Cmd exists"): return
    for v in list(COMMANDS) + ["Silent", "Open", "Save"]:
        if v not in cv: ck.bad("anchor/cmd/" + v, "command %s does not exist" % v)
    p, q = sym("p"), sym("q")
    n = 0
    for v in cv:
        if v in ("Silent", "Open", "Save"): continue
        if v not in COMMANDS:
            # an added command: the method is the one named like it
            m = snake_case(v); ops = image_methods(F)
            col = F.fn(RGBP + "with_" + m) is not None or F.fn(RGBP + m) is not None
            meth = (("with_" + m) if F.fn(RGBP + "with_" + m) else m) if col else m
            if not col and m not in ops: ck.unk("execute/" + v, "no method is named like the command"); continue
        else: meth, col, _ = COMMANDS[v]
        execute(ck, v, meth, col, p, q); n += 1
    # opening replaces the image, saving keeps it, silence changes nothing
    i0 = lambda A, k=0: field0(evs(A, IM + "::open")[k].ret, "Ok")
    A = run_queue(ck, cmd(F, "Open", p), cmd(F, "Save", q))
    if A and A.ok:
        n += 1
        o, s = evs(A, IM + "::open"), evs(A, IM + "::save")
        if ck.need("execute/Open", len(o) == 1 and len(s) == 1 and len(imgs(A)) == 2, "one open and one save call, nothing else: %s" % [e.name for e in imgs(A)][:5], A.where):
            ck.eq("execute/Open/path", strip(o[0].args[0]), p, "opens the given path", A.where)
            ck.eq("execute/Save/path", strip(s[0].args[1]), q, "saves to the given path", A.where)
            ck.eq("execute/Save/image", deref(A, s[0].args[0]), i0(A), "saves the opened image unchanged", A.where)
    p2, q2 = sym("p2"), sym("q2")
    A = run_queue(ck, cmd(F, "Open", p), cmd(F, "Invert"), cmd(F, "Save", q), cmd(F, "Silent"), cmd(F, "Save", q2), cmd(F, "Open", p2), cmd(F, "Save", q2))
    if A and A.ok:
        n += 1
        s, o = evs(A, IM + "::save"), evs(A, IM + "::open")
        if ck.need("execute/sequence", len(s) == 3 and len(o) == 2, "all commands of a queue run", A.where):
            ck.eq("execute/sequence/saved-twice", deref(A, s[1].args[0]), deref(A, s[0].args[0]), "saving and silencing leave the image alone", A.where, asm=lits_of(s[1].pc))
            ck.eq("execute/sequence/reopened", deref(A, s[2].args[0]), field0(o[1].ret, "Ok"), "a later open replaces the image", A.where, asm=lits_of(s[2].pc))
    A = run_queue(ck, cmd(F, "Open", p), cmd(F, "Gamma", sym("a")), cmd(F, "Invert"), cmd(F, "Save", q))
    B = run_queue(ck, cmd(F, "Open", p), cmd(F, "Gamma", sym("a")), cmd(F, "Save", q))
    if A and B and A.ok and B.ok:
        n += 1
        sa, sb = evs(A, IM + "::save"), evs(B, IM + "::save")
        if sa and sb:
            inner = deref(B, sb[0].args[0])
            ck.need("execute/sequence/accumulates", any(x is inner for x in tm.walk(deref(A, sa[0].args[0]))), "the second command works on the first one's result", A.where)
    builders(ck, cv)
    n += cli_options(ck, cv)
    ck.floor("commands executed and options parsed", n, 36)

def snake_case(v): return "".join("_" + c.lower() if c.isupper() and i else c.lower() for i, c in enumerate(v))
def deref(A, x):
    if isinstance(x, Term) and x.op == "ref":
        v = A.st.store.get(x.args[0])
        return v if v is not None else x
    return x
def same_fn(r, A2):
    return r is not None and A2.ok and not equiv(r[0], A2.ret, (), 200)

def color_cmd(ck, A, v, meth, f, ps, key):
    """closure f maps a colour c to c.meth(ps)"""
    F = ck.F
    b = F.fn(RGBP + meth)
    if b is None: ck.bad("anchor/" + meth, "Rgb::%s does not exist" % meth); return
    c = sym("c")
    old = A.E.opaque
    def call(opq):
        A.E.opaque = opq
        try: return ctx(A).callv(f, [c], A.st)
        except Exception: return None
        finally: A.E.opaque = old
    n0 = len(A.events)
    r = call(lambda n, k=None: n.startswith(RGBP))
    del A.events[n0:]
    if r is not None and r[0].op == "call" and r[0].args[0] == b["path"]:
        good = True
        for i, w in enumerate([c] + ps):
            good = ck.eq("%s/arg%d" % (key, i), r[0].args[2 + i], w, "argument %d of %s" % (i, meth), A.where) and good
        return
    r = call(None)
    del A.events[n0:]
    A2 = ck.run(b["path"], body=b, args={i: x for i, x in enumerate([c] + ps)})
    r1 = call(lambda n, k=None: n.startswith(RGBP)); del A.events[n0:]
    others = {m for m, c_, _ in COMMANDS.values() if c_ and m != meth}
    if r1 is not None and r1[0].op == "call" and str(r1[0].args[0]).startswith(RGBP) and r1[0].args[0].rsplit("::", 1)[-1] in others:
        # the colour goes through the method of another command: fine only when that is provably the same function
        if not same_fn(r, A2):
            ck.bad(key, "each pixel becomes c.%s, expected c.%s" % (r1[0].args[0].rsplit("::", 1)[-1], meth), A.where)
        else: ck.ok(key, "same function of the colour", A.where)
        return
    if r is None or not A2.ok: ck.unk(key, "the colour function of %s could not be evaluated" % v, A.where); return
    ck.eq(key, r[0], A2.ret, "each pixel becomes c.%s(parameters)" % meth, A.where)
def execute(ck, v, meth, col, p, q):
    F = ck.F
    ps = params_of(F, v)
    A = run_queue(ck, cmd(F, "Open", p), cmd_of(F, v, ps), cmd(F, "Save", q))
    if not A or not A.ok: return
    key = "execute/" + v
    o, s = evs(A, IM + "::open"), evs(A, IM + "::save")
    if len(o) != 1 or len(s) != 1: ck.bad(key, "expected one open and one save around the command, found %s" % [e.name for e in imgs(A)][:6], A.where); return
    img0 = field0(o[0].ret, "Ok")
    fin = deref(A, s[0].args[0])
    if fin is img0: ck.bad(key, "the command leaves the image unchanged", A.where); return
    t = fin.args[1] if fin.op == "post" and fin.args[0] == 0 else fin
    inpl = t is not fin
    if t.op != "call" or not t.args[0].startswith(IM + "::"): ck.unk(key, "saved image is %s" % show(fin)[:160], A.where); return
    name = t.args[0].rsplit("::", 1)[-1]
    if col and name in ("mod_colors", "map_colors"):
        ck.eq(key + "/image", t.args[2], img0, "applied to the current image", A.where)
        color_cmd(ck, A, v, meth, t.args[3], ps, key + "/colour")
    elif not col and (name == meth and not inpl or name == "add_" + meth and inpl):
        ck.eq(key + "/image", t.args[2], img0, "applied to the current image", A.where)
        for i, w in enumerate(ps): ck.eq("%s/arg%d" % (key, i), t.args[3 + i], w, "argument %d of %s" % (i, meth), A.where)
    else: ck.bad(key, "applies Image::%s, expected %s%s" % (name, "each pixel's " if col else "Image::", meth), A.where)

def builders(ck, cv):
    """queue builder methods append the command of their name"""
    F = ck.F
    meths = {b["name"]: b for b in F.bodies.values() if b["kind"] == "fn" and b["self"] and b["self"][:2] == ("adt", QUE) and not b["trait"] and b["reach"]}
    by = {snake_case(v): v for v in cv}
    x0, x1 = cmd(F, "Invert"), cmd(F, "Save", sym("s0"))
    q0 = queue_of(F, x0, x1)
    if q0 is None: ck.unk("builder", "the queue is not a list of commands"); return
    n = 0
    for nm, b in sorted(meths.items()):
        if nm not in by: continue
        A = ck.run(b["path"], body=b, args={0: q0}, unroll=24)
        if not A.ok: continue
        n += 1
        ps = [sym(x) for x in b["params"][1:]]
        want = queue_of(F, x0, x1, cmd_of(F, by[nm], ps))
        got = A.ret
        if len(ps) == 1 and got.op == "agg" and got.args[2].op == "agg" and len(got.args[2].args) == 5:
            last = got.args[2].args[4]
            if last.op == "agg" and len(last.args) == 3: got = queue_of(F, *got.args[2].args[2:4], tm.mkagg(last.args[0], last.args[1], strip(last.args[2])))
        ck.eq("builder/" + nm, got, want, "appends Cmd::%s with the caller's parameters" % by[nm], A.where)
    for nm, want in (("push", None), ("with", None)):
        b = meths.get(nm)
        if not b: ck.bad("anchor/Queue::" + nm, "Queue::%s does not exist" % nm); continue
        A = ck.run(b["path"], body=b, args={0: q0, 1: sym("cmd")}, unroll=24)
        if not A.ok: continue
        n += 1
        ck.eq("builder/" + nm, A.ret if nm == "with" else ck.out(A, 0), queue_of(F, x0, x1, sym("cmd")), "appends the command", A.where)
    for nm, f in (("len", lambda k: C(k)), ("is_empty", lambda k: TRUE if k == 0 else FALSE)):
        b = meths.get(nm)
        if not b: ck.bad("anchor/Queue::" + nm, "Queue::%s does not exist" % nm); continue
        for k in range(3):
            A = ck.run(b["path"], body=b, args={0: queue_of(F, *[x0, x1][:k])}, unroll=24)
            if A.ok: ck.eq("builder/%s/%d" % (nm, k), A.ret, f(k), "of a queue of %d commands" % k, A.where)
    A = ck.run(QUE + "::new")
    if A and A.ok: ck.eq("builder/new", A.ret, queue_of(F), "a new queue is empty", A.where)
    ck.floor("builder methods", n, 17)

# ---- command line -----------------------------------------------------------------------
def main_body(F):
    m = [b for b in F.bodies.values() if b["crate"] == "d10_cli" and b["name"] == "main" and b["kind"] == "fn"]
    return m[0] if m else None
def cli(ck, argv, parts=None):
    """main evaluated on the given argument list; Queue::run is left uninterpreted"""
    b = main_body(ck.F)
    arr = tm.mkagg("array", "", *argv)
    def op(n, k=None):
        if n in ("std::env::args_os", "std::env::args"): return lambda ret, vals: T("iter", T("sseq", arr), ZERO)
        if n == QUE + "::run": return True
        if parts is not None and n == "str::split":
            return lambda ret, vals: T("iter", T("sseq", tm.mkagg("array", "", *parts)), ZERO) if vals[1].op == "c" and vals[1].args[1] in (44, ",") else ret
        return False
    A = ck.run(b["path"], body=b, opaque=op, unroll=48, may_diverge=True)
    A.runs = [e for e in A.events if e.kind == "call" and e.name == QUE + "::run"]
    # the process fails when it exits with another code than 0, panics, or main returns an error
    f, A.odd = FALSE, False
    for e in A.events:
        if e.kind == "exit":
            c = e.args[0]
            if c.op != "c": A.odd = True
            elif c.args[1] != 0: f = or_(f, and_(*e.pc))
        elif e.kind == "panic": f = or_(f, and_(*e.pc))
        elif e.kind == "assert" and e.ret is not TRUE: f = or_(f, and_(*e.pc, not_(e.ret)))
    rt = b["body"]["locals"][0]
    if A.ret is not None and rt[0] == "adt":
        if rt[1] == RES: f = or_(f, and_(*A.st.pc, isvar(A.ret, "Err")))
        else:
            for leaf, pc in leaves_of(A.ret):
                s = show(leaf)
                if "FAILURE" in s or leaf.op == "call" and leaf.args[2:3] and leaf.args[2].op == "c" and leaf.args[2].args[1] != 0: f = or_(f, and_(*A.st.pc, *pc))
                elif not ("SUCCESS" in s or leaf.op == "call" and leaf.args[2:3] and leaf.args[2].op == "c"): A.odd = True
    A.fail = f
    A.prints = [e for e in A.events if e.kind == "call" and e.name.endswith("::_eprint")]
    A.printed = or_(*[and_(*e.pc) for e in A.prints])
    if A.ret is not None and rt[0] == "adt" and rt[1] == RES: A.printed = or_(A.printed, and_(*A.st.pc, isvar(A.ret, "Err")))
    return A
def leaves_of(t, pc=()):
    if t.op == "ite":
        yield from leaves_of(t.args[1], pc + (t.args[0],)); yield from leaves_of(t.args[2], pc + (not_(t.args[0]),))
    else: yield t, pc
def parse_spec(F, name):
    """(kinds of the option's parameter, number of parts) of a command"""
    if name in ("Open", "Save"): return "path", 1
    if name == "ToGray": return "intensity", 1
    n = {"Silent": 0, "Invert": 0, "Level": 3, "BrightnessContrast": 2}.get(name, 1)
    return ("num" if n else "none"), n
def option_scenarios(F):
    """(option, command, argument list, parts, expected (kind, source) per parameter)"""
    v = sym("v")
    pr = sym("prog")
    opts = {o: c for c, (_, _, o) in COMMANDS.items()}
    opts.update({"silent": "Silent", "open": "Open", "save": "Save"})
    for o, c in sorted(opts.items()):
        kind, n = parse_spec(F, c)
        argv = [pr, C("-" + o)] + ([v] if n else [])
        parts = [sym("part%d" % i) for i in range(n)] if n > 1 else None
        yield o, c, argv, parts, [(kind, x) for x in (parts or ([v] if n else []))]
def parsed(t):
    """(target type, source, result) of a successful parse, None otherwise"""
    if t.op == "fld" and t.args[0].op == "down" and t.args[0].args[1] == "Ok":
        c = t.args[0].args[0]
        if c.op == "call" and is_parse(c.args[0]): return c
    return None
def is_parse(n): return n == "str::parse" or n.endswith("FromStr::from_str") or n.endswith("as core::str::FromStr>::from_str")
def queue_cmds(A, e):
    q = deref(A, e.args[0]) if A.st is not None else e.args[0]
    if q.op == "agg" and q.args[0] == "adt:" + QUE and q.args[2].op == "agg" and q.args[2].args[0] == "array": return list(q.args[2].args[2:])
    return None
def only_run(ck, A, key):
    if len(A.runs) != 1:
        (ck.bad if not A.runs else ck.unk)(key, "%d calls of Queue::run" % len(A.runs), A.where); return None
    return queue_cmds(A, A.runs[0])
def cli_options(ck, cv):
    F = ck.F
    if not ck.need("anchor/main", main_body(F) is not None, "command line main"): return 0
    n = 0
    for o, c, argv, parts, spec in option_scenarios(F):
        A = cli(ck, argv, parts)
        key = "option/" + o
        n += 1
        if A.gave_up: continue
        cs = only_run(ck, A, key)
        if cs is None: continue
        option_cmd(ck, A, key, cs, 0, c, spec, 1)
        # the same option between other arguments consumes its own parameters only
        A = cli(ck, [argv[0], C("in.png")] + argv[1:] + [C("-invert"), C("out.png")], parts)
        cs = only_run(ck, A, key + "/within")
        if cs is None: continue
        option_cmd(ck, A, key + "/within", cs, 1, c, spec, 4)
        if len(cs) == 4:
            pos(ck, A, key + "/within/first", cs[0], "Open", "in.png")
            ck.need(key + "/within/next", cs[2].op == "agg" and cs[2].args[1] == "Invert", "the next option is parsed as such", A.where)
            pos(ck, A, key + "/within/last", cs[3], "Save", "out.png")
    A = cli(ck, [sym("prog"), C("in.png"), C("out.png"), C("out2.png")]); n += 1
    cs = only_run(ck, A, "positional")
    if cs is not None and ck.need("positional/count", len(cs) == 3, "three file arguments give %d commands" % len(cs), A.where):
        for i, (vn, x) in enumerate((("Open", "in.png"), ("Save", "out.png"), ("Save", "out2.png"))): pos(ck, A, "positional/%d" % i, cs[i], vn, x)
    return n
def pos(ck, A, key, c, variant_, path):
    if ck.need(key, c.op == "agg" and c.args[1] == variant_, "positional argument %s gives %s" % (path, show(c)[:60]), A.where):
        ck.eq(key + "/path", strip(c.args[2]), C(path), "path of the positional argument", A.where)
def option_cmd(ck, A, key, cs, i, c, spec, total):
    F = ck.F
    if not ck.need(key + "/count", len(cs) == total, "%d commands, expected %d" % (len(cs), total), A.where): return
    t = cs[i]
    if not ck.need(key, t.op == "agg" and t.args[1] == c, "gives command %s" % show(t)[:80], A.where): return
    fs = cmds(F)[c]
    given = []
    names = ORDER.get(c, fs)
    for j, f in enumerate(fs):
        x = t.args[2 + j]
        if c == "Rotate" and f == "filter":
            ck.need(key + "/filter", x.op == "agg" and x.args[1] == "Bilinear", "rotates with the bilinear filter", A.where); continue
        k = names.index(f) if f in names else j
        if k >= len(spec): ck.unk(key + "/" + f, "unexpected parameter"); continue
        kind, src = spec[k]
        w = "%s/param/%s" % (key, f)
        if kind == "path": ck.eq(w, strip(x), src, "the option's argument", A.where)
        else:
            call = parsed(x)
            if call is None:
                cs_ = [z for z in tm.walk(x) if isinstance(z, Term) and z.op == "call" and is_parse(z.args[0])]
                if x.op == "c" or not cs_: (ck.bad if x.op == "c" else ck.unk)(w, "parameter is %s, not the parsed argument" % show(x)[:100], A.where)
                else: ck.eq(w, x, field0(cs_[0], "Ok"), "the parsed value itself", A.where)
                continue
            ty = [y for y in call.args[1] if isinstance(y, tuple)]
            okty = any(y == ("prim", "f32") for y in ty) if kind == "num" else any(y[0] == "adt" and y[1].endswith("::Intensity") for y in ty)
            ck.need(w + "/type", okty or not ty, "parsed as %s" % (ty,), A.where)
            ck.eq(w, strip(call.args[2]), src, "parsed from part %d of the option's argument" % k, A.where)

def C14(ck):
    F = ck.F
    if not ck.need("anchor/main", main_body(F) is not None, "command line main"): return
    cv = cmds(F)
    if not ck.need("enum", bool(cv), "Cmd exists"): return
    pr, v = sym("prog"), sym("v")
    n = 0
    def bad_args(key, argv, parts=None):
        """a wrong argument list: nothing runs, the process prints and fails"""
        nonlocal n
        A = cli(ck, argv, parts); n += 1
        if A.gave_up: return
        if A.odd: ck.unk(key, "exit status is not a constant", A.where); return
        ck.eq(key + "/nothing-runs", or_(*[and_(*e.pc) for e in A.runs]), FALSE, "no command runs", A.where)
        ck.eq(key + "/fails", A.fail, TRUE, "the exit status is non-zero", A.where)
        ck.eq(key + "/prints", A.printed, TRUE, "a message goes to standard error", A.where)
        return A
    def good_args(key, argv, parts=None):
        """runs exactly when every parse succeeds; fails exactly when a parse or the run fails"""
        nonlocal n
        A = cli(ck, argv, parts); n += 1
        if A.gave_up: return
        if A.odd: ck.unk(key, "exit status is not a constant", A.where); return
        parses = [e.ret for e in A.events if e.kind == "call" and is_parse(e.name) and e.ret is not None]
        valid = and_(*[isvar(x, "Ok") for x in dict.fromkeys(parses)])
        ck.eq(key + "/runs", or_(*[and_(*e.pc) for e in A.runs]), valid, "the queue runs exactly when every argument is valid", A.where)
        if len(A.runs) == 1:
            r = A.runs[0].ret
            fails = or_(not_(valid), and_(valid, not_(isvar(r, "Ok"))))
            ck.eq(key + "/fails", A.fail, fails, "non-zero exit status exactly on failure", A.where)
            ck.eq(key + "/prints", and_(fails, not_(A.printed)), FALSE, "every failure prints to standard error", A.where)
            err = field0(r, "Err")
            es = [e for e in A.prints if any(isinstance(x, Term) and any(y is r for y in tm.walk(x)) for x in e.args)]
            ck.eq(key + "/message", and_(valid, not_(isvar(r, "Ok")), not_(or_(*[and_(*e.pc) for e in es]))) if not is_res_main(F) else FALSE, FALSE, "the message shows the run's error", A.where)
        return A
    bad_args("args/none", [pr])
    bad_args("args/unknown", [pr, C("-no-such-option")])
    bad_args("args/unknown-last", [pr, C("in.png"), C("-invert"), C("out.png"), C("--gamma")])
    bad_args("args/dash", [pr, C("in.png"), C("-")])
    for o, c, argv, parts, spec in option_scenarios(F):
        good_args("option/" + o, argv, parts)
        if spec: bad_args("missing/" + o, argv[:2])
        if spec: bad_args("missing-last/" + o, [pr, C("in.png"), C("-invert"), C("out.png"), argv[1]])
        if parts:
            for k in (1, len(parts) - 1, len(parts) + 1):
                if k != len(parts): bad_args("count/%s/%d" % (o, k), argv, [sym("part%d" % i) for i in range(k)])
    good_args("args/files", [pr, C("in.png"), C("out.png")])
    good_args("args/many", [pr, C("in.png"), C("-gamma"), v, C("-rotate"), sym("w"), C("out.png"), C("-contrast"), sym("x"), C("out2.png")])
    # parsing touches no file: every way from main to the codecs goes through Queue::run
    G = callgraph.Graph(F)
    run = F.fn(QUE + "::run")
    mb = main_body(F)
    if run is not None:
        saved = G.edges.get(run["key"], set())
        G.edges[run["key"]] = type(saved)()
        par = G.reach(mb["key"])
        G.edges[run["key"]] = saved
        hit = [k for k in par if k in F.bodies and F.bodies[k]["crate"] in ("d10_codecs", "d10_ops") or k in F.bodies and F.bodies[k]["path"].startswith(IM + "::")]
        ck.need("parse-is-pure", not hit, "functions reachable without Queue::run: %s" % ([F.bodies[k]["path"] for k in hit[:3]]), "%s:%s" % (mb["file"], mb["line"]))
        ck.need("main-runs-queue", run["key"] in par, "main reaches Queue::run")
    # the queue stops at the first failure
    p, q, p2, q2 = sym("p"), sym("q"), sym("p2"), sym("q2")
    for vn in cv:
        if vn in ("Silent", "Open"): continue
        ps = params_of(F, vn)
        A = run_queue(ck, cmd_of(F, vn, ps), cmd(F, "Open", p), cmd(F, "Save", q)); n += 1
        if A and A.ok:
            ck.eq("missing-image/" + vn, A.ret, res("Err", cerr("MissingImage")), "reports the missing image", A.where)
            ck.need("missing-image/%s/stops" % vn, not [e for e in imgs(A) if FALSE not in e.pc], "no image operation runs", A.where)
        A = run_queue(ck, cmd(F, "Open", p), cmd_of(F, vn, ps), cmd(F, "Save", q)); n += 1
        if A and A.ok:
            o, s = evs(A, IM + "::open"), evs(A, IM + "::save")
            if len(o) == 1 and s:
                steps = [o[0].ret] + [e.ret for e in s]
                want = res("Ok", UNIT)
                for i, r in reversed(list(enumerate(steps))): want = ite(isvar(r, "Ok"), want, res("Err", cerr("Decoding" if i == 0 else "Encoding", field0(r, "Err"))))
                ck.eq("sequence/%s/result" % vn, A.ret, want, "the first failing step's error is the result", A.where)
                okd = isvar(o[0].ret, "Ok")
                for e in imgs(A):
                    if e is o[0]: continue
                    ck.eq("sequence/%s/%s" % (vn, e.name.rsplit("::", 1)[-1]), and_(*e.pc, not_(okd)), FALSE, "runs only after the open succeeded", A.where)
            else: ck.unk("sequence/" + vn, "open %d, save %d calls" % (len(o), len(s)), A.where)
    A = run_queue(ck, cmd(F, "Open", p), cmd(F, "Save", q), cmd(F, "Open", p2), cmd(F, "Save", q2)); n += 1
    if A and A.ok:
        es = [e for e in imgs(A) if e.name in (IM + "::open", IM + "::save")]
        if len(es) == 4:
            acc = TRUE
            want = res("Ok", UNIT)
            for i, e in enumerate(es):
                ck.eq("stops/step%d" % i, and_(*e.pc), acc, "step %d runs exactly when all earlier steps succeeded" % i, A.where)
                ck.need("stops/order%d" % i, e.name.endswith(("open", "save")[i % 2]), "steps run in the given order", A.where)
                ck.eq("stops/path%d" % i, strip(e.args[0] if i % 2 == 0 else e.args[1]), [p, q, p2, q2][i], "path of step %d" % i, A.where)
                acc = and_(acc, isvar(e.ret, "Ok"))
            for i, e in reversed(list(enumerate(es))): want = ite(isvar(e.ret, "Ok"), want, res("Err", cerr("Decoding" if i % 2 == 0 else "Encoding", field0(e.ret, "Err"))))
            ck.eq("stops/result", A.ret, want, "the first failing step's error", A.where)
        else: ck.bad("stops", "%d open/save calls for 4 commands" % len(es), A.where)
    A = run_queue(ck)
    if A and A.ok: ck.eq("empty", A.ret, res("Ok", UNIT), "an empty queue succeeds", A.where)
    # messages of command errors
    fm = [b for b in F.bodies.values() if b["self"] and b["self"][:2] == ("adt", CERR) and b["name"] == "fmt" and b["trait"] and "Display" in str(b["trait"])]
    if ck.need("display", len(fm) == 1, "CommandError is printable"):
        for vn, inner in (("Decoding", "d10_codecs::errors::DecodingError"), ("Encoding", "d10_codecs::errors::EncodingError")):
            x = sym("err")
            A = ck.run(fm[0]["path"], body=fm[0], args={0: cerr(vn, x)}, opaque=lambda nm, k=None: nm.startswith("<d10_codecs") or nm.endswith("::fmt"))
            es = [e for e in A.events if e.kind == "call" and any(isinstance(y, Term) and any(z is x for z in tm.walk(y)) for y in e.args)]
            ck.need("display/" + vn, bool(es), "the message of a %s error contains the inner error" % vn, A.where); n += 1
    ck.floor("argument lists and queues", n, 80)
def is_res_main(F): return main_body(F)["body"]["locals"][0][:2] == ("adt", RES)

RULES = {
 "C26": (C26, "Every Image method is evaluated symbolically with the operations, codecs and buffer methods left uninterpreted: the method has to call the operation of its name with this image's pixels and the caller's arguments in order, and return its result with this image's background colour. A method that does not call it is compared with the operation by evaluating both bodies."),
 "C14": (C14, "The command line main is evaluated on symbolic argument lists (every option valid, without its parameter, with a wrong part count, unknown options) and Queue::run on symbolic command lists: conditions under which the queue runs, the process fails and a message is printed are compared with the specified ones; each step of a queue has to be conditional on the success of all earlier ones; the call graph has to show no way from main to the codecs except through Queue::run."),
 "C15": (C15, "Queue::run is evaluated on every command between an open and a save with image methods left uninterpreted, and the saved image has to be the named operation applied to the opened one with the command's parameters; builder methods and the command line's main are evaluated on every option and the queue they produce compared with the specified commands."),
}

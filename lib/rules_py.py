"""Rules over the Python bindings: every wrapper forwards to the core operation of its name."""
from fw import *
from rules_core import *
from rules_misc import variant
from rules_app import IM, field0, post, leaves_of, is_parse, enum_path, parsed, boundary
import models, callgraph

PYM, PYC = "d10_python::image::", "d10_python::color::"
OPT, RES = "core::option::Option", "core::result::Result"
def Some(x): return tm.mkagg("adt:" + OPT, "Some", x)
NONE = tm.mkagg("adt:" + OPT, "None")
def Ok_(x): return tm.mkagg("adt:" + RES, "Ok", x)
UNITV = tm.mkagg("tuple", "")

# registration ------------------------------------------------------------------------------------
def mwalk(t, f):
    callgraph.walk(t, f)
def fndefs(t):
    out = []
    def f(x):
        if isinstance(x, tuple) and x and x[0] == "zst" and len(x) == 2 and isinstance(x[1], tuple) and x[1][0] == "fndef": out.append(x[1][1])
        if isinstance(x, tuple) and len(x) > 2 and x[0] == "fndef" and isinstance(x[1], str): out.append(x[1])
    mwalk(t, f); return list(dict.fromkeys(out))
def strs(t):
    out = []
    def f(x):
        if isinstance(x, tuple) and len(x) == 3 and x[0] == "strlit": out.append(x[2])
    mwalk(t, f); return out
def blocks_of(b):
    """block lists of a constant and of its promoted parts"""
    out = [b["body"]["blocks"]]
    for p in b["promoted"] if isinstance(b["promoted"], tuple) else ():
        out.append((p["body"] if "body" in p else p)["blocks"])
    return out
def user_fns(F, G, key):
    """the hand-written functions a generated entry point ends in"""
    seen, todo, out = set(), [key], []
    while todo:
        k = todo.pop()
        if k in seen or k not in F.bodies: continue
        seen.add(k)
        b = F.bodies[k]
        if b["crate"] != "d10_python": continue
        gen = b["name"].startswith("__py") or "::ITEMS::" in k or "::DEF::" in k or b["kind"] != "fn" or b["trait"] or b["name"] in ("trampoline", "inner")
        if not gen: out.append(k); continue
        todo += sorted(G.edges.get(k, ()))
    return out
def exports(F, G, b):
    """(kind, Python name, entry point) of every definition in a table of exported items"""
    out = []
    for blocks in blocks_of(b):
        pend = []
        for blk in blocks:
            for st in blk["s"]:
                if st[0] != "=": continue
                pend += fndefs(st)
                if st[2][0] == "agg" and "PyType_Slot" in str(st[2][1][1]):
                    nm = []
                    mwalk(st[2], lambda x: nm.append(x[2]) if isinstance(x, tuple) and len(x) > 2 and x[0] == "named" and isinstance(x[2], str) else None)
                    if nm and pend: out.append(("slot", nm[0].rsplit("::", 1)[-1], pend[-1]))
                    pend = []
            t = blk["t"]
            if t and t[0] == "call" and "pyo3::impl_::pymethods::Py" in t[1]["path"] and t[1]["name"] not in ("flags",):
                pend += [x for x in fndefs(t[2]) if x in F.bodies]
                s = strs(t[2])
                if s and pend:
                    kind = "getter" if "PyGetterDef" in t[1]["path"] else "setter" if "PySetterDef" in t[1]["path"] else "method"
                    out.append((kind, s[0].rstrip("\0"), pend[-1]))
                pend = []
    return out
def description(F, key):
    """(positional names, required, keyword-only count) of a generated argument parser"""
    b = F.bodies.get(key + "::DESCRIPTION")
    if b is None: return None
    names, req, kw = [], None, 0
    for blocks in blocks_of(b):
        for blk in blocks:
            for st in blk["s"]:
                if st[0] == "=" and st[2][0] == "agg":
                    h = st[2][1]
                    if h[0] == "array": names = names or strs(st[2])
                    if h[0] == "adt" and h[1].endswith("FunctionDescription"):
                        f = dict(zip(h[4], st[2][2]))
                        r = f.get("required_positional_parameters")
                        if r and r[0] == "const" and r[1][0] == "int": req = int(r[1][2])
                    if h[0] == "adt" and h[1].endswith("KeywordOnlyParameterDescription"): kw += 1
    return names, req, kw

# types and conversions ---------------------------------------------------------------------------
def peel(t):
    while t[0] == "ref": t = t[2]
    return t
def py_class(F, t):
    """a Python class wrapping one core value"""
    t = peel(t)
    if t[0] != "adt" or not t[1].startswith("d10_python::"): return None
    a = F.adt(t[1])
    return t[1] if a and len(a["variants"]) == 1 and len(a["variants"][0]["fields"]) == 1 else None
def inner(F, cls, v):
    f = F.adt(cls)["variants"][0]["fields"][0]
    return fld(v, 0, f[0])
def wrap(F, cls, x):
    return tm.mkagg("adt:" + cls, F.adt(cls)["variants"][0]["name"], x)
def is_opt(t): return t[0] == "adt" and t[1] == OPT
def is_str(t): t = peel(t); return t[0] == "str" or t[0] == "adt" and t[1] == "alloc::string::String"
def py_params(b):
    """(position, name, type) of the parameters a Python caller supplies"""
    L = b["body"]["locals"]
    out = []
    for i in range(b["body"]["argc"]):
        n = b["params"][i] if i < len(b["params"]) else "a%d" % i
        t = peel(L[i + 1])
        if i == 0 and n == "self" or t[0] == "adt" and t[1] == "pyo3::marker::Python": continue
        out.append((i, n, L[i + 1]))
    return out
def methods(F, cls):
    return {b["name"]: b for b in F.bodies.values() if b["kind"] == "fn" and b["self"] and b["self"][:2] == ("adt", cls) and not b["trait"] and not b["name"].startswith("__pymethod")}

def parser(F):
    """summary of parsing a constant name: evaluated; of any other: left symbolic"""
    def f(ret, vals):
        if vals and isinstance(vals[0], Term) and vals[0].op == "c" and vals[0].args[0] == "str" and ret.op == "call" and ret.args[1]:
            t = ret.args[1][0]
            b = F.fn("<%s as core::str::traits::FromStr>::from_str" % t[1]) if t[0] == "adt" else None
            if b is not None:
                r = Check("sub", F).run(b["path"], body=b, args={0: vals[0]})
                if r and r.ok and r.ret.op == "agg": return r.ret
        return ret
    return f
def opq(F):
    p = parser(F)
    def f(n, k=None):
        if is_parse(n): return p
        return n.startswith(IM + "::") or n.startswith("d10_core::color::") or n.startswith("<d10_core::color::")
    return f

# tables ------------------------------------------------------------------------------------------
# Python name -> core operation, where they differ
ALIAS = {"get_width": "width", "get_height": "height", "get_pixel": "get_pixel_optional", "mod_colors": "try_mod_colors",
         "mod_colors_enumerated": "try_mod_colors_enumerated", "map_colors": "try_map_colors", "map_colors_enumerated": "try_map_colors_enumerated",
         "map_color_channels": "try_map_color_channels", "from_list": "new_from_raw", "to_list": "data", "compose": "try_compose_slice"}
# value of an omitted argument
DEFAULTS = {
    "rotate": {"filter": ("FilterMode", "Bilinear")}, "resize": {"filter": ("FilterMode", "Bilinear")}, "resize_pct": {"filter": ("FilterMode", "Bilinear")},
    "edge_detection": {"mode": ("EdgeDetection", "Sobel")}, "with_jpeg_quality": {"preserve_alpha": True}, "unsharp": {"factor": 1.0},
    "drawing": {"mode": ("parse", "default")}, "despeckle": {"threshold": 0.1, "amount": 1}, "symmetric_nearest_neighbor": {"radius": 4, "with_center": True},
    "blend": {"blend_op": ("BlendOp", "Normal"), "intensity": 1.0}, "stretch_contrast": {"threshold": 0.5},
    "optimize_saturation": {"offset": 1.0, "mode": ("SaturationMode", "Hsl")}, "change_color_temperature": {"tint_correction": 0.0},
    "optimize_color_temperature": {"tint_correction": 0.0}, "white_balance": {"threshold": 0.5}, "balance": {"mode": ("BalanceMode", "Rgb"), "threshold": 0.5},
    "equalize": {"mode": ("EqualizeMode", "Srgb")},
}
PLAIN = ("get_width get_height has_transparency is_grayscale get_pixel_clamped put_pixel is_in_image crop flip_horizontal flip_vertical rotate90 rotate180 "
         "rotate270 rotate resize resize_pct edge_detection with_jpeg_quality random_noise add_random_noise salt_n_pepper_noise add_salt_n_pepper_noise "
         "rgb_noise add_rgb_noise gaussian_noise add_gaussian_noise gaussian_blur unsharp drawing interlace apply_palette apply_palette_in_place despeckle "
         "symmetric_nearest_neighbor blend stretch_contrast optimize_saturation change_color_temperature optimize_color_temperature optimize_lightness "
         "white_balance balance equalize").split()
SPECIAL = "new from_list to_list open save mod_colors mod_colors_enumerated map_colors map_colors_enumerated get_pixel compose __len__ __getitem__ __setitem__ to_np_array from_np_array".split()

def const_of(F, d):
    if isinstance(d, tuple):
        if d[0] == "parse": return None
        return variant(F, enum_path(F, d[0]), d[1])
    return C(d)
def fails(p):
    """a path literal saying that some fallible call failed"""
    if p.op == "isvar": return p.args[1] == "Err"
    if p.op == "not": return any(t.op == "isvar" and t.args[1] == "Ok" for t in tm.walk(p.args[0]))
    return p.op in ("exists", "or", "and") and any(fails(x) for x in p.args if isinstance(x, Term))

def forward(ck, b, core, dflt, key, base, opaque, self_inner=None, call_self=None):
    """the wrapper b calls exactly the core operation `core` with its own arguments in order, for every
    combination of given and omitted optional arguments, and returns its result"""
    F = ck.F
    ps = py_params(b)
    opts = [i for i, n, t in ps if is_opt(t)]
    cases = [("", ())] + [("/no_" + n, (i,)) for i, n, t in ps if is_opt(t)]
    for suffix, none in cases:
        vals, want = {}, []
        for i, n, t in ps:
            s = sym(n)
            ty = t[2][0] if is_opt(t) and len(t) > 2 else t
            v = s if not is_opt(t) else NONE if i in none else Some(s)
            vals[i] = v
            cls = py_class(F, ty)
            want.append((i, n, ty, inner(F, cls, s) if cls else s, i in none))
        A = ck.run(b["path"], body=b, args=vals, opaque=opaque)
        if A is None or not A.ok: return
        check_call(ck, A, b, core, want, vals, dflt, key + suffix, base, opaque)
def parses(t): return list(dict.fromkeys(c for c in tm.walk(t) if c.op == "call" and is_parse(c.args[0])))
def given(g):
    """an argument when every name parses"""
    return simp(g, tuple(isvar(p, "Ok") for p in parses(g)))
def swallowed(leaf, lits):
    """a parse whose failure still leads to this value"""
    for p in parses(leaf):
        if not any(q.op == "isvar" and q.args[0] is p and q.args[1] == "Ok" for q in lits) and not any(q is not_(isvar(p, "Err")) for q in lits): return p
    return None
def matches(n, base, core): return n.rsplit("::", 1)[-1] == core and base(n)
def check_call(ck, A, b, core, want, vals, dflt, key, base, opaque):
    F = ck.F
    ce = [e for e in A.events if e.kind == "call" and matches(e.name, base, core) and not any(q is FALSE for q in e.pc)]
    if len(ce) != 1:
        other = sorted({e.name.rsplit("::", 1)[-1] for e in A.events if e.kind == "call" and base(e.name)})
        return fallback(ck, A, b, core, want, vals, dflt, key, "%d calls of %s (calls of core operations: %s)" % (len(ce), core, other[:5]))
    e = ce[0]
    args = list(e.args)
    selfp = b["params"] and b["params"][0] == "self"
    n0 = 0
    if selfp:
        s0 = A.params["self"]
        cls = py_class(F, b["body"]["locals"][1])
        before = inner(F, cls, sym("self")) if s0.op == "ref" else inner(F, cls, s0)
        if not args: return ck.unk(key, "%s is called without a receiver" % core, A.where)
        if args[0] is not before:
            return fallback(ck, A, b, core, want, vals, dflt, key, "%s is applied to %s, expected the wrapped value" % (core, show(args[0])[:80]))
        n0 = 1
    if len(args) - n0 != len(want): return ck.unk(key, "%s takes %d arguments, the wrapper has %d" % (core, len(args) - n0, len(want)), A.where)
    good = True
    coret = e.extra[0] if e.extra else None
    for j, (i, n, ty, w, none) in enumerate(want):
        g = args[n0 + j]
        lab = "%s/%s" % (key, n)
        what = "argument %d of %s is the caller's %s" % (j, core, n)
        ct = coret[n0 + j] if coret else None
        if ct is not None and is_opt(peel(ct)):      # optional in the core as well: passed as it is
            good = ck.eq(lab, g, vals[i], what, A.where) and good; continue
        if none:
            d = dflt.get(n)
            if d is None: ck.unk(lab, "no recorded default for %s" % n, A.where); continue
            if isinstance(d, tuple) and d[0] == "parse":
                c = parser(F)(T("call", "str::parse", (peel(ct),)), [C(d[1])]) if ct else None
                if c is None or c.op != "agg" or c.args[1] != "Ok": ck.unk(lab, "default %r could not be parsed" % (d[1],), A.where); continue
                good = ck.eq(lab, g, c.args[2], "%s defaults to %s" % (n, d[1]), A.where) and good
            else: good = ck.eq(lab, g, const_of(F, d), "%s defaults to %s" % (n, d), A.where) and good
            continue
        if is_str(ty): g = given(g)
        p = parsed(g)
        if is_str(ty) and not (ct is not None and is_str(ct)):
            if p is None:
                if not any(t is w for t in tm.walk(g)): ck.bad(lab, "%s: it is ignored, the argument is %s" % (what, show(g)[:80]), A.where)
                else: ck.unk(lab, "%s is %s" % (what, show(g)[:80]), A.where)
                good = None; continue
            good = ck.eq(lab, p.args[2], w, what + ", parsed", A.where) and good
            continue
        good = ck.eq(lab, g, w, what, A.where) and good
    result(ck, A, b, e, key, selfp, core)
def result(ck, A, b, e, key, selfp, core):
    """the wrapper hands back the operation's result"""
    F = ck.F
    rt = b["body"]["locals"][0]
    fall = rt[0] == "adt" and rt[1] == RES
    vt = rt[2][0] if fall else rt
    cret = e.extra[1] if e.extra and len(e.extra) > 1 else None
    cfall = cret is not None and cret[0] == "adt" and cret[1] == RES
    x = field0(e.ret, "Ok") if cfall else e.ret
    if selfp and b["body"]["locals"][1][0] == "ref" and b["body"]["locals"][1][1]:
        cls = py_class(F, b["body"]["locals"][1])
        fin = ck.out(A, "self")
        if core in READS: ck.eq(key + "/self", fin, wrap(F, cls, inner(F, cls, sym("self"))) if fin.op == "agg" else sym("self"), "the image is left as it was", A.where)
        else: ck.eq(key + "/self", inner(F, cls, fin), post(0, e.ret), "the image becomes what %s made of it" % core, A.where)
    if vt == ("tuple", ()): want = e.ret if A.ret is e.ret else UNITV
    else:
        cls = py_class(F, vt)
        want = wrap(F, cls, x) if cls else x
    if not fall: ck.eq(key + "/result", A.ret, want, "returns the result of %s" % core, A.where); return
    seen = False
    for leaf, pc in leaves_of(A.ret):
        if leaf.op == "agg" and leaf.args[0] == "adt:" + RES and leaf.args[1] == "Err":
            lits = [q for p in pc for q in lits_of((p,))]
            if not any(fails(q) for q in lits): ck.bad(key + "/error", "raises an exception although nothing failed, under %s" % [show(q)[:80] for q in pc], A.where)
            continue
        seen = True
        if leaf.op == "agg":
            p = swallowed(leaf, [q for p in pc for q in lits_of((p,))])
            if p is not None: ck.bad(key + "/reject", "a name that does not parse is accepted", A.where)
        if leaf.op == "agg" and leaf.args[1] == "Ok" or leaf.op == "call": ck.eq(key + "/result", leaf, Ok_(want), "returns the result of %s" % core, A.where, asm=pc)
        else: ck.eq(key + "/result", leaf, Ok_(want), "returns the result of %s" % core, A.where, asm=pc)
    if not seen: ck.bad(key + "/result", "never returns a value", A.where)
READS = ("width", "height", "has_transparency", "is_grayscale", "is_in_image", "get_pixel_clamped", "get_pixel_optional", "data", "save", "save_with_format")
def core_body(ck, b, core):
    F = ck.F
    cls = py_class(F, b["self"])
    t = F.adt(cls)["variants"][0]["fields"][0][1]
    p = "%s::%s" % (t[1], core)
    c = F.fn(p)
    if c is None:
        for q, x in F.by_path.items():
            if q.startswith("<" + t[1]) and q.endswith("::" + core):
                c = x[0] if isinstance(x, (list, tuple)) else x
                break
    return (F.bodies[c] if isinstance(c, str) else c), t
def fallback(ck, A, b, core, want, vals, dflt, key, why):
    """no such call: the wrapper has to compute the same thing as the operation itself"""
    F = ck.F
    c, t = core_body(ck, b, core)
    if c is None: return ck.unk(key, why + "; the operation itself was not found", A.where)
    if any(is_str(ty) or none for _, _, ty, _, none in want): return ck.bad(key, why, A.where) if not calls_name(ck, A, core) else ck.unk(key, why, A.where)
    selfp = b["params"] and b["params"][0] == "self"
    cls = py_class(F, b["self"])
    n = len(F.adt(cls)["variants"][0]["fields"])
    op = boundary
    w = ck.run(b["path"], body=b, args=vals, opaque=op, budget=400000)
    ca = ([inner(F, cls, sym("self"))] if selfp else []) + [x for _, _, _, x, _ in want]
    env = tuple(("x",) for _ in ()) or None
    g = ck.run(c["path"], body=c, args=dict(enumerate(ca)), opaque=op, budget=400000, env=env_of(c, t))
    if not w or not g or not w.ok or not g.ok: return ck.unk(key, why + "; could not be evaluated", A.where)
    rt = b["body"]["locals"][0]
    if rt[0] == "adt" and rt[1] == RES: return ck.unk(key, why, A.where)
    k2 = py_class(F, rt)
    ck.eq(key + "/result", w.ret, wrap(F, k2, g.ret) if k2 else g.ret, "returns what %s returns (%s)" % (core, why), A.where)
    if selfp and b["body"]["locals"][1][0] == "ref" and b["body"]["locals"][1][1]:
        f1 = ck.out(w, "self"); f2 = ck.out(g, 0)
        ck.eq(key + "/self", inner(F, cls, f1), f2, "changes the value as %s does" % core, A.where)
def calls_name(ck, A, core): return any(e.kind == "call" and e.name.rsplit("::", 1)[-1] == core for e in A.events)
def env_of(c, t):
    """generic arguments of an inherent method taken from its self type"""
    args = [x for x in (t[2] if len(t) > 2 else ())]
    if not c["generics"]: return None
    e = [None] * (max(g[0] for g in c["generics"]) + 1)
    for g in c["generics"]: e[g[0]] = args[g[0]] if g[0] < len(args) else ("param", g[0], g[1])
    return tuple(e)

# C13 ---------------------------------------------------------------------------------------------
COMPS = {"Rgb": "red green blue", "Srgb": "red green blue", "Hsl": "hue saturation lightness", "Hsv": "hue saturation value", "Yuv": "y u v", "Xyz": "x y z"}
ILL, OBS = ("D65", "D50", "E"), (("2", "O2"), ("10", "O10"))
for _i in ILL:
    for _n, _o in OBS: COMPS["Lab%s%s" % (_i, _o)] = "l a b"; COMPS["Lch%s%s" % (_i, _o)] = "l c h"
RGBX = ("is_grayscale invert difference with_gamma with_gamma_opt with_level with_brightness with_saturation stretch_saturation with_gamma_saturation "
        "with_lightness with_hue_rotate with_contrast with_brightness_contrast alpha_blend with_vibrance with_sepia max min modulate").split()
TOS = "rgb srgb hsl hsv yuv xyz".split()
def is_image(n): return n.startswith(IM + "::")
def is_colour(n): return n.startswith("d10_core::color::") or n.startswith("<d10_core::color::")

def calls_python(ck, A, r, func, args, want, key, what):
    """r is the caller's function applied to args, its result extracted, any Python exception passed on"""
    call = [t for t in tm.walk(r) if t.op == "call" and t.args[0].endswith("PyAny::call1")] if r is not None else []
    call = list(dict.fromkeys(call))
    if len(call) != 1: ck.unk(key, "%s: %d calls of the Python function" % (what, len(call)), A.where); return
    c = call[0]
    ck.eq(key + "/function", c.args[2], func, "calls the function it was given", A.where)
    ck.eq(key + "/arguments", c.args[3], tm.mkagg("tuple", "", *args), what, A.where)
    n = 0
    for leaf, pc in leaves_of(r):
        if leaf.op == "agg" and leaf.args[1] == "Err":
            if not any(fails(q) for p in pc for q in lits_of((p,))): ck.bad(key + "/error", "raises although the call succeeded", A.where)
            continue
        n += 1
        ex = [t for t in tm.walk(leaf) if t.op == "call" and t.args[0].endswith("PyAny::extract")]
        ex = list(dict.fromkeys(ex))
        if len(ex) != 1: ck.unk(key + "/result", "%s: result is %s" % (what, show(leaf)[:100]), A.where); continue
        ck.eq(key + "/extracted", ex[0].args[2], field0(c, "Ok"), "the function's result is used", A.where)
        w = want(ex[0])
        if leaf is not ex[0] or w is not None: ck.eq(key + "/result", leaf, w if w is not None else ex[0], "and returned", A.where, asm=pc)
        else: ck.ok(key + "/result", "and returned", A.where)
    if not n: ck.bad(key + "/result", "never returns a value", A.where)
def only(ck, A, key, base, names):
    """the only core operations called"""
    es = [e for e in A.events if e.kind == "call" and base(e.name) and e.name.rsplit("::", 1)[-1] in names]
    if len(es) > 1 and len({e.ret for e in es}) == 1 and es[0].name.rsplit("::", 1)[-1] in READS: es = es[:1]
    if len(es) != 1: ck.bad(key, "%d calls of %s; core operations called: %s" % (len(es), names, sorted({e.name.rsplit("::", 1)[-1] for e in A.events if e.kind == "call" and base(e.name)})[:5]), A.where); return None
    return es[0]

def C13(ck):
    F = ck.F
    img = PYM + "Image"
    if not ck.need("class/Image", F.adt(img) is not None and py_class(F, ("adt", img, ())), "Python image class wraps one core image"): return
    ms = methods(F, img)
    o = opq(F)
    for m in PLAIN + SPECIAL:
        ck.need("method/" + m, m in ms, "Image.%s exists" % m)
    for m in PLAIN:
        if m in ms: forward(ck, ms[m], ALIAS.get(m, m), DEFAULTS.get(m, {}), "Image." + m, is_image, o)
    image_special(ck, ms, o)
    colours(ck, o)
    formats(ck)
    module(ck)
    registration(ck)

def image_special(ck, ms, o):
    F = ck.F
    img, rgb = PYM + "Image", PYC + "Rgb"
    I = lambda x: wrap(F, img, x)
    def run(m, **args):
        if m not in ms: return None
        b = ms[m]
        a = {i: args[n] for i, (n) in enumerate(b["params"]) if n in args}
        return ck.run(b["path"], body=b, args=a, opaque=o)
    def P(m, i): return ms[m]["params"][i]
    slf = sym("self")
    core = inner(F, img, slf)
    # construction
    if "new" in ms and len(ms["new"]["params"]) == 3:
        w, h, c = (sym(x) for x in ms["new"]["params"])
        A = ck.run(ms["new"]["path"], body=ms["new"], args={2: Some(c)}, opaque=o)
        e = only(ck, A, "Image.new/colour", is_image, ("new_with_color", "new")) if A and A.ok else None
        if e:
            for i, (g, x) in enumerate(zip(e.args, (w, h, inner(F, rgb, c)))): ck.eq("Image.new/colour/%d" % i, g, x, "argument %d of new_with_color" % i, A.where)
            ck.eq("Image.new/colour/result", A.ret, I(e.ret), "the new image", A.where); ck.need("Image.new/colour/name", e.name.endswith("new_with_color"), "uses the colour")
        A = ck.run(ms["new"]["path"], body=ms["new"], args={2: NONE}, opaque=o)
        e = only(ck, A, "Image.new/plain", is_image, ("new_with_color", "new")) if A and A.ok else None
        if e:
            for i, (g, x) in enumerate(zip(e.args, (w, h))): ck.eq("Image.new/plain/%d" % i, g, x, "argument %d of new" % i, A.where)
            ck.eq("Image.new/plain/result", A.ret, I(e.ret), "the new image", A.where); ck.need("Image.new/plain/name", e.name.endswith("::new"), "default colour")
    if "from_list" in ms:
        A = run("from_list"); e = only(ck, A, "Image.from_list", is_image, ("new_from_raw",)) if A and A.ok else None
        if e:
            w, h, l = (sym(x) for x in ms["from_list"]["params"])
            ck.eq("Image.from_list/width", e.args[0], w, "width", A.where); ck.eq("Image.from_list/height", e.args[1], h, "height", A.where)
            i = tm.bounded("i", tm.seqlen(l))
            ck.eq("Image.from_list/len", tm.seqlen(e.args[2]), tm.seqlen(l), "one pixel per list element", A.where)
            ck.eq("Image.from_list/pixels", index(e.args[2], i), inner(F, rgb, index(l, i)), "pixel i is list element i", A.where)
            ck.eq("Image.from_list/result", A.ret, I(e.ret), "the new image", A.where)
    if "to_list" in ms:
        A = run("to_list", self=slf); e = only(ck, A, "Image.to_list", is_image, ("data",)) if A and A.ok else None
        if e:
            i = tm.bounded("i", tm.seqlen(e.ret))
            ck.eq("Image.to_list/of", e.args[0], core, "pixels of this image", A.where)
            ck.eq("Image.to_list/len", tm.seqlen(A.ret), tm.seqlen(e.ret), "one element per pixel", A.where)
            ck.eq("Image.to_list/elements", index(A.ret, i), wrap(F, rgb, index(e.ret, i)), "element i is pixel i", A.where)
    if "__len__" in ms:
        A = run("__len__", self=slf); e = only(ck, A, "Image.__len__", is_image, ("data",)) if A and A.ok else None
        if e: ck.eq("Image.__len__", A.ret, Ok_(tm.seqlen(e.ret)), "number of pixels", A.where)
    # files
    if "open" in ms:
        A = run("open"); e = only(ck, A, "Image.open", is_image, ("open",)) if A and A.ok else None
        if e:
            ck.eq("Image.open/path", e.args[0], sym(P("open", 0)), "the caller's path", A.where)
            outcome(ck, A, e, "Image.open", lambda x: I(x))
    if "save" in ms and len(ms["save"]["params"]) == 3:
        p, f = sym(P("save", 1)), sym(P("save", 2))
        for nm, fv, want, args in (("plain", NONE, "save", (p,)), ("format", Some(f), "save_with_format", (p, inner(F, PYM + "EncodingFormat", f)))):
            A = ck.run(ms["save"]["path"], body=ms["save"], args={2: fv}, opaque=o)
            e = only(ck, A, "Image.save/" + nm, is_image, ("save", "save_with_format")) if A and A.ok else None
            if not e: continue
            if not ck.need("Image.save/%s/name" % nm, e.name.endswith("::" + want), "calls Image::%s, found %s" % (want, e.name), A.where): continue
            for i, (g, x) in enumerate(zip(e.args, (core,) + args)): ck.eq("Image.save/%s/%d" % (nm, i), strip_clone(g), x, "argument %d of %s" % (i, want), A.where)
            outcome(ck, A, e, "Image.save/" + nm, lambda x: UNITV)
    # pixels
    def opt_pixel(m, args, conv):
        A = run(m, self=slf)
        e = only(ck, A, "Image." + m, is_image, ("get_pixel_optional",)) if A and A.ok else None
        if not e: return
        for n, g, x in zip("xy", e.args[1:], args): ck.eq("Image.%s/%s" % (m, n), g, x, "%s of the pixel" % n, A.where)
        ck.eq("Image.%s/image" % m, e.args[0], core, "pixel of this image", A.where)
        for leaf, pc in leaves_of(A.ret):
            lits = [q for p in pc for q in lits_of((p,))]
            if any(q.op == "isvar" and q.args[0] is e.ret and q.args[1] == "Some" for q in lits):
                ck.eq("Image.%s/inside" % m, leaf, conv(wrap(F, rgb, field0(e.ret, "Some"))), "the pixel", A.where, asm=pc)
            elif m == "get_pixel": ck.eq("Image.%s/outside" % m, leaf, NONE, "None outside the image", A.where, asm=pc + (not_(isvar(e.ret, "Some")),))
            elif leaf.op == "agg" and leaf.args[1] == "Err": ck.ok("Image.%s/outside" % m, "an exception outside the image", A.where)
            else: ck.unk("Image.%s/outside" % m, "result is %s" % show(leaf)[:100], A.where)
    if "get_pixel" in ms: opt_pixel("get_pixel", (sym(P("get_pixel", 1)), sym(P("get_pixel", 2))), Some)
    if "__getitem__" in ms:
        k = sym(P("__getitem__", 1))
        opt_pixel("__getitem__", (fld(k, 0, ""), fld(k, 1, "")), Ok_)
    if "__setitem__" in ms:
        A = run("__setitem__"); e = only(ck, A, "Image.__setitem__", is_image, ("put_pixel",)) if A and A.ok else None
        if e:
            k, v = sym(P("__setitem__", 1)), sym(P("__setitem__", 2))
            for n, g, x in zip(("image", "x", "y", "colour"), e.args, (core, fld(k, 0, ""), fld(k, 1, ""), inner(F, rgb, v))): ck.eq("Image.__setitem__/" + n, g, x, n, A.where)
            ck.eq("Image.__setitem__/self", inner(F, img, ck.out(A, "self")), post(0, e.ret), "the image is changed", A.where)
    # callbacks
    x, y, c = sym("x"), sym("y"), sym("c")
    for m, inplace, enum in (("mod_colors", 1, 0), ("mod_colors_enumerated", 1, 1), ("map_colors", 0, 0), ("map_colors_enumerated", 0, 1)):
        if m not in ms: continue
        A = run(m) if inplace else run(m, self=slf)
        if not A or not A.ok: continue
        e = only(ck, A, "Image." + m, is_image, (ALIAS[m], m))
        if not e or len(e.args) != 2: continue
        ck.eq("Image.%s/image" % m, e.args[0], core, "of this image", A.where)
        try: r = ctx(A).callv(e.args[1], [x, y, c] if enum else [c], A.st)
        except Exception: r = None
        if r is None: ck.unk("Image.%s/closure" % m, "callback could not be evaluated", A.where); continue
        av = [x, y, wrap(F, rgb, c)] if enum else [wrap(F, rgb, c)]
        calls_python(ck, A, r[0], sym(P(m, 1)), av, lambda ex: Ok_(inner(F, rgb, field0(ex, "Ok"))), "Image.%s/callback" % m, "called with %s" % ("x, y and the colour" if enum else "the colour"))
        if inplace:
            ck.eq("Image.%s/self" % m, inner(F, img, ck.out(A, "self")), post(0, e.ret), "the image is changed", A.where)
            outcome(ck, A, e, "Image." + m, lambda x: UNITV)
        else: outcome(ck, A, e, "Image." + m, lambda x: I(x))
    if "compose" in ms:
        d = sym(P("compose", 2))
        for nm, dv, want in (("default", NONE, None), ("colour", Some(d), inner(F, rgb, d))):
            A = ck.run(ms["compose"]["path"], body=ms["compose"], args={2: dv}, opaque=o)
            e = only(ck, A, "Image.compose/" + nm, is_image, ("try_compose_slice",)) if A and A.ok else None
            if not e: continue
            l, dflt, f = e.args[:3]
            if want is not None: ck.eq("Image.compose/%s/default" % nm, dflt, want, "the default colour is the caller's", A.where)
            else:
                g = dflt.op == "call" and dflt.args[0].endswith("Default::default") or dflt.op == "call" and "Default" in dflt.args[0]
                if g: ck.ok("Image.compose/default/default", "the default colour is Rgb::default()", A.where)
                else: ck.unk("Image.compose/default/default", "default colour is %s" % show(dflt)[:80], A.where)
            its = [t for t in tm.walk(l) if t.op == "sym" and t is sym(P("compose", 0))]
            ck.need("Image.compose/%s/images" % nm, bool(its), "the layers come from the caller's list", A.where)
            nl = sym("layers")
            i = tm.bounded("i", nl)
            at = list(dict.fromkeys(t for t in tm.walk(index(l, i)) if t.op == "index" and any(u is sym(P("compose", 0)) for u in tm.walk(t.args[0]))))
            if at: ck.eq("Image.compose/%s/order" % nm, tm.subst(at[0].args[1], {tm.seqlen(at[0].args[0]): nl}), i, "layer i is element i of the caller's list", A.where)
            else: ck.unk("Image.compose/%s/order" % nm, "layers are %s" % show(l)[:120], A.where)
            cs = sym("cs")
            try: r = ctx(A).callv(f, [x, y, cs], A.st)
            except Exception: r = None
            if r is None: ck.unk("Image.compose/%s/closure" % nm, "callback could not be evaluated", A.where); continue
            ca = list(dict.fromkeys(t for t in tm.walk(r[0]) if t.op == "call" and t.args[0].endswith("PyAny::call1")))
            if len(ca) == 1 and ca[0].args[3].op == "agg" and len(ca[0].args[3].args) == 5:
                a = ca[0].args[3].args[2:]
                ck.eq("Image.compose/%s/x" % nm, a[0], x, "x of the output pixel", A.where); ck.eq("Image.compose/%s/y" % nm, a[1], y, "y of the output pixel", A.where)
                i = tm.bounded("i", tm.seqlen(cs))
                ck.eq("Image.compose/%s/count" % nm, tm.seqlen(a[2]), tm.seqlen(cs), "every layer's colour", A.where)
                ck.eq("Image.compose/%s/colours" % nm, index(a[2], i), wrap(F, rgb, index(cs, i)), "in order", A.where)
                calls_python(ck, A, r[0], sym(P("compose", 1)), a, lambda ex: Ok_(inner(F, rgb, field0(ex, "Ok"))), "Image.compose/%s/callback" % nm, "called with x, y and the colours")
            else: ck.unk("Image.compose/%s/callback" % nm, "%d calls of the Python function" % len(ca), A.where)
            outcome(ck, A, e, "Image.compose/" + nm, lambda x: I(x))
def strip_clone(t):
    while t.op == "call" and t.args[0].endswith("Clone::clone") and len(t.args) == 3: t = t.args[2]
    return t
def outcome(ck, A, e, key, conv):
    """the fallible operation's value is returned and its failure raised"""
    ok, err = 0, 0
    for leaf, pc in leaves_of(A.ret):
        lits = [q for p in pc for q in lits_of((p,))]
        if leaf.op == "agg" and leaf.args[1] == "Err":
            err += 1
            if any(fails(q) for q in lits): ck.ok(key + "/error", "failure is raised", A.where)
            else: ck.bad(key + "/error", "raises an exception although nothing failed", A.where)
        elif leaf is e.ret and conv(field0(e.ret, "Ok")) is UNITV: ok += 1; err += 1; ck.ok(key + "/result", "returned as it is", A.where)
        else:
            ok += 1
            good = any(q.op == "isvar" and q.args[0] is e.ret and q.args[1] == "Ok" for q in lits)
            if not good and leaf.op == "agg": ck.bad(key + "/error", "returns a value although the operation may have failed", A.where); continue
            got = leaf
            want = conv(field0(e.ret, "Ok"))
            if want is UNITV and got.op == "agg" and got.args[1] == "Ok": ck.ok(key + "/result", "returns nothing", A.where); continue
            ck.eq(key + "/result", leaf, Ok_(want), "returns the operation's result", A.where, asm=pc)
    if not ok: ck.bad(key + "/result", "never returns a value", A.where)
    if not err: ck.bad(key + "/error", "a failure of the operation is not raised", A.where)

def colours(ck, o):
    F = ck.F
    for cls, comps in sorted(COMPS.items()):
        path = PYC + cls
        if not ck.need("class/" + cls, F.adt(path) is not None and py_class(F, ("adt", path, ())), "Python class %s wraps one core colour" % cls): continue
        t = F.adt(path)["variants"][0]["fields"][0][1]
        short = t[1].rsplit("::", 1)[-1]
        tail = "".join(x[1].rsplit("::", 1)[-1] for x in (t[2] if len(t) > 2 else ()))
        ck.need("class/%s/type" % cls, short + tail == cls, "%s wraps %s" % (cls, show_t(t)), cls)
        ms = methods(F, path)
        comps = comps.split()
        plan = []
        for c in comps + ["alpha"]: plan += [("get_" + c, c), ("set_" + c, "set_" + c), ("with_" + c, "with_" + c)]
        plan += [("has_transparency",) * 2, ("type_name",) * 2] + [("to_" + x,) * 2 for x in TOS]
        if cls == "Rgb": plan += [(x, x) for x in RGBX]
        for m, core in plan:
            key = "%s.%s" % (cls, m)
            if not ck.need("method/" + key, m in ms, "%s exists" % key): continue
            forward(ck, ms[m], core, {}, key, is_colour, o)
        if ck.need("method/%s.new" % cls, "new" in ms, "constructor exists"):
            b = ms["new"]; ps = [sym(n) for n in b["params"]]
            for nm, v, w in (("alpha", Some(sym("alpha")), sym("alpha")), ("opaque", NONE, C(1.0))):
                A = ck.run(b["path"], body=b, args={3: v}, opaque=o)
                if not A or not A.ok: continue
                e = [e for e in A.events if e.kind == "call" and is_colour(e.name) and e.name.endswith(("::new_with_alpha", "::new"))]
                if len(e) == 1:
                    e = e[0]
                    a = list(e.args) + ([C(1.0)] if e.name.endswith("::new") else [])
                    for i, (g, x) in enumerate(zip(a, ps[:3] + [w])): ck.eq("%s.new/%s/%d" % (cls, nm, i), g, x, "component %d" % i, A.where)
                    ck.eq("%s.new/%s/result" % (cls, nm), A.ret, wrap(F, path, e.ret), "the new colour", A.where)
                else: ck.unk("%s.new/%s" % (cls, nm), "%d constructor calls" % len(e), A.where)
        for m in ("to_lab", "to_lch"):
            if ck.need("method/%s.%s" % (cls, m), m in ms, "conversion exists"): white_points(ck, ms[m], m[3:].capitalize(), m, "%s.%s" % (cls, m), o, path)
        if ck.need("method/%s.map_color_channels" % cls, "map_color_channels" in ms, "exists"):
            b = ms["map_color_channels"]; A = ck.run(b["path"], body=b, args={0: sym("self")}, opaque=o)
            e = only(ck, A, cls + ".map_color_channels", is_colour, ("try_map_color_channels", "map_color_channels")) if A and A.ok else None
            if e:
                ck.eq(cls + ".map_color_channels/of", e.args[0], inner(F, path, sym("self")), "of this colour", A.where)
                v = sym("v")
                try: r = ctx(A).callv(e.args[1], [v], A.st)
                except Exception: r = None
                if r: calls_python(ck, A, r[0], sym(b["params"][1]), [v], lambda ex: None, cls + ".map_color_channels/callback", "called with the component")
                outcome(ck, A, e, cls + ".map_color_channels", lambda x: wrap(F, path, x))
        for m in ("__str__", "__repr__"):
            if not ck.need("method/%s.%s" % (cls, m), m in ms, "exists"): continue
            A = ck.run(ms[m]["path"], body=ms[m], args={0: sym("self")}, opaque=o)
            if not A or not A.ok: continue
            ts = [t for t in tm.walk(A.ret) if t.op == "call" and t.args[0].endswith("::to_string")]
            if ts: ck.eq("%s.%s" % (cls, m), ts[0].args[2], inner(F, path, sym("self")), "text of this colour", A.where)
            else: ck.unk("%s.%s" % (cls, m), "result is %s" % show(A.ret)[:80], A.where)
        if ck.need("method/%s.__richcmp__" % cls, "__richcmp__" in ms, "comparison exists"): richcmp(ck, ms["__richcmp__"], cls, path)
    b = methods(F, PYC + "Rgb").get("to_gray") if F.adt(PYC + "Rgb") else None
    if ck.need("method/Rgb.to_gray", b is not None, "Rgb.to_gray exists"):
        s, i = inner(F, PYC + "Rgb", sym("self")), sym(b["params"][1])
        for nm, v, core in (("plain", NONE, "to_gray"), ("intensity", Some(i), "to_gray_with_intensity")):
            A = ck.run(b["path"], body=b, args={0: sym("self"), 1: v}, opaque=o)
            e = only(ck, A, "Rgb.to_gray/" + nm, is_colour, ("to_gray", "to_gray_with_intensity")) if A and A.ok else None
            if not e: continue
            if nm == "plain" and e.name.endswith("::to_gray_with_intensity"):
                ck.eq("Rgb.to_gray/plain/default", e.args[1], variant(F, enum_path(F, "Intensity"), "Rec709Luma"), "default intensity", A.where)
            elif not ck.need("Rgb.to_gray/%s/name" % nm, e.name.endswith("::" + core), "calls %s" % core, A.where): continue
            ck.eq("Rgb.to_gray/%s/of" % nm, e.args[0], s, "of this colour", A.where)
            if nm == "intensity":
                p = parsed(given(e.args[1]))
                if p is None: ck.unk("Rgb.to_gray/intensity/arg", "intensity is %s" % show(e.args[1])[:80], A.where)
                else: ck.eq("Rgb.to_gray/intensity/arg", p.args[2], i, "the caller's intensity", A.where)
            for leaf, pc in leaves_of(A.ret):
                if leaf.op == "agg" and leaf.args[1] == "Err":
                    if not any(fails(q) for p in pc for q in lits_of((p,))): ck.bad("Rgb.to_gray/%s/error" % nm, "raises although nothing failed", A.where)
                elif swallowed(leaf, [q for p in pc for q in lits_of((p,))]) is not None: ck.bad("Rgb.to_gray/%s/reject" % nm, "a name that does not parse is accepted", A.where)
                else: ck.eq("Rgb.to_gray/%s/result" % nm, leaf, Ok_(wrap(F, PYC + "Rgb", e.ret)), "returns the gray colour", A.where, asm=pc)
def show_t(t):
    s = t[1].rsplit("::", 1)[-1] if t[0] == "adt" else str(t)
    return s + ("<%s>" % ", ".join(show_t(x) for x in t[2]) if t[0] == "adt" and len(t) > 2 and t[2] else "")
def richcmp(ck, b, cls, path):
    F = ck.F
    s = sym("self")
    oi = [i for i, n, t in py_params(b) if t[0] == "adt" and t[1].endswith("CompareOp")]
    if len(oi) != 1: ck.unk(cls + ".__richcmp__", "no comparison operator parameter", b["name"]); return
    ot = b["body"]["locals"][oi[0] + 1]
    other = sym([n for i, n, t in py_params(b) if i != oi[0]][0])
    vs = [v["name"] for v in F.adt(ot[1])["variants"]] if F.adt(ot[1]) else ["Eq", "Ne", "Lt"]
    for v in vs:
        A = ck.run(b["path"], body=b, args={0: s, oi[0]: tm.mkagg("adt:" + ot[1], v)}, opaque=lambda n, k=None: n.endswith("::eq") or n.endswith("::ne"))
        if not A or not A.ok: continue
        es = [e for e in A.events if e.kind == "call" and e.name.rsplit("::", 1)[-1] in ("eq", "ne") and any(a is inner(F, path, s) for a in e.args)]
        key = "%s.__richcmp__/%s" % (cls, v)
        if v == "Eq" or es:
            if len(es) != 1: ck.bad(key, "%d comparisons of the wrapped colours" % len(es), A.where); continue
            e = es[0]
            w = e.name.rsplit("::", 1)[-1]
            ob = [a for a in e.args if a is not inner(F, path, s)]
            ck.need(key + "/other", len(ob) == 1 and any(t is other for t in tm.walk(ob[0])), "compares with the other colour", A.where)
            ip = list(dict.fromkeys(t for t in tm.walk(A.ret) if t.op == "call" and t.args[0].endswith("into_py")))
            pos = [t for t in ip if t.args[2] is e.ret]; neg = [t for t in ip if t.args[2] is not_(e.ret)]
            same = (v == "Eq") == (w == "eq")
            if v not in ("Eq", "Ne"): ck.bad(key, "an ordering answers equality", A.where)
            elif pos and same or neg and not same: ck.ok(key, "equality of the wrapped colours", A.where)
            elif pos or neg: ck.bad(key, "the comparison result is inverted", A.where)
            else: ck.unk(key, "result is %s" % show(A.ret)[:100], A.where)
        else: ck.ok(key, "not implemented", A.where)
def white_points(ck, b, fam, core, key, o, path=None):
    """the class returned for each illuminant and observer"""
    F = ck.F
    names = {n: i for i, n, t in py_params(b)}
    if "illuminant" not in names or "observer" not in names: ck.unk(key, "parameters are %s" % sorted(names), b["name"]); return
    cases = [(i, n, i + ob) for i in ILL for n, ob in OBS] + [(None, n, "D65" + ob) for n, ob in OBS] + [(i, None, i + "O2") for i in ILL] + [(None, None, "D65O2"), ("D75", "2", None), ("D65", "3", None), ("E", "D65", None)]
    for il, ob, want in cases:
        a = {names["illuminant"]: NONE if il is None else Some(C(il)), names["observer"]: NONE if ob is None else Some(C(ob))}
        if path: a[0] = sym("self")
        A = ck.run(b["path"], body=b, args=a, opaque=o)
        if not A or not A.ok: continue
        k = "%s/%s-%s" % (key, il, ob)
        if want is None:
            ck.need(k, A.ret.op == "agg" and A.ret.args[1] == "Err", "an unknown white point is rejected, result %s" % show(A.ret)[:80], A.where); continue
        if A.ret.op == "agg" and A.ret.args[1] == "Err": ck.bad(k, "a supported white point is rejected", A.where); continue
        cl = sorted({t.args[0][len("adt:" + PYC):] for t in tm.walk(A.ret) if t.op == "agg" and t.args[0].startswith("adt:" + PYC)})
        if len(cl) != 1: ck.unk(k, "returns %s" % show(A.ret)[:100], A.where); continue
        ck.need(k, cl[0] == fam + want, "returns %s, expected %s" % (cl[0], fam + want), A.where)
        ag = [t for t in tm.walk(A.ret) if t.op == "agg" and t.args[0].startswith("adt:" + PYC)][0]
        v = ag.args[2]
        if path: ck.need(k + "/conversion", v.op == "call" and v.args[0].endswith("::" + core) and v.args[2] is inner(F, path, sym("self")), "converts this colour: %s" % show(v)[:80], A.where)
        else:
            comps = [sym(n) for i, n, t in py_params(b) if not is_opt(t)]
            if v.op == "call" and v.args[0].endswith("::new_with_alpha"):
                for j, x in enumerate(comps): ck.eq("%s/%d" % (k, j), v.args[2 + j], x, "component %d" % j, A.where)
            else: ck.unk(k + "/value", "value is %s" % show(v)[:80], A.where)

FORMATS = {
    "jpeg": ("Jpeg", {"quality": 85, "progressive": False, "sampling_factor": ("none",), "grayscale": False, "optimize_huffman_tables": True}),
    "png": ("Png", {"color_type": ("PngColorType", "Rgba8"), "compression": ("PngCompression", "Default"), "filter": ("PngFilterType", "Sub")}),
    "gif": ("Gif", {}), "bmp": ("Bmp", {"color_type": ("BmpColorType", "Rgba8")}), "ico": ("Ico", {"color_type": ("IcoColorType", "Rgba8")}),
    "webp": ("WebP", {"quality": 85, "preset": ("WebPPreset", "Default")}),
}
def formats(ck):
    F = ck.F
    cls = PYM + "EncodingFormat"
    if not ck.need("class/EncodingFormat", F.adt(cls) is not None and py_class(F, ("adt", cls, ())), "wraps one core format"): return
    ms = methods(F, cls)
    enc = F.adt(cls)["variants"][0]["fields"][0][1][1]
    vs = {v["name"]: [f[0] for f in v["fields"]] for v in F.adt(enc)["variants"]}
    o = opq(F)
    for m, (v, d) in sorted(FORMATS.items()):
        if not ck.need("method/EncodingFormat." + m, m in ms, "exists"): continue
        b = ms[m]; ps = py_params(b)
        if not ck.need("format/%s/variant" % m, v in vs, "%s is a core format" % v): continue
        for none in [None] + [n for _, n, _ in ps]:
            key = "format/%s%s" % (m, "/no_" + none if none else "")
            A = ck.run(b["path"], body=b, args={i: NONE if n == none else Some(sym(n)) if is_opt(t) else sym(n) for i, n, t in ps}, opaque=o)
            if not A or not A.ok: continue
            n = 0
            for leaf, pc in leaves_of(A.ret):
                if leaf.op == "agg" and leaf.args[1] == "Err":
                    if not any(fails(q) for p in pc for q in lits_of((p,))): ck.bad(key + "/error", "raises although nothing failed", A.where)
                    continue
                x = leaf
                if x.op == "agg" and x.args[1] == "Ok" and x.args[0] == "adt:" + RES: x = x.args[2]
                if x.op != "agg" or x.args[0] != "adt:" + cls or x.args[2].op != "agg": ck.unk(key, "result is %s" % show(leaf)[:100], A.where); continue
                x = x.args[2]; n += 1
                if not ck.need(key + "/kind", x.args[1] == v, "makes %s, expected %s" % (x.args[1], v), A.where): continue
                for i, fn in enumerate(vs[v]):
                    g = x.args[2 + i]
                    p = [q for q in ps if q[1] == fn]
                    if not p: ck.unk("%s/%s" % (key, fn), "no parameter %s" % fn, A.where); continue
                    ty = p[0][2][2][0] if is_opt(p[0][2]) else p[0][2]
                    if fn == none:
                        w = d.get(fn)
                        if w == ("none",): ck.eq("%s/%s" % (key, fn), g, NONE, "%s is absent by default" % fn, A.where, asm=pc)
                        elif w is not None: ck.eq("%s/%s" % (key, fn), g, const_of(F, w), "default of %s" % fn, A.where, asm=pc)
                        continue
                    if is_str(ty):
                        if g.op == "agg" and g.args[1] == "Some": g = g.args[2]
                        if swallowed(g, [q for p in pc for q in lits_of((p,))]) is not None: ck.bad("%s/%s/reject" % (key, fn), "a name that does not parse is accepted", A.where)
                        q = parsed(given(g))
                        if q is None:
                            (ck.unk if any(t is sym(fn) for t in tm.walk(g)) else ck.bad)("%s/%s" % (key, fn), "%s is %s, not the caller's" % (fn, show(g)[:80]), A.where); continue
                        ck.eq("%s/%s" % (key, fn), q.args[2], sym(fn), "%s is the caller's, parsed" % fn, A.where, asm=pc)
                    else: ck.eq("%s/%s" % (key, fn), g, sym(fn), "%s is the caller's" % fn, A.where, asm=pc)
            if not n: ck.bad(key, "never makes a format", A.where)

def module(ck):
    F = ck.F
    b = F.fn("d10_python::d10")
    if ck.need("module", b is not None, "module initialiser exists"):
        added = set()
        mwalk(b["body"]["blocks"], lambda x: added.add(x["args"][0][1].rsplit("::", 1)[-1]) if isinstance(x, dict) and x.get("name") == "add_class" and x.get("args") else None)
        for c in sorted(COMPS) + ["Image", "EncodingFormat"]: ck.need("module/" + c, c in added, "class %s is part of the module" % c, "d10_python::d10")
    for f, fam in (("lab", "Lab"), ("lch", "Lch")):
        b = F.fn("d10_python::d10::" + f)
        if ck.need("module/" + fam, b is not None, "function %s exists" % fam): white_points(ck, b, fam, "new", "module/" + fam, opq(F))
    for b in F.bodies.values():
        if b["kind"] == "const" and b["name"] == "NAME" and b["path"].endswith("PyTypeInfo>::NAME") and b["crate"] == "d10_python":
            s = strs(b["body"]["blocks"])
            c = b["path"][1:].split(" ", 1)[0].rsplit("::", 1)[-1]
            if s: ck.need("name/" + c, s[0] == c, "class %s is visible as %s" % (c, s[0]), b["file"])

def registration(ck):
    """the exported name of every method and property leads to the function of that name, and its
    positional parameters are the function's in order"""
    F = ck.F
    G = callgraph.Graph(F)
    tabs = [b for b in F.bodies.values() if b["crate"] == "d10_python" and b["kind"] == "const" and b["key"].endswith("py_methods::ITEMS")]
    ck.floor("tables of exported methods", len(tabs), 20)
    n = 0
    for b in tabs:
        for kind, name, entry in exports(F, G, b):
            us = user_fns(F, G, entry)
            if not us: continue
            if len(us) > 1: ck.unk("export/%s/%s" % (b["key"], name), "leads to %s" % us[:3], b["file"]); continue
            u = F.bodies[us[0]]
            cls = u["self"][1].rsplit("::", 1)[-1] if u["self"] else "?"
            n += 1
            if kind == "slot":
                continue
            want = u["name"]
            if kind == "getter" and want.startswith("get_"): want = want[4:]
            if kind == "setter" and want.startswith("set_"): want = want[4:]
            ck.need("export/%s.%s/%s" % (cls, name, kind), name == want, "Python %s %s.%s runs %s" % (kind, cls, name, u["name"]), u["file"])
            gen = [k for k in G.reach(entry) if F.bodies[k]["name"] == "__pymethod_%s__" % u["name"] and k.rsplit("::", 1)[0] in entry or F.bodies[k]["name"] == "__pymethod_%s__" % u["name"]]
            for g in gen[:1]:
                d = description(F, g)
                if not d: continue
                ps = [(p, t) for _, p, t in py_params(u)]
                ck.need("signature/%s.%s" % (cls, name), [x for x in d[0]] == [p.lstrip("_") if p not in d[0] else p for p, t in ps] and not d[2], "positional parameters are %s, the function takes %s" % (d[0], [p for p, _ in ps]), u["file"])
                ro = sum(1 for p, t in ps if not is_opt(t))
                if d[1] is not None and d[1] > ro: ck.bad("signature/%s.%s/required" % (cls, name), "%d arguments are required, %d are not optional" % (d[1], ro), u["file"])
    ck.floor("exported methods and properties", n, 500)

RULES = {"C13": (C13, "abstract interpretation of every binding function with the core operations opaque: exactly one call, caller's arguments in order, result returned; export tables matched to functions by call graph")}

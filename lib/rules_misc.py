"""Name tables (C16), effects (C20), sealing / thread safety / unsafe (C23)."""
from fw import *
import term as tm
import models

FS = "as core::str::traits::FromStr>::from_str"
def names(**k): return k
SNAKE = None
NAMES = {
 "Intensity": {"average": "Average", "rec601luma": "Rec601Luma", "rec709luma": "Rec709Luma", "default": "Rec709Luma", "brightness": "Brightness",
               "lightness": "Lightness", "saturation": "Saturation", "red": "Red", "green": "Green", "blue": "Blue"},
 "BmpColorType": {"l8": "L8", "la8": "La8", "rgb8": "Rgb8", "rgba8": "Rgba8"},
 "IcoColorType": {"l8": "L8", "la8": "La8", "rgb8": "Rgb8", "rgba8": "Rgba8"},
 "PngColorType": {"l8": "L8", "la8": "La8", "l16": "L16", "la16": "La16", "rgb8": "Rgb8", "rgba8": "Rgba8", "rgb16": "Rgb16", "rgba16": "Rgba16"},
 "PngFilterType": {"no_filter": "NoFilter", "sub": "Sub", "up": "Up", "avg": "Avg", "paeth": "Paeth"},
 "PngCompression": {"default": "Default", "fast": "Fast", "best": "Best"},
 "JpegSamplingFactor": dict([("%sx%s" % (a, b), "F_%s_%s" % (a, b)) for a, b in ("11", "21", "12", "22", "41", "42", "14", "24")] +
                            [("4:%s:%s" % (a, b), "R_4_%s_%s" % (a, b)) for a, b in ("44", "40", "41", "22", "20", "21", "11", "10")]),
 "WebPPreset": {n.lower(): n for n in ("Default", "Picture", "Photo", "Drawing", "Icon", "Text", "Lossless")},
 "BalanceMode": {"rgb": "Rgb", "srgb": "Srgb", "hsv": "Hsv", "hsl": "Hsl", "lch": "Lch"},
 "BlendOp": {"normal": "Normal", "addition": "Addition", "subtract": "Subtract", "darken": "Darken", "lighten": "Lighten", "hsl_darken": "HslDarken",
             "hsl_lighten": "HslLighten", "lch_darken": "LchDarken", "lch_lighten": "LchLighten", "lch_hue": "LchHue",
             "lch_saturation": "LchSaturation", "lch_color": "LchColor"},
 "DrawingMode": {"gray": "Gray", "colored": "Colored", "default": "Colored", "reduced_colors": "ReducedColors"},
 "EdgeDetection": {"sobel": "Sobel", "default": "Sobel", "laplace": "Laplace"},
 "EqualizeMode": {"rgb": "Rgb", "srgb": "Srgb", "saturation": "Saturation", "lightness": "Lightness", "saturation_lightness": "SaturationLightness"},
 "FilterMode": {"nearest": "Nearest", "bilinear": "Bilinear", "bicubic": "Bicubic", "lanczos3": "Lanczos3", "Lanczos": "Lanczos3", "default": "Auto", "auto": "Auto"},
 "SaturationMode": {"hsl": "Hsl", "default": "Hsl", "hsv": "Hsv", "lch": "Lch"},
}
def variant(F, path, name):
    """constant value of a field-less enum variant"""
    a = F.adt(path)
    if not a: return None
    for v in a["variants"]:
        if v["name"] == name and not v["fields"]: return agg("adt:" + path, name)
    return None
def leaves(t, pc=()):
    if t.op == "ite":
        yield from leaves(t.args[1], pc + (t.args[0],))
        yield from leaves(t.args[2], pc + (not_(t.args[0]),))
    else: yield t, pc
def str_lits(t, out=None, seen=None):
    out = set() if out is None else out; seen = set() if seen is None else seen
    if t.id in seen: return out
    seen.add(t.id)
    if t.op == "c" and t.args[0] == "str": out.add(t.args[1])
    for a in t.args:
        if isinstance(a, Term): str_lits(a, out, seen)
        elif isinstance(a, tuple):
            for x in a:
                if isinstance(x, Term): str_lits(x, out, seen)
    return out
def has_sym(t, s): return any(x is s for x in tm.subterms(t)) if hasattr(tm, "subterms") else True

def C16(ck):
    F = ck.F
    found = {}
    for b in F.bodies.values():
        if b["path"].endswith(FS) and "{closure" not in b["path"]:
            found[b["path"].split(" as ")[0][1:]] = b
    n = 0
    for short, table in sorted(NAMES.items()):
        ps = [p for p in found if p.endswith("::" + short)]
        if not ck.need("anchor/" + short, len(ps) == 1, "%s implements FromStr" % short): continue
        p, b = ps[0], found[ps[0]]
        where = "%s:%s" % (b["file"], b["line"])
        adt = F.adt(p)
        vs = [v["name"] for v in adt["variants"]]
        for v in vs:
            if v not in table.values(): ck.bad("%s/unreachable/%s" % (short, v), "variant %s has no documented name" % v, where)
        val = sym("value")
        A = ck.run(b["path"], body=b, args={0: val})
        if not A or not A.ok: continue
        # every documented name
        for nm, v in sorted(table.items()):
            n += 1
            B = ck.run(b["path"], body=b, args={0: C(nm)})
            if not B or not B.ok: continue
            want = agg("adt:core::result::Result", "Ok", variant(F, p, v)) if variant(F, p, v) else None
            if want is None: ck.bad("%s/%s" % (short, nm), "no variant %s" % v, where); continue
            ck.eq("%s/%s" % (short, nm), B.ret, want, "name %r parses to %s" % (nm, v), where)
        # anything else
        lits = str_lits(A.ret) | set(table)
        probes = set()
        for l in lits: probes |= {l, l.upper(), l.capitalize(), " " + l, l + " ", l + "x", l[:-1], l.replace("_", "-"), l.replace("_", ""), l + "\n"}
        probes |= {"", "0", "none"}
        probes -= set(table)
        for q in sorted(probes):
            B = ck.run(b["path"], body=b, args={0: C(q)})
            if not B or not B.ok: continue
            for leaf, pc in leaves(B.ret):
                if leaf.op == "agg" and leaf.args[1] == "Ok":
                    ck.bad("%s/accepts/%r" % (short, q), "undocumented name %r is accepted as %s" % (q, show(leaf)), where)
                elif leaf.op == "agg" and leaf.args[1] == "Err" and leaf.args[2].op == "agg":
                    if is_c(leaf.args[2].args[2]) and leaf.args[2].args[2] is not C(q): ck.bad("%s/error-value/%r" % (short, q), "rejecting %r reports %s" % (q, show(leaf.args[2].args[2])), where)
                elif not (leaf.op == "agg" and leaf.args[1] == "Err"): ck.unk("%s/probe/%r" % (short, q), show(leaf)[:200], where)
        dflt, asm = A.ret, tuple(not_(eq(val, C(x))) for x in table)
        rest = simp(dflt, asm)
        bad = und = None
        for leaf, pc in leaves(rest):
            if leaf.op == "agg" and leaf.args[1] == "Ok": und = (leaf, pc)
            elif not (leaf.op == "agg" and leaf.args[1] == "Err"): und = (leaf, pc)
            else:
                er = leaf.args[2]
                if er.op == "agg":
                    ck.eq(short + "/error-value", er.args[2], val, "error carries the rejected input", where)
                    nm = er.args[3]
                    ck.eq(short + "/error-enum", nm, C(short), "error names the enum", where)
                else: und = (leaf, pc)
        if und: ck.unk(short + "/rest", "other strings: %s when %s" % (show(und[0])[:100], [show(c)[:80] for c in und[1]]), where)
        else: ck.ok(short + "/rest", "any other string is rejected", where)
        pc = panic_cond(A)
        ck.need(short + "/total", pc is FALSE, "parsing never panics", where)
    ck.floor("names", n, 90)
    # conversions to the codec libraries' enums
    m = 0
    for dst, src in (("png::filter::FilterType", "PngFilterType"), ("png::common::Compression", "PngCompression"), ("jpeg_encoder::encoder::SamplingFactor", "JpegSamplingFactor")):
        bs = [b for b in F.bodies.values() if b["path"].endswith("as core::convert::From>::from") and contains(b["body"]["locals"][1], src)]
        if not ck.need("anchor/From<%s>" % src, len(bs) >= 1, "%s converts to the codec's enum" % src): continue
        b = bs[0]
        p = b["body"]["locals"][1][1]
        for v in F.adt(p)["variants"]:
            B = ck.run(b["path"], body=b, args={0: variant(F, p, v["name"])})
            if not B or not B.ok: continue
            m += 1
            r = B.ret
            want = v["name"]
            got = r.args[1] if r.op == "agg" else None
            if got is None: ck.unk("convert/%s/%s" % (src, want), show(r)[:100]); continue
            ck.need("convert/%s/%s" % (src, want), got == want, "%s::%s maps to %s" % (src, want, got), B.where)
    ck.floor("enum conversions", m, 20)
def contains(t, s):
    if isinstance(t, str): return t.endswith("::" + s)
    return isinstance(t, tuple) and any(contains(x, s) for x in t)

# ---- C23 ---------------------------------------------------------------------
def self_adt(i): return i["self"][1] if i["self"] and i["self"][0] == "adt" else None
def C23(ck):
    F = ck.F
    col = F.traits.get(COLOR)
    if not ck.need("anchor/Color", col is not None, "trait %s exists" % COLOR): return
    # the trait cannot be implemented outside the core crate
    supers = [s for s in col["supers"] if s.startswith("d10_core::")]
    seals = [s for s in supers if s in F.traits and not F.traits[s]["exported"]]
    for s in list(seals):
        for i in F.impl_by_trait.get(s, ()):
            a = self_adt(i)
            if a is None: seals = [x for x in seals if x != s]       # a blanket impl re-opens the trait
            elif F.adts.get(a, {}).get("crate") != "d10_core": ck.bad("sealed/outside/" + a, "%s implemented for %s" % (s, a), "%s:%s" % (i["file"], i["line"]))
    ck.need("sealed/Color", bool(seals), "Color has a supertrait that other crates cannot name and that is only implemented for the core's own types (supertraits: %s)" % (supers,))
    n = 0
    for i in F.impl_by_trait.get(COLOR, ()):
        n += 1
        a = self_adt(i)
        ck.need("impl/%s" % (a or i["self"]), a is not None and F.adts.get(a, {}).get("crate") == "d10_core", "Color is implemented for %s, a type of the core crate" % (a or str(i["self"])[:80]), "%s:%s" % (i["file"], i["line"]))
    ck.floor("color impls", n, 8)
    # auto traits as the compiler sees them
    m = 0
    types = sorted({self_adt(i) for i in F.impl_by_trait.get(COLOR, ()) if self_adt(i)} | {"d10_core::pixelbuffer::PixelBuffer", "d10::image::Image"})
    for a in types:
        t = F.adts.get(a)
        if not ck.need("anchor/" + a, t is not None, a): continue
        m += 1
        ck.need("send/" + a, t.get("send") is True, "%s is Send for every colour parameter" % a, "%s:%s" % (t["file"], t["line"]))
        ck.need("sync/" + a, t.get("sync") is True, "%s is Sync for every colour parameter" % a, "%s:%s" % (t["file"], t["line"]))
        if "PixelBuffer" in a or a.endswith("Image"):
            for v in t["variants"]:
                for f in v["fields"]: ck.need("private/%s.%s" % (a, f[0]), not f[2], "field %s of %s is private" % (f[0], a), "%s:%s" % (t["file"], t["line"]))
    ck.floor("thread-safe types", m, 10)
    for t in ("core::marker::Send", "core::marker::Sync"): ck.need("bound/" + t, t in col["supers"], "Color requires " + t)
    for i in F.impls:
        if i["trait"] in ("core::marker::Send", "core::marker::Sync") and not i["neg"]:
            ck.bad("manual/%s" % (self_adt(i) or i["line"]), "hand-written unsafe impl of %s" % i["trait"], "%s:%s" % (i["file"], i["line"]))
    # no public function hands out the vector behind a buffer mutably
    k = 0
    for b in F.bodies.values():
        if b["crate"] not in ("d10_core", "d10_ops", "d10") or not b.get("reach"): continue
        k += 1
        if mut_vec(b["body"]["locals"][0]): ck.bad("resizable/" + b["path"], "returns a mutable reference to a vector", "%s:%s" % (b["file"], b["line"]))
    ck.floor("public functions", k, 150)
    # unsafe code
    u = 0
    for key, file, line, mac, crate in F.unsafe:
        u += 1
        p = F.bodies[key]["path"] if key in F.bodies else key
        if crate == "d10_python" and mac: continue
        if p.startswith("d10_codecs::webp::"): continue
        ck.bad("unsafe/" + p, "unsafe block outside the WebP binding", "%s:%s" % (file, line))
    ck.counts["unsafe blocks seen"] = u
    ck.ok("unsafe/none", "%d unsafe blocks, all in d10_codecs::webp or in code generated by pyo3" % u)
def mut_vec(t):
    if not isinstance(t, tuple): return False
    if t and t[0] == "ref" and len(t) > 2 and t[1] and isinstance(t[2], tuple) and t[2][:2] == ("adt", "alloc::vec::Vec"): return True
    return any(mut_vec(x) for x in t)
COLOR = "d10_core::color::Color"

# ---- C20 ---------------------------------------------------------------------
EFFECTS = (
 ("randomness", ("rand::", "rand_core::", "rand_distr::", "rand_chacha::", "getrandom::", "std::hash::random", "std::collections::hash::map::RandomState", "fastrand::", "core::hash::random")),
 ("files", ("std::fs", "std::path::Path::exists", "std::path::Path::try_exists", "std::path::Path::is_file", "std::path::Path::is_dir", "std::path::Path::metadata", "std::path::Path::symlink_metadata", "std::path::Path::canonicalize", "std::path::Path::read_", "std::os::unix::fs", "d10_codecs::decode_file", "d10_codecs::encode_to_file")),
 ("console", ("std::io::stdio", "std::io::stdout", "std::io::stderr", "std::io::stdin")),
 ("clock", ("std::time",)),
 ("environment", ("std::env",)),
 ("process", ("std::process", "std::os::unix::process", "libc::")),
 ("network", ("std::net", "std::os::unix::net")),
 ("thread-local or atomic state", ("std::thread::local", "std::thread::LocalKey", "core::sync::atomic", "std::sync::", "core::cell::once", "std::thread::spawn", "std::thread::functions", "std::thread::current")),
 ("address-dependent value", ("core::ptr::const_ptr::<impl *const T>::addr", "core::ptr::const_ptr::<impl *const T>::expose")),
)
def effect(path):
    p = path[1:] if path.startswith("<") else path
    for e, pre in EFFECTS:
        for x in pre:
            if p.startswith(x): return e
    return None
NOISE = ("noise",)
FILES = ("open", "save", "save_with_format", "save_buffer", "decode_file", "encode_to_file")
def C20(ck):
    import callgraph
    F = ck.F
    G = callgraph.Graph(F)
    name = lambda b: b["path"].rsplit("::", 1)[-1]
    base = lambda b: b["path"].split("::{closure")[0]
    allowed = {}
    for k, b in F.bodies.items():
        p = base(b); nm = p.rsplit("::", 1)[-1]
        al = set()
        if b["crate"] in ("d10_ops", "d10") and any(x in nm for x in NOISE): al.add("randomness")
        if b["crate"] in ("d10", "d10_codecs") and nm in FILES: al.add("files")
        if b["crate"] == "d10_commands" and p.startswith("d10_commands::") and "log" in p.lower() and nm != "execute": al.add("console")
        if b["crate"] == "d10_cli": al |= {"console", "environment", "process"}
        allowed[k] = al
    # effects a function performs itself or through callees, an allowed entry point absorbing its own
    n = r = 0
    seen_fx = {}
    for k, b in sorted(F.bodies.items()):
        if b["crate"] not in ("d10_core", "d10_ops", "d10", "d10_codecs", "d10_commands", "d10_python", "d10_cli"): continue
        pub = b.get("reach") or b["crate"] in ("d10_cli", "d10_python")
        if b["crate"] == "d10_python" and ("py_methods::ITEMS" in b["path"] or "__pymethod" in b["path"] or "lazy_type_object" in b["path"]): pub = False
        if not pub or "{closure" in b["path"]: continue
        n += 1
        nb = len(ck.obs)
        par, todo = {k: None}, [(k, frozenset())]
        done = {}
        while todo:
            x, abs_ = todo.pop()
            if x in done and done[x] <= abs_: continue
            done[x] = (done[x] & abs_) if x in done else abs_
            a = abs_ | allowed[x]
            # reading through a caller-supplied path API (python/cli/commands call Image::open etc.)
            for path, line in G.ext.get(x, {}).items():
                e = effect(path)
                if e: seen_fx.setdefault(e, set()).add(base(F.bodies[x]))
                if e and e not in a and not exempt(F, x, path, e):
                    key = "effect/%s/%s/%s" % (e.split()[0], b["path"], path)
                    via = G.path(par, x)
                    ck.bad(key, "%s reaches %s (%s) through %s" % (b["path"], path, e, " -> ".join(via[-4:])), "%s:%s" % (F.bodies[x]["file"], line))
            for y in G.edges.get(x, ()):
                e = effect(F.bodies[y]["path"])
                if y not in par: par[y] = x
                todo.append((y, a))
        if len(ck.obs) == nb: ck.ok("pure/" + b["path"], "%d functions reachable, no undocumented effect" % len(par), "%s:%s" % (b["file"], b["line"]))
    for s in F.statics:
        if s["crate"] == "d10_python" and (is_pyo3(s["ty"])): continue
        ck.need("static/%s" % s["path"], not s["mut"] and s["freeze"], "static %s has no mutable or interior-mutable state" % s["path"], "%s:%s" % (s["file"], s["line"]))
    ck.floor("public functions", n, 400)
    for e in ("randomness", "files", "console"):
        # the entry points that are documented to have the effect still have it
        ck.counts["functions with " + e] = len(seen_fx.get(e, ()))
    ck.floor("effectful functions", sum(len(v) for v in seen_fx.values()), 6)
def exempt(F, k, path, e):
    b = F.bodies[k]
    if b["crate"] == "d10_python" and ("py_methods" in b["path"] or "__pymethod" in b["path"] or "pyo3" in path or "lazy" in b["path"]): return True
    if e == "files" and "OpenOptions" not in path and path.startswith("d10_codecs::"): return True     # local wrappers are analysed themselves
    return False
def is_pyo3(t):
    if isinstance(t, str): return t.startswith("pyo3")
    return isinstance(t, tuple) and any(is_pyo3(x) for x in t)

RULES = {
 "C16": (C16, "Every FromStr of an option enum is evaluated symbolically and for each documented and near-miss name; results are compared with the documented table; codec enum conversions are evaluated for every variant."),
 "C20": (C20, "Call-graph effect analysis: from every public function, every reachable call, closure and static is classified (random, file, console, clock, environment, process, network, global state) and compared with the entry points documented to have that effect.", "interprocedural effect analysis over the MIR call graph"),
 "C23": (C23, "Type-level facts from the compiler: nameability of Color's sealing supertrait, the Send/Sync auto traits of every colour, buffer and image type, field privacy, unsafe blocks in HIR.", "type-system queries (trait nameability, auto traits, unsafe blocks)"),
}

"""Codecs: errors (C03, C04), tables (C05), sample layout (C06, C07), limits (C02, C25), the WebP library (C18)."""
from fw import *
import term as tm, equiv as eqv
from rules_core import buffer, W, H, D, color
from rules_misc import variant, leaves

DC = "d10_codecs::"
RES = "core::result::Result"
IO = "core::io::error::Error"
def enum_of(F, short):
    ps = [p for p, a in F.adts.items() if p.rsplit("::", 1)[-1] == short and a["crate"] == "d10_codecs"]
    return ps[0] if len(ps) == 1 else None
def mk(F, path, vname, vals):
    """enum value with fields by name (missing ones symbolic)"""
    for v in F.adt(path)["variants"]:
        if v["name"] == vname:
            return agg("adt:" + path, vname, *[vals.get(f[0], sym(f[0])) for f in v["fields"]])
    return None
def enc_cases(F):
    """(name, EncodingFormat value) for every format and colour type / preset"""
    E = DC + "EncodingFormat"
    out = []
    for g in (False, True): out.append(("Jpeg/" + ("gray" if g else "rgb"), mk(F, E, "Jpeg", {"grayscale": C(g)})))
    for f, en_ in (("Png", "PngColorType"), ("Bmp", "BmpColorType"), ("Ico", "IcoColorType")):
        p = enum_of(F, en_)
        for v in F.adt(p)["variants"]: out.append(("%s/%s" % (f, v["name"]), mk(F, E, f, {"color_type": variant(F, p, v["name"])})))
    out.append(("Gif", mk(F, E, "Gif", {})))
    p = enum_of(F, "WebPPreset")
    for v in F.adt(p)["variants"]: out.append(("WebP/" + v["name"], mk(F, E, "WebP", {"preset": variant(F, p, v["name"])})))
    return out
def encode(ck, fmt, opaque=None, buf=None):
    return ck.run(DC + "encode", args={1: buf if buf is not None else buffer("b"), 2: fmt}, opaque=opaque)
def fmt_of(name): return lambda n, k: (lambda ret, vals: agg("adt:" + RES, "Ok", agg("adt:" + DC + "Format", name))) if n == DC + "Format::from_reader" else False
FORMATS = ("Jpeg", "Png", "Gif", "Bmp", "Ico", "WebP")

# ---- error paths -----------------------------------------------------------------------
def is_result(ty): return ty and ty[0] == "adt" and ty[1] == RES
def fallible(A):
    return [e for e in A.events if e.kind == "call" and e.extra and is_result(e.extra[1])]
def io_variants(F, ty):
    """variants of an error enum that carry an I/O error"""
    a = F.adt(ty[1]) if ty[0] == "adt" else None
    if not a: return []
    return [v["name"] for v in a["variants"] if v["name"] in ("Io", "IoError") and len(v["fields"]) == 1]
def tree(t, f):
    """the decision tree of a term with f applied to its leaves"""
    memo = {}
    def go(x):
        if x in memo: return memo[x]
        r = ite(x.args[0], go(x.args[1]), go(x.args[2])) if x.op == "ite" else f(x)
        memo[x] = r
        return r
    return go(t)
SIMPLE = ("isvar", "lt0", "eq", "flt0", "feq0", "sym")
def split_pc(pc):
    lits, hard = [], []
    for p in pc:
        for q in (p.args if p.op == "and" else (p,)):
            (lits if (q.args[0] if q.op == "not" else q).op in SIMPLE else hard).append(q)
    return lits, hard
def untrunc(t, asm):
    """drop narrowing casts whose operand fits under asm"""
    m = {}
    for x in tm.walk(t):
        if x.op == "trunc":
            signed, bits = x.args[0][0] == "i", en.BITS[x.args[0]]
            lo, hi = (-(1 << (bits - 1)), 1 << (bits - 1)) if signed else (0, 1 << bits)
            if simp(le(C(lo), x.args[1]), asm) is TRUE and simp(lt(x.args[1], C(hi)), asm) is TRUE: m[x] = x.args[1]
    return tm.subst(t, m) if m else t
def under(ck, key, pc, got, want, what, where="", limit=400):
    """obligation: got equals want whenever pc holds"""
    lits, hard = split_pc(pc)
    h = and_(*hard)
    f = tuple(lits)
    lits = [untrunc(x, f) for x in lits]
    got, want, h = untrunc(got, f), untrunc(want, f), untrunc(h, f)
    return ck.eq(key, ite(h, got, want), want, what, where, asm=tuple(lits), limit=limit)
def error_paths(ck, key, A, own, kinds=True, skip=()):
    """every fallible call of the evaluated function: its failure makes the function fail (with the matching kind)"""
    F, n = ck.F, 0
    other = {"EncodingError": "Encoding", "DecodingError": "Decoding"}[own.rsplit("::", 1)[-1]]
    cnt = {}
    inret = None
    for e in fallible(A):
        if e.name in skip: continue
        short = e.name.rsplit("::", 2)[-2] + "::" + e.name.rsplit("::", 1)[-1]
        cnt[short] = cnt.get(short, 0) + 1
        k = "%s/%s%s" % (key, short, "" if cnt[short] == 1 else "#%d" % cnt[short])
        n += 1
        where = "%s:%s" % (e.fn, e.line)
        ety = e.extra[1][2][1]
        outs = [(e.ret, list(e.pc))]
        if e.loops:
            # the call that ends the loop is the one the result depends on
            if inret is None: inret = [x for x in tm.walk(A.ret) if x.op == "call"]
            syms = set(q for q, hi in e.loops)
            outs = [(x, []) for x in inret if x.args[0] == e.name and not any(z in syms or z.op == "sym" and z.args[0].startswith("%") for z in tm.varset(x))]
            if not outs: ck.bad(k + "/used", "the result of %s is not examined" % e.name, where); continue
        for ret, pc in outs:
            err = down_err(ret)
            fails = pc + [not_(isvar(ret, "Ok"))]
            cases = []
            if ety == ("adt", IO, ()): cases = [("io", [], agg("adt:" + own, "IoError", err))]
            elif ety[0] == "adt" and ety[1] == own: cases = [("same", [], err)]
            else:
                vs = io_variants(F, ety)
                for v in vs: cases.append(("io", [isvar(err, v)], agg("adt:" + own, "IoError", fld(down(err, v), 0))))
                cases.append(("other", [not_(isvar(err, v)) for v in vs], None))
            for nm, more, want in cases:
                if not kinds or want is None:
                    mark = sym("reported")
                    def leaf(x):
                        if x is ret: return mark
                        if x.op == "agg" and x.args[1] == "Err":
                            return mark if not kinds else tree(x.args[2], lambda z: mark if z.op == "agg" and z.args[1] == other else T("wrong", z))
                        return x
                    got, w = tree(A.ret, leaf), mark
                else: got, w = tree(A.ret, lambda x: agg("adt:" + RES, "Err", err) if x is ret else x), agg("adt:" + RES, "Err", want)
                under(ck, "%s/%s" % (k, nm), fails + more, got, w, "failure of %s (%s) is returned as such" % (e.name, nm), where)
    return n
def down_err(t): return fld(down(t, "Err"), 0)

# ---- C04 ------------------------------------------------------------------------------
EE, DE = DC + "errors::EncodingError", DC + "errors::DecodingError"
FR = DC + "Format::from_reader"
def fails_into_panic(ck, key, A):
    """no panic is reached because a fallible call failed"""
    rets = set(e.ret for e in fallible(A))
    first = None
    for e in A.events:
        if e.kind != "panic": continue
        for p in e.pc:
            for q in (p.args if p.op == "and" else (p,)):
                neg = q.op == "not"
                z = q.args[0] if neg else q
                if z.op == "isvar" and z.args[0] in rets and (z.args[1] == "Err") != neg: first = first or e
    if first: ck.bad(key, "a failing library call crashes the program: %s in %s" % (first.name, first.fn), "%s:%s" % (first.fn, first.line))
    else: ck.ok(key, "no library failure leads to a panic", A.where)
def c04(ck):
    F = ck.F
    n = 0
    for nm, f in enc_cases(F):
        A = encode(ck, f)
        if not A or not A.ok: continue
        n += error_paths(ck, "encode/" + nm, A, EE)
        fails_into_panic(ck, "encode/%s/panic" % nm, A)
    for f in FORMATS:
        A = ck.run(DC + "decode_buffer", opaque=fmt_of(f))
        if not A or not A.ok: continue
        n += error_paths(ck, "decode/" + f, A, DE, skip=(FR,))
        fails_into_panic(ck, "decode/%s/panic" % f, A)
    A = ck.run(DC + "decode_buffer", opaque=lambda x, k: x in (FR, DC + "decode"))
    if A and A.ok: n += error_paths(ck, "decode_buffer", A, DE); fails_into_panic(ck, "decode_buffer/panic", A)
    A = ck.run(FR)
    if A and A.ok: n += error_paths(ck, "from_reader", A, DE); fails_into_panic(ck, "from_reader/panic", A)
    A = ck.run(DC + "encode_to_file", opaque=lambda x, k: x in (DC + "encode", DC + "EncodingFormat::from_path"))
    if A and A.ok: n += error_paths(ck, "encode_to_file", A, EE); fails_into_panic(ck, "encode_to_file/panic", A)
    A = ck.run(DC + "decode_file", opaque=lambda x, k: x in (FR, DC + "decode", DC + "Format::from_path"))
    if A and A.ok:
        n += error_paths(ck, "decode_file", A, DE, skip=(FR,)); fails_into_panic(ck, "decode_file/panic", A)
        # a failing probe: only an unknown signature may fall back to the extension
        for e in calls(A, FR):
            err = down_err(e.ret)
            n += 1
            under(ck, "decode_file/probe", list(e.pc) + [not_(isvar(e.ret, "Ok")), isvar(err, "IoError")], A.ret,
                  agg("adt:" + RES, "Err", agg("adt:" + DE, "IoError", fld(down(err, "IoError"), 0))), "an I/O error while probing the format is returned", e.fn)
    webp_slot(ck, True)
    ck.floor("fallible library calls", n, 60)
# ---- C03 ------------------------------------------------------------------------------
LOSSY = ("::BufWriter", "::LineWriter", "png::encoder::Writer", "png::encoder::StreamWriter", "gif::encoder::Encoder")
def lossy_in(ty):
    """writer types inside ty (by value) whose drop discards a write error"""
    out = set()
    def go(t):
        if not isinstance(t, tuple) or not t: return
        if t[0] in ("ref", "ptr"): return
        if t[0] == "adt" and isinstance(t[1], str):
            if any(t[1] == x or x.startswith("::") and t[1].endswith(x) for x in LOSSY): out.add(t[1])
        for x in t[1:]: go(x)
    go(ty)
    return out
def may_succeed(A, pc):
    """can the function still return Ok once pc holds?"""
    lits, hard = split_pc(pc)
    if A.ret is None: return False
    r = simp(A.ret, tuple(lits))
    conds = []
    for l, c in leaves(r):
        if l.op == "agg" and l.args[1] == "Err": continue
        ok = isvar(l, "Ok") if l.op != "agg" else TRUE
        m = equiv(and_(*hard, *c, ok), FALSE, tuple(lits), 400)
        if m: return True
    return False
def writers(ck, key, A):
    """no writer with pending data or trailer is dropped, or consumed, unobserved on a path that reports success"""
    n = 0
    for i, e in enumerate(x for x in A.events if x.kind == "drop" and lossy_in(x.extra)):
        n += 1
        names = ", ".join(sorted(x.rsplit("::", 2)[-2] + "::" + x.rsplit("::", 1)[-1] for x in lossy_in(e.extra)))
        where = "%s:%s" % (e.fn, e.line)
        k = "%s/drop#%d" % (key, i + 1)
        badpc = None
        v = e.args[0] if e.args else None
        for l, c in (leaves(v) if v is not None else [(None, ())]):
            if l is not None and l.op == "post" and l.args[1].op == "call" and l.args[1].args[0].endswith("::flush"): continue
            if may_succeed(A, list(e.pc) + list(c)): badpc = c
        if badpc is None: ck.ok(k, "%s is flushed, finished or on a failing path when dropped" % names, where)
        else: ck.bad(k, "%s is dropped with unwritten data while the function reports success" % names, where)
    for e in A.events:
        if e.kind != "call" or not e.extra: continue
        where = "%s:%s" % (e.fn, e.line)
        if e.name.endswith("Write::write") or e.name.endswith("Write::write_vectored"):
            n += 1; ck.bad("%s/partial" % key, "a partial write (%s) is used to write file data" % e.name, where)
        for t in e.extra[0] or ():
            ls = lossy_in(t)
            if not ls: continue
            n += 1
            gone = ls - lossy_in(e.extra[1])
            last = e.name.rsplit("::", 1)[-1]
            fin = last in ("finish", "into_inner") and t[0] == "adt" and gone == {t[1]} and is_result(e.extra[1])
            k = "%s/%s" % (key, "::".join(e.name.rsplit("::", 2)[-2:]))
            if not gone or fin: ck.ok(k, "%s keeps or finishes the writer" % last, where)
            elif may_succeed(A, list(e.pc)): ck.bad(k, "%s consumes %s, whose pending data may be lost unnoticed" % (last, sorted(gone)), where)
    return n
def callback(ck):
    """the WebP writer callback: (evaluation, final error slot values under a failed write, index of slot) or None"""
    A = encode(ck, dict(enc_cases(ck.F))["WebP/Default"])
    if not A or not A.ok: return None
    es = [e for e in A.events if e.kind == "call" and e.name.endswith("::WebPEncode")]
    if not ck.need("webp/encode-call", bool(es), "libwebp's WebPEncode is called", A.where): return None
    e = es[0]
    pic = e.args[1]
    a = ck.F.adt(pic.args[0][4:]) if pic.op == "agg" else None
    if not a: ck.unk("webp/picture", "the picture passed to WebPEncode is not tracked", e.fn); return None
    fields = [f[0] for f in a["variants"][0]["fields"]]
    w = pic.args[2 + fields.index("writer")]
    if w.op == "agg" and w.args[1] == "Some" and w.args[2].op == "fn": fn = w.args[2].args[0]
    else: ck.bad("webp/writer", "the picture has no writer function", e.fn) if w.op == "agg" else ck.unk("webp/writer", "writer function not tracked", e.fn); return None
    B = ck.run(fn)
    if not B or not B.ok: return None
    return A, e, pic, fields, B
def webp_slot(ck, io_kind):
    """obligations of the callback: a failed write makes libwebp fail, and is remembered"""
    c = callback(ck)
    if not c: return
    A, e, pic, fields, B = c
    n = 0
    for x in fallible(B):
        n += 1
        fails = list(x.pc) + [not_(isvar(x.ret, "Ok"))]
        where = "%s:%s" % (x.fn, x.line)
        err = down_err(x.ret)
        if not io_kind:
            under(ck, "webp/callback/fail#%d" % n, fails, B.ret, ZERO, "a failed write makes the callback return 0", where)
            under(ck, "webp/callback/ok#%d" % n, list(x.pc) + [isvar(x.ret, "Ok")], eq(B.ret, ZERO), FALSE, "a completed write makes the callback return nonzero", where)
            data = x.args[1] if len(x.args) > 1 else None
            if data is not None and x.name.endswith("write_all"):
                ck.eq("webp/callback/data#%d" % n, data, T("call", "core::slice::raw::from_raw_parts", data.args[1] if data.op == "call" else (), B.p[0], B.p[1]), "the callback writes exactly the data it was given", where)
        else:
            outs = [v for k, v in B.st.store.items() if k[0] == "D" and isinstance(k[1], Term) and k[1].op == "fld" and k[1].args[0] is B.p[2]]
            want = agg("adt:core::option::Option", "Some", err)
            good = None
            lits, hard = split_pc(fails)
            for o in outs:
                o = simp(o, tuple(fails))
                if o.op == "agg":
                    for j, f in enumerate(o.args[2:]):
                        if f is want: good = (o.args[0], j)
            if not good: ck.bad("webp/callback/slot", "the callback does not store the error of a failed write", where); continue
            ck.ok("webp/callback/slot", "a failed write is stored in the error slot", where)
            adt = ck.F.adt(good[0][4:])
            fname = (adt["variants"][0]["fields"][good[1]][0], good[1])
            sl = [v for v in tm.walk(A.ret) if v.op == "fld" and v.args[0].op == "post" and v.args[0].args[1] is e.ret and v.args[1] in fname]
            if not sl: ck.bad("webp/slot", "the stored write error is never read after WebPEncode", "%s:%s" % (e.fn, e.line)); continue
            s0 = sl[0]
            under(ck, "webp/slot", opq_(e.pc) + [OPQ(isvar(s0, "Some"))], OPQ(A.ret), OPQ(agg("adt:" + RES, "Err", agg("adt:" + EE, "IoError", fld(down(s0, "Some"), 0)))),
                  "a stored write error is returned", "%s:%s" % (e.fn, e.line))
    if not n: ck.bad("webp/callback", "the WebP writer callback performs no checked write", B.where)
    else:
        under(ck, "webp/status", opq_(e.pc) + [OPQ(eq(e.ret, ZERO))], OPQ(isvar(A.ret, "Ok")), FALSE, "a failing WebPEncode makes encoding fail", "%s:%s" % (e.fn, e.line))
def c03(ck):
    F = ck.F
    n = m = 0
    for nm, f in enc_cases(F):
        A = encode(ck, f)
        if not A or not A.ok: continue
        n += error_paths(ck, "encode/" + nm, A, EE, kinds=False)
        m += writers(ck, "encode/" + nm, A)
    A = ck.run(DC + "encode_to_file", opaque=lambda x, k: x in (DC + "encode", DC + "EncodingFormat::from_path"))
    if A and A.ok:
        n += error_paths(ck, "encode_to_file", A, EE, kinds=False)
        m += writers(ck, "encode_to_file", A)
        # the image reaches the file
        es = calls(A, DC + "encode")
        ck.need("encode_to_file/encodes", bool(es), "the image is encoded", A.where)
    webp_slot(ck, False)
    # every function of the workspace that owns such a writer was analysed
    for b in F.bodies.values() if isinstance(F.bodies, dict) else F.bodies:
        if b["crate"] == "d10_codecs" and any(lossy_in(t) for t in b["body"]["locals"]):
            ck.need("covered/" + b["path"], b["path"] in ck.fns or b["path"].split("::{")[0] in ck.fns, "owner of a buffering writer is analysed", "%s:%s" % (b["file"], b["line"]))
        elif b["crate"] != "d10_codecs" and any(lossy_in(t) for t in b["body"]["locals"]):
            B = ck.run(b["path"], body=b, opaque=lambda x, k: True)
            if B and B.ok: m += writers(ck, b["path"], B)
    ck.floor("fallible writing calls", n, 40)
    ck.floor("owned writers", m, 15)
# ---- C05 ------------------------------------------------------------------------------
LIBS = {"Jpeg": ("jpeg_decoder::", "jpeg_encoder::"), "Png": ("png::",), "Gif": ("gif::",), "Bmp": ("image::codecs::bmp::",), "Ico": ("image::codecs::ico::",), "WebP": ("libwebp_sys::",)}
EXTS = {"jpg": "Jpeg", "jpeg": "Jpeg", "png": "Png", "gif": "Gif", "bmp": "Bmp", "ico": "Ico", "webp": "WebP"}
R = b"RIFF"; 
SIGS = (("Jpeg", {0: 0xff, 1: 0xd8, 2: 0xff}), ("Png", dict(enumerate(b"\x89PNG\r\n\x1a\n"))), ("Gif", dict(enumerate(b"GIF87a"))), ("Gif", dict(enumerate(b"GIF89a"))),
        ("Bmp", dict(enumerate(b"BM"))), ("Ico", {0: 0, 1: 0, 2: 1, 3: 0}), ("WebP", {**dict(enumerate(b"RIFF")), **{8 + i: x for i, x in enumerate(b"WEBP")}}))
def families(A):
    return sorted(set(f for e in A.events if e.kind == "call" for f, ps in LIBS.items() if e.name.startswith(ps)))
def fmtv(name): return agg("adt:" + DC + "Format", name)
def some(x): return agg("adt:core::option::Option", "Some", x)
NONE = agg("adt:core::option::Option", "None")
def ext_is(x):
    """summaries: the path has extension x (None: no extension)"""
    e = NONE if x is None else some(C(x))
    def f(n, k):
        if n == "std::path::Path::extension": return lambda ret, vals: e
        if n.endswith("OsStr::to_string_lossy"): return lambda ret, vals: vals[0]
        if n.endswith("OsStr::to_str"): return lambda ret, vals: some(vals[0])
        return False
    return f
def stuckpc(t):
    """does a case of t depend on a pure library function without a model?"""
    return any(z.op == "call" and eqv.pure_std(z.args[0]) for l, c in leaves(t) for q in c for z in tm.walk(q))
def only(t, x):
    """every leaf of t is x / t is stuck: None"""
    ls = [l for l, c in leaves(t)]
    if all(l is x for l in ls): return True
    if stuckpc(t): return None
    return False if any(l is not x and not any(z.op in ("call", "post") for z in tm.walk(l)) for l in ls) else None
def c05(ck):
    F = ck.F
    n = 0
    # extensions
    tests = []
    for x, f in EXTS.items(): tests += [(x, f), (x.upper(), f), (x.capitalize(), f), (x[:-1] + x[-1].upper(), f)]
    A0 = ck.run(DC + "Format::from_path")
    if not A0 or not A0.ok: return
    lits = set(EXTS)
    for y in tm.walk(A0.ret):
        if y.op == "c" and y.args[0] == "str": lits.add(y.args[1])
    for x in sorted(lits - set(EXTS)): ck.unk("ext/literal/" + x, "extension %r is compared but not in the confirmed table" % x, A0.where)
    tests += [(x, None) for x in (None, "", "jp", "jpgx", "pn", "pngg", "gi", "bm", "icon", "web", "webpx", "tiff", "xjpg", "exe", ".png", " png", "p\u0146g")]
    for x, f in tests:
        if x in lits and f is None: continue
        k = "ext/%s" % x
        A = ck.run(DC + "Format::from_path", opaque=ext_is(x))
        B = ck.run(DC + "EncodingFormat::from_path", opaque=ext_is(x))
        if not A or not A.ok or not B or not B.ok: continue
        n += 2
        want = some(fmtv(f)) if f else NONE
        r = only(A.ret, want)
        if r is None: ck.unk(k, "stuck: %s" % show(A.ret)[:150], A.where)
        else: ck.need(k, r, "extension %r is recognised as %s" % (x, f), A.where)
        ls = [l for l, c in leaves(B.ret)]
        if stuckpc(B.ret) or any(z.op == "call" for l in ls if l.op != "agg" for z in tm.walk(l)): ck.unk(k + "/enc", "stuck: %s" % show(B.ret)[:150], B.where)
        elif f: ck.need(k + "/enc", all(l.op == "agg" and l.args[1] == "Ok" and l.args[2].op == "agg" and l.args[2].args[1] == f for l in ls), "extension %r selects the %s encoder" % (x, f), B.where)
        else: ck.need(k + "/enc", all(l.op == "agg" and l.args[1] == "Err" and l.args[2].op == "agg" and l.args[2].args[1] == "BadFileExtension" for l in ls), "extension %r is refused" % x, B.where)
        if f and x == x.lower():
            D_ = ck.run(DC + "EncodingFormat::%s_default" % f.lower())
            if D_ and D_.ok and B.ret.op == "agg" and B.ret.args[1] == "Ok":
                ck.eq(k + "/default", B.ret.args[2], D_.ret, "the encoder selected by extension %r has the default settings" % x, B.where); n += 1
    # constructors, reported format, libraries
    E = DC + "EncodingFormat"
    for f in FORMATS:
        D_ = ck.run(E + "::%s_default" % f.lower())
        if D_ and D_.ok: n += 1; ck.need("default/" + f, D_.ret.op == "agg" and D_.ret.args[1] == f, "%s_default is a %s encoder" % (f.lower(), f), D_.where)
        A = ck.run(E + "::format", args={0: mk(F, E, f, {})})
        if A and A.ok: n += 1; ck.eq("format/" + f, A.ret, fmtv(f), "%s settings report format %s" % (f, f), A.where)
        A = ck.run(DC + "decode_buffer", opaque=fmt_of(f))
        if A and A.ok:
            n += 1
            fam = families(A)
            if not fam: ck.unk("decode/" + f, "no codec library call seen", A.where)
            else: ck.need("decode/" + f, fam == [f], "%s content is decoded by the %s library (%s)" % (f, f, fam), A.where)
    qs = sym("quality")
    for fn, v in (("jpeg_with_quality", "Jpeg"), ("webp_with_quality", "WebP"), ("webp_with_preset", "WebP")):
        A = ck.run(E + "::" + fn)
        if not A or not A.ok: continue
        n += 1
        fs = [f[0] for x in F.adt(E)["variants"] if x["name"] == v for f in x["fields"]]
        ck.need(fn + "/variant", A.ret.op == "agg" and A.ret.args[1] == v, "%s builds %s settings" % (fn, v), A.where)
        if A.ret.op != "agg" or A.ret.args[1] != v: continue
        D_ = ck.run(E + "::%s_default" % v.lower())
        given = {"quality": A.p[0]}
        if fn == "webp_with_preset": given["preset"] = A.p[1]
        for i, f in enumerate(fs):
            want = given.get(f)
            if want is None and D_ and D_.ok and D_.ret.op == "agg" and D_.ret.args[1] == v: want = D_.ret.args[2 + i]
            if want is not None: ck.eq("%s/%s" % (fn, f), A.ret.args[2 + i], want, "%s keeps %s" % (fn, f), A.where); n += 1
    for nm, f in enc_cases(F):
        A = encode(ck, f)
        if not A or not A.ok: continue
        n += 1
        fam = families(A)
        if not fam: ck.unk("encode/" + nm, "no codec library call seen", A.where)
        else: ck.need("encode/" + nm, fam == [nm.split("/")[0]], "%s is written by its own library (%s)" % (nm, fam), A.where)
    # signatures
    A = ck.run(FR)
    if A and A.ok: n += signatures(ck, A)
    # opening a file: content first, then extension
    for f in FORMATS:
        for g in (None,) + FORMATS:
            for hit in (True, False):
                if hit and g == f: continue
                if not hit and f != FORMATS[0]: continue
                probe = agg("adt:" + RES, "Ok", fmtv(f)) if hit else agg("adt:" + RES, "Err", agg("adt:" + DE, "UnknownFormat"))
                byext = some(fmtv(g)) if g else NONE
                def op(x, k):
                    if x == FR: return lambda ret, vals: probe
                    if x == DC + "Format::from_path": return lambda ret, vals: byext
                    return False
                if f != FORMATS[0] and g not in (None, FORMATS[0]): continue
                A = ck.run(DC + "decode_file", opaque=op)
                if not A or not A.ok: continue
                n += 1
                k = "open/%s-%s" % (f if hit else "unknown", g)
                want = f if hit else g
                fam = families(A)
                if want: ck.need(k, fam == [want], "content %s with extension %s is decoded as %s (libraries: %s)" % (f if hit else "unknown", g, want, fam), A.where)
                else: under(ck, k, [isvar(e.ret, "Ok") for e in calls(A, "std::fs::File::open")], A.ret, agg("adt:" + RES, "Err", agg("adt:" + DE, "UnknownFormat")), "unknown content and extension is reported", A.where)
    # an explicit format, or the extension's, is what gets written
    for g, ok in ((None, True), (sym("given"), True)):
        A = ck.run(DC + "encode_to_file", args={2: NONE if g is None else some(g)}, opaque=lambda x, k: x in (DC + "encode", E + "::from_path"))
        if not A or not A.ok: continue
        for e in calls(A, DC + "encode"):
            n += 1
            fp = calls(A, E + "::from_path")
            want = g if g is not None else (fld(down(fp[0].ret, "Ok"), 0) if fp else sym("?"))
            ck.eq("save/%s/format" % ("given" if g is not None else "extension"), e.args[2], want, "the requested format is used", A.where)
            ck.eq("save/%s/image" % ("given" if g is not None else "extension"), e.args[1], A.p[1], "the given image is written", A.where)
    ck.floor("table entries", n, 120)
def signatures(ck, A):
    n = 0
    reads = [e for e in A.events if e.kind == "call" and e.name.rsplit("::", 1)[-1] == "read"]
    if len(reads) != 1: ck.unk("sig", "the header is not read by a single read call", A.where); return 0
    rd = reads[0]
    arr, ln = T("post", 1, rd.ret), fld(down(rd.ret, "Ok"), 0)
    okr = [isvar(e.ret, "Ok") for e in fallible(A)]
    size = seqlen(rd.args[1])
    base = [le(ln, size), le(ZERO, ln)]
    def lits(sig): return [le(C(max(sig) + 1), ln)] + [eq(index(arr, C(k)), C(v)) for k, v in sorted(sig.items())]
    for i, (f, sig) in enumerate(SIGS):
        n += 1
        k = "sig/%s%s" % (f, "" if f != "Gif" else "/%d" % i)
        ck.eq(k, A.ret, agg("adt:" + RES, "Ok", fmtv(f)), "contents starting with the %s signature are %s" % (f, f), A.where, asm=tuple(okr + base + lits(sig)), limit=4000)
    for l, c in leaves(simp(A.ret, tuple(okr + base))):
        if l.op != "agg": ck.unk("sig/none", "stuck %s" % show(l)[:80], A.where); continue
        if l.args[1] == "Ok":
            n += 1
            f = l.args[2].args[1] if l.args[2].op == "agg" else None
            good = False
            ls_, hd_ = split_pc(c)
            asm = tuple(okr + base + ls_)
            for g, sig in SIGS:
                if g == f and all(simp(x, asm) is TRUE for x in lits(sig)): good = True
            if good: ck.ok("sig/only/%s#%d" % (f, n), "%s is reported only for its signature" % f, A.where)
            else:
                m = equiv(and_(*hd_, not_(or_(*[and_(*lits(sig)) for g, sig in SIGS if g == f]))), FALSE, asm, 2000)
                if not m: ck.ok("sig/only/%s#%d" % (f, n), "%s is reported only for its signature" % f, A.where)
                elif any(x.sure for x in m): ck.bad("sig/only/%s#%d" % (f, n), "%s is reported for contents without its signature: %r" % (f, m[0]), A.where)
                else: ck.unk("sig/only/%s#%d" % (f, n), "%r" % m[0], A.where)
    # the reader is back at the start
    o = ck.out(A, 0)
    for l, c in leaves(simp(o, tuple(okr))):
        n += 1
        good = l.op == "post" and l.args[0] == 0 and l.args[1].op == "call" and (
            l.args[1].args[0].endswith("Seek::rewind") or l.args[1].args[0].endswith("Seek::seek") and l.args[1].args[-1] is agg("adt:core::io::seek::SeekFrom", "Start", ZERO))
        if not good and l.op != "post": ck.unk("sig/rewind", "stuck %s" % show(l)[:80], A.where)
        else: ck.need("sig/rewind", good, "detection leaves the reader at its start", A.where)
    return n
# ---- C06 ------------------------------------------------------------------------------
def declared(lib, v):
    """(channels, bits) a library colour type denotes"""
    n = v.args[1] if v is not None and v.op == "agg" else None
    return {"png": {"Grayscale": "l", "GrayscaleAlpha": "la", "Rgb": "rgb", "Rgba": "rgba"},
            "jpeg": {"Luma": ("l", 8), "Rgb": ("rgb", 8), "Rgba": ("rgba", 8), "Bgr": ("bgr", 8), "Bgra": ("bgra", 8)},
            "image": {"L8": ("l", 8), "La8": ("la", 8), "Rgb8": ("rgb", 8), "Rgba8": ("rgba", 8), "L16": ("l", 16), "La16": ("la", 16), "Rgb16": ("rgb", 16), "Rgba16": ("rgba", 16)}}[lib].get(n)
def chains(v):
    """the calls that built receiver v, newest first, one list per fork"""
    out = []
    def go(x, acc, pc):
        while True:
            if x.op == "ite":
                go(x.args[1], list(acc), pc + [x.args[0]]); go(x.args[2], acc, pc + [not_(x.args[0])]); return
            c = x.args[1] if x.op == "post" and x.args[0] == 0 else x
            if c.op != "call": break
            acc.append(c)
            if c is x or len(c.args) < 3: break
            x = c.args[2]
        out.append((acc, pc))
    go(v, [], [])
    return out
def last_of(c): return c.args[0].rsplit("::", 1)[-1]
def setting(acc, name):
    for c in acc:
        if last_of(c) == name: return c.args[-1]
    return None
def requested(nm):
    """(channels, bits) of an encode case"""
    f, _, t = nm.partition("/")
    if f == "Jpeg": return ("l", 8) if t == "gray" else ("rgb", 8)
    if f == "Gif": return "rgba", 8
    if f == "WebP": return "argb", 8
    for p, m in (("Rgba", "rgba"), ("Rgb", "rgb"), ("La", "la"), ("L", "l")):
        if t.startswith(p): return m, int(t[len(p):])
def channel_spec(ck, color, ch):
    """sRGB channel values (0..1) of a linear Rgb colour for a channel string"""
    from rules_color import convert
    key = (color, ch)
    gray = "l" in ch
    v = color
    if gray:
        A = ck.run("d10_core::color::rgb::Rgb::to_gray", args={0: v})
        if not A or not A.ok: return None
        v = A.ret
    A = convert(ck, "rgb::Rgb", "to_srgb", v)
    if not A or not A.ok: return None
    names = "rgba"
    from rules_core import chan
    return [chan(ck.F, "srgb::Srgb", A.ret, 0 if c == "l" else names.index(c)) for c in ch]
def samples(ck, key, data, ch, bits, where, b):
    """the written data holds exactly the declared samples of every pixel, in order"""
    n = mul(W(b), H(b))
    i = tm.bounded("i", n)
    spec = channel_spec(ck, index(D(b), i), ch)
    if spec is None: return
    per = len(ch) * bits // 8
    ck.eq(key + "/length", seqlen(data), mul(n, C(per)), "%d bytes per pixel" % per, where)
    k = 0
    for c, v in zip(ch, spec):
        s = quant(v, bits)
        for j in range(bits // 8):
            want = s if bits == 8 else T("byte", j, 2, s)
            ck.eq("%s/%s%s" % (key, c, "" if bits == 8 else j), index(data, add(mul(C(per), i), C(k))), want, "byte %d of every pixel is the %s sample%s" % (k, c, "" if bits == 8 else " (big endian byte %d)" % j), where)
            k += 1
def quant(v, bits):
    m = C({8: 255.0, 16: 65535.0}[bits])
    return T("f2i", "u%d" % bits, tm.fmin(m, tm.fmax(C(0.0), tm.fmul(m, v))))
def words(t):
    """{byte term: multiplier} of an integer assembled from bytes by |, +, << or from_be_bytes"""
    from term import to_poly
    out = {}
    def go(x, k):
        if x.op == "bin" and x.args[0] in ("BitOr", "BitXor", "Add"):
            go(x.args[1], k); go(x.args[2], k); return
        if x.op == "bin" and x.args[0] == "Shl" and is_c(x.args[2]): go(x.args[1], k * 2 ** int(cval(x.args[2]))); return
        if x.op == "poly":
            for m, c in to_poly(x).items():
                if len(m) == 1: go(m[0], k * c)
                else: out[m] = c * k
            return
        out[x] = out.get(x, 0) + k
    go(t, 1)
    return out
def c06(ck):
    F = ck.F
    b = buffer("b")
    n = 0
    small = [lt(W(b), C(65536)), lt(H(b), C(65536)), le(ZERO, W(b)), le(ZERO, H(b))]
    for nm, f in enc_cases(F):
        A = encode(ck, f)
        if not A or not A.ok: continue
        want = requested(nm)
        fm = nm.split("/")[0]
        key = "encode/" + nm
        n0 = n
        for e in A.events:
            if e.kind != "call": continue
            where = "%s:%s" % (e.fn, e.line)
            last = e.name.rsplit("::", 1)[-1]
            if fm == "Png" and last == "write_header":
                for acc, pc in chains(e.args[0]):
                    n += 1
                    new = acc[-1] if acc else None
                    if new is None or not new.args[0].endswith("Encoder::new"): ck.unk(key + "/header", "encoder construction not tracked", where); continue
                    ck.eq(key + "/width", new.args[3], W(b), "declared width is the image's", where)
                    ck.eq(key + "/height", new.args[4], H(b), "declared height is the image's", where)
                    col, dep = setting(acc, "set_color"), setting(acc, "set_depth")
                    bits = {"Eight": 8, "Sixteen": 16}.get(dep.args[1]) if dep is not None and dep.op == "agg" else (8 if dep is None else None)
                    decl = (declared("png", col) if col is not None else "l", bits)
                    ck.need(key + "/declared", decl == want, "header declares %s, colour type is %s" % (decl, want), where)
            elif fm == "Png" and last == "write_image_data": n += 1; samples(ck, key, e.args[1], want[0], want[1], where, b)
            elif fm == "Jpeg" and e.name.startswith("jpeg_encoder::") and last == "encode":
                n += 1
                under(ck, key + "/width", list(e.pc) + small, e.args[2], W(b), "declared width is the image's", where)
                under(ck, key + "/height", list(e.pc) + small, e.args[3], H(b), "declared height is the image's", where)
                ck.need(key + "/declared", declared("jpeg", e.args[4]) == want, "header declares %s, colour type is %s" % (declared("jpeg", e.args[4]), want), where)
                samples(ck, key, e.args[1], want[0], want[1], where, b)
            elif fm in ("Bmp", "Ico") and last in ("encode", "write_image") and e.name.startswith("image::"):
                n += 1
                ck.eq(key + "/width", e.args[2], W(b), "declared width is the image's", where)
                ck.eq(key + "/height", e.args[3], H(b), "declared height is the image's", where)
                ck.need(key + "/declared", declared("image", e.args[4]) == want, "header declares %s, colour type is %s" % (declared("image", e.args[4]), want), where)
                samples(ck, key, e.args[1], want[0], want[1], where, b)
            elif fm == "Gif" and last == "from_rgba_speed":
                n += 1
                under(ck, key + "/width", list(e.pc) + small, e.args[0], W(b), "frame width is the image's", where)
                under(ck, key + "/height", list(e.pc) + small, e.args[1], H(b), "frame height is the image's", where)
                samples(ck, key, e.args[2], want[0], want[1], where, b)
                frame = e.ret
                for g in A.events:
                    if g.kind == "call" and g.name == "gif::encoder::Encoder::new":
                        for j, dim, nmd in ((1, W(b), "width"), (2, H(b), "height")):
                            v = g.args[j]
                            if v.op == "fld" and v.args[0] is frame:      # the frame has the dimensions it was built with
                                sfx = show(v).rsplit(".", 1)[-1]
                                if sfx in ("width", "height"): v = e.args[("width", "height").index(sfx)]
                            under(ck, key + "/canvas-" + nmd, list(g.pc) + small, v, dim, "canvas %s is the image's" % nmd, where); n += 1
                    if g.kind == "call" and g.name.endswith("Encoder::write_frame"): n += 1; ck.eq(key + "/frame", g.args[1], frame, "the frame built from the image is written", where)
            elif fm == "WebP" and last == "WebPEncode":
                n += 1
                pic = e.args[1]
                a = F.adt(pic.args[0][4:]) if pic.op == "agg" else None
                if not a: ck.unk(key, "picture not tracked", where); continue
                pf = lambda x: pic.args[2 + [q[0] for q in a["variants"][0]["fields"]].index(x)]
                ck.eq(key + "/width", pf("width"), W(b), "declared width is the image's", where)
                ck.eq(key + "/height", pf("height"), H(b), "declared height is the image's", where)
                ck.eq(key + "/stride", pf("argb_stride"), W(b), "rows are as long as the image is wide", where)
                ck.need(key + "/declared", pf("use_argb") is ONE, "the picture declares ARGB input", where)
                p = pf("argb")
                seq = p.args[2] if p.op == "call" and last_of(p) in ("as_ptr", "as_mut_ptr") else None
                if seq is None: ck.unk(key + "/data", "pixel pointer not tracked", where); continue
                i = tm.bounded("i", mul(W(b), H(b)))
                spec = channel_spec(ck, index(D(b), i), "argb")
                ck.eq(key + "/length", seqlen(seq), mul(W(b), H(b)), "one word per pixel", where)
                if spec is None: continue
                got = words(index(seq, i))
                wantw = {quant(v, 8): 256 ** (3 - j) for j, v in enumerate(spec)}
                if len(got) == 4 and sorted(got.values()) == sorted(wantw.values()):
                    inv = {v: k for k, v in got.items()}
                    for j, c in enumerate("argb"): ck.eq("%s/%s" % (key, c), inv[256 ** (3 - j)], quant(spec[j], 8), "byte %d of every word is %s" % (3 - j, c), where)
                else: ck.eq(key + "/word", index(seq, i), add(add(mul(C(1 << 24), quant(spec[0], 8)), mul(C(1 << 16), quant(spec[1], 8))), add(mul(C(256), quant(spec[2], 8)), quant(spec[3], 8))), "words are ARGB", where)
        if n == n0: ck.bad(key + "/written", "no image data reaches the %s library" % fm, A.where)
    ck.floor("written images", n, 34)
# ---- C25 ------------------------------------------------------------------------------
def c25(ck):
    F = ck.F
    b = buffer("b")
    E = DC + "EncodingFormat"
    n = 0
    pos = [le(ZERO, W(b)), le(ZERO, H(b))]
    big = C(65536)
    for nm, f in enc_cases(F):
        fm = nm.split("/")[0]
        if fm not in ("Jpeg", "Gif"): continue
        A = encode(ck, f)
        if not A or not A.ok: continue
        fn = [l for l, c in leaves(A.ret) if l.op == "agg" and l.args[1] == "Err" and l.args[2].op == "agg" and l.args[2].args[1] == "BadDimensions"]
        label = fn[0].args[2].args[2] if fn else sym("?")
        want = agg("adt:" + RES, "Err", mk(F, EE, "BadDimensions", {"format": label, "width": W(b), "height": H(b)}))
        key = "size/" + nm
        if fn: ck.need(key + "/name", is_c(label, "str") and cval(label).lower() in (fm.lower(), {"Jpeg": "jpg"}.get(fm, "")), "the error names the format (%s)" % show(label), A.where)
        for w, cond in (("width", [le(big, W(b))]), ("height", [lt(W(b), big), le(big, H(b))])):
            n += 1
            under(ck, key + "/" + w, pos + cond, A.ret, want, "a too large %s is refused" % w, A.where)
        n += 1
        under(ck, key + "/fits", pos + [lt(W(b), big), lt(H(b), big)], tree(A.ret, lambda l: C(l.op == "agg" and l.args[1] == "Err" and l.args[2].op == "agg" and l.args[2].args[1] == "BadDimensions")), FALSE, "a size up to 65535 is not refused", A.where)
        # nothing is narrowed before the check
        for e in A.events:
            if e.kind == "call" and not e.name.startswith(("core::", "alloc::", "std::", "d10_")):
                for j, a in enumerate(e.args):
                    for x in tm.walk(a):
                        if x.op == "trunc" and (W(b) in tm.walk(x) or H(b) in tm.walk(x)):
                            lits = tuple(split_pc(e.pc)[0]) + tuple(pos)
                            n += 1
                            ck.need("%s/cast/%s#%d" % (key, e.name.rsplit("::", 1)[-1], n), untrunc(x, lits) is not x, "the size fits its 16 bit field where %s is called" % e.name, "%s:%s" % (e.fn, e.line))
    # quality
    q = sym("q")
    qb = [le(ZERO, q), le(q, C(255))]
    for g in (False, True):
        A = encode(ck, mk(F, E, "Jpeg", {"quality": q, "grayscale": C(g)}))
        if not A or not A.ok: continue
        es = [e for e in A.events if e.kind == "call" and e.name == "jpeg_encoder::encoder::Encoder::new"]
        if not es: ck.unk("jpeg/quality", "encoder construction not seen", A.where)
        for e in es:
            n += 1
            for c, w, t in (([lt(q, ONE)], ONE, "below 1"), ([le(ONE, q), le(q, C(100))], q, "within 1..100"), ([lt(C(100), q)], C(100), "above 100")):
                under(ck, "jpeg/quality/%s/%s" % ("gray" if g else "rgb", t), list(e.pc) + qb + c, e.args[1], w, "JPEG quality %s" % t, "%s:%s" % (e.fn, e.line))
    p = enum_of(F, "WebPPreset")
    for v in F.adt(p)["variants"]:
        A = encode(ck, mk(F, E, "WebP", {"quality": q, "preset": variant(F, p, v["name"])}))
        if not A or not A.ok: continue
        cs = [e for e in A.events if e.kind == "call" and e.name.startswith("libwebp_sys::") and ("Config" in e.name)]
        if not cs: ck.unk("webp/config/" + v["name"], "configuration not seen", A.where)
        for e in cs:
            last = e.name.rsplit("::", 1)[-1]
            where = "%s:%s" % (e.fn, e.line)
            n += 1
            if last == "new_with_preset":
                want = "WEBP_PRESET_" + v["name"].upper()
                if v["name"] == "Lossless": continue
                ck.need("webp/preset/" + v["name"], e.args[0].op == "agg" and e.args[0].args[1] == want, "preset %s selects %s" % (v["name"], want), where)
                qf = lambda x: T("i2f", x)
                for c, w, t in (([le(q, C(100))], q, "within 0..100"), ([lt(C(100), q)], C(100), "above 100")):
                    got = e.args[1]
                    if got.op == "i2f": got, w2 = got.args[-1], w
                    else: w2 = tm.i2f(w) if hasattr(tm, "i2f") else T("i2f", w)
                    under(ck, "webp/quality/%s/%s" % (v["name"], t), list(e.pc) + qb + c, got, w2, "WebP quality %s" % t, where)
            elif last == "WebPConfigLosslessPreset":
                ck.need("webp/lossless/only", v["name"] == "Lossless", "only the lossless preset is lossless", where)
                ck.need("webp/lossless/level", is_int(e.args[1]) and 0 <= cval(e.args[1]) <= 9, "lossless level within 0..9", where)
        if v["name"] == "Lossless": ck.need("webp/preset/Lossless", any(e.name.endswith("WebPConfigLosslessPreset") for e in cs), "the lossless preset configures lossless encoding", A.where)
        for e in A.events:
            if e.kind == "call" and e.name.endswith("::WebPEncode") and cs:
                src = set(x for x in tm.walk(e.args[0]))
                n += 1
                ck.need("webp/used/" + v["name"], any(c.ret in src for c in cs), "the configuration passed to WebPEncode is the one set up", "%s:%s" % (e.fn, e.line))
    # JPEG options
    sp = enum_of(F, "JpegSamplingFactor")
    cases = [("plain", {"progressive": FALSE, "sampling_factor": NONE, "optimize_huffman_tables": FALSE}),
             ("progressive", {"progressive": TRUE, "sampling_factor": NONE, "optimize_huffman_tables": FALSE}),
             ("huffman", {"progressive": FALSE, "sampling_factor": NONE, "optimize_huffman_tables": TRUE}),
             ("both", {"progressive": TRUE, "sampling_factor": NONE, "optimize_huffman_tables": TRUE})]
    for v in F.adt(sp)["variants"]: cases.append((v["name"], {"progressive": FALSE, "sampling_factor": some(variant(F, sp, v["name"])), "optimize_huffman_tables": FALSE}))
    for nm, o in cases:
        A = encode(ck, mk(F, E, "Jpeg", {"grayscale": FALSE, **o}))
        if not A or not A.ok: continue
        for e in A.events:
            if e.kind != "call" or e.name != "jpeg_encoder::encoder::Encoder::encode": continue
            where = "%s:%s" % (e.fn, e.line)
            for acc, pc in chains(e.args[0]):
                n += 1
                if not acc or not acc[-1].args[0].endswith("Encoder::new"): ck.unk("jpeg/%s" % nm, "encoder construction not tracked", where); continue
                g = setting(acc, "set_progressive")
                prog = g is TRUE or g is None and setting(acc, "set_progressive_scans") is not None
                ck.need("jpeg/%s/progressive" % nm, prog == (o["progressive"] is TRUE), "progressive is %s" % show(o["progressive"]), where)
                h = setting(acc, "set_optimized_huffman_tables")
                ck.need("jpeg/%s/huffman" % nm, (h is TRUE) == (o["optimize_huffman_tables"] is TRUE), "optimised tables are %s" % show(o["optimize_huffman_tables"]), where)
                s_ = setting(acc, "set_sampling_factor")
                if o["sampling_factor"] is NONE: ck.need("jpeg/%s/sampling" % nm, s_ is None, "no sampling factor is set", where)
                else: ck.need("jpeg/%s/sampling" % nm, s_ is not None and s_.op == "agg" and alias(s_.args[1]) == alias(nm), "sampling factor %s is passed on" % nm, where)
    # PNG options
    for en_, st, field in (("PngCompression", "set_compression", "compression"), ("PngFilterType", "set_filter", "filter")):
        ep = enum_of(F, en_)
        ct = enum_of(F, "PngColorType")
        for v in F.adt(ep)["variants"]:
            A = encode(ck, mk(F, E, "Png", {"color_type": variant(F, ct, "Rgba8"), field: variant(F, ep, v["name"])}))
            if not A or not A.ok: continue
            for e in A.events:
                if e.kind != "call" or not e.name.endswith("Encoder::write_header"): continue
                for acc, pc in chains(e.args[0]):
                    n += 1
                    g = setting(acc, st)
                    if acc and acc[-1].args[0].endswith("Encoder::new"):
                        ck.need("png/%s/%s" % (field, v["name"]), g is not None and g.op == "agg" and g.args[1] == v["name"], "%s %s is passed on" % (field, v["name"]), "%s:%s" % (e.fn, e.line))
                    else: ck.unk("png/%s/%s" % (field, v["name"]), "encoder construction not tracked", e.fn)
    ck.floor("limit and option obligations", n, 50)
ALIAS = {"R_4_4_4": "F_1_1", "R_4_4_0": "F_1_2", "R_4_4_1": "F_1_4", "R_4_2_2": "F_2_1", "R_4_2_0": "F_2_2", "R_4_2_1": "F_2_4", "R_4_1_1": "F_4_1", "R_4_1_0": "F_4_2"}
def alias(n): return ALIAS.get(n, n)
# ---- C07 ------------------------------------------------------------------------------
JI, PF, DI = "jpeg_decoder::decoder::ImageInfo", "jpeg_decoder::decoder::PixelFormat", "image::dynimage::DynamicImage"
def opts(*fs):
    """summaries tried in order"""
    def f(n, k):
        for g in fs:
            r = g(n, k)
            if r: return r
        return False
    return f
def at(suffix, value): return lambda n, k: (lambda ret, vals: value) if n.endswith(suffix) else False
def decode_cases(F):
    """(name, format, summaries, layout, bits, kind) for every pixel format a decoder library can report"""
    out = []
    for c, ch in (("Grayscale", "l"), ("Rgb", "rgb"), ("GrayscaleAlpha", "la"), ("Rgba", "rgba")):
        for d, bits in (("Eight", 8), ("Sixteen", 16)):
            out.append(("Png/%s%d" % (c, bits), "Png", at("Reader::output_color_type", agg("tuple", "", agg("adt:png::common::ColorType", c), agg("adt:png::common::BitDepth", d))), ch, bits))
    ji = F.adt(JI)
    for v, ch, bits in (("L8", "l", 8), ("L16", "l", 16), ("RGB24", "rgb", 8), ("CMYK32", "cmyk", 8)):
        if not ji: break
        info = agg("adt:" + JI, "ImageInfo", *[agg("adt:" + PF, v) if f[0] == "pixel_format" else sym("info_" + f[0]) for f in ji["variants"][0]["fields"]])
        out.append(("Jpeg/" + v, "Jpeg", at("jpeg_decoder::decoder::Decoder::info", some(info)), ch, bits))
    out.append(("Gif", "Gif", lambda n, k: False, "rgba", 8))
    out.append(("WebP", "WebP", lambda n, k: False, "rgba", 8))
    img = sym("img")
    for v, ch, bits in (("ImageLuma8", "l", 8), ("ImageLumaA8", "la", 8), ("ImageRgb8", "rgb", 8), ("ImageRgba8", "rgba", 8), ("ImageLuma16", "l", 16), ("ImageLumaA16", "la", 16),
                        ("ImageRgb16", "rgb", 16), ("ImageRgba16", "rgba", 16), ("ImageRgb32F", "rgb", 32), ("ImageRgba32F", "rgba", 32)):
        px_ = T("iter", T("sseq", sym("pix")), ZERO)
        sm = opts(at("DynamicImage::from_decoder", agg("adt:" + RES, "Ok", agg("adt:" + DI, v, img))), at("ImageBuffer::pixels", px_),
                  at("DynamicImage::width", sym("img_width")), at("DynamicImage::height", sym("img_height")), at("ImageBuffer::width", sym("img_width")), at("ImageBuffer::height", sym("img_height")))
        for f in ("Bmp", "Ico"): out.append(("%s/%s" % (f, v[5:]), f, sm, ch, bits))
    return out
def decode(ck, case): return ck.run(DC + "decode_buffer", opaque=opts(fmt_of(case[1]), case[2]))
def sample_values(ch, bits, get, native=False):
    """channel values (0..1) of one pixel; get(k) = k-th byte (or, native, k-th sample) of the pixel's group"""
    n = len(ch)
    cast = lambda v: en.do_cast("IntToFloat", v, ("prim", "u16"), ("prim", "f32"))
    if bits == 32: return [get(k) for k in range(n)]
    full = C(255.0 if bits == 8 else 65535.0)
    def one(k):
        if bits == 8 or native: v = get(k)
        else: v = add(mul(C(256), get(2 * k)), get(2 * k + 1))
        return cast(v)
    return [fdiv(one(k), full) for k in range(n)]
fdiv = tm.fdiv
def pixel_spec(ck, ch, vals):
    """admissible linear colours for one decoded pixel"""
    from rules_color import convert
    one = C(1.0)
    g = dict(zip(ch, vals))
    if "l" in g: comps = [g["l"]] * 3
    else: comps = [g["r"], g["g"], g["b"]]
    comps.append(g.get("a", one))
    outs = []
    from rules_core import clamp01
    for cs in ([clamp01(c) if not is_c(c) else c for c in comps], comps):
        A = convert(ck, "srgb::Srgb", "to_rgb", color(ck.F, "srgb::Srgb", "c", cs))
        if A and A.ok: outs.append(A.ret)
    return outs
def c07(ck):
    F = ck.F
    n = 0
    for case in decode_cases(F):
        nm, f, sm, ch, bits = case
        A = decode(ck, case)
        if not A or not A.ok: continue
        where = A.where
        key = "decode/" + nm
        good = [l for l, c in leaves(A.ret) if not (l.op == "agg" and l.args[1] == "Err")]
        if not good: ck.bad(key, "this pixel format is not decoded any more", where); continue
        # the sample source and the declared dimensions
        ev = {}
        for e in A.events:
            if e.kind == "call": ev.setdefault(e.name.rsplit("::", 1)[-1], []).append(e)
        def one(x): return ev[x][0] if len(ev.get(x, ())) >= 1 and len(set(z.ret for z in ev[x])) == 1 else None
        src = w = h = None
        native = False
        if f == "Png":
            e, inf = one("next_frame"), one("info")
            if e and inf: src, w, h = T("post", 1, e.ret), ("width", inf.ret), ("height", inf.ret)
        elif f == "Jpeg":
            e = one("decode")
            if e: src, w, h = fld(down(e.ret, "Ok"), 0), sym("info_width"), sym("info_height")
        elif f == "Gif":
            e = one("read_next_frame")
            if e:
                fr = fld(down(fld(down(e.ret, "Ok"), 0), "Some"), 0)
                fs = [q[0] for q in F.adt("gif::common::Frame")["variants"][0]["fields"]]
                src, w, h = ("buffer", fr), ("width", fr), ("height", fr)
        elif f == "WebP":
            e, g = one("from_raw_parts"), one("WebPDecodeRGBA")
            if e and g: src, w, h = e.ret, T("post", 2, g.ret), T("post", 3, g.ret)
        else: src, w, h, native = sym("pix"), sym("img_width"), sym("img_height"), True
        if src is None: ck.unk(key, "the decoding call is not tracked", where); continue
        if f == "Png":
            # low depths and palettes are expanded by the library, 16 bit is kept
            for acc, pc in chains(one("read_info").args[0]) if one("read_info") else []:
                t = setting(acc, "set_transformations")
                n += 1
                ck.need("png/expand", t is not None and "EXPAND" in show(t), "palette and low-depth images are expanded (%s)" % (show(t)[:60] if t is not None else None), where)
        if f == "Gif" and one("read_info"):
            for acc, pc in chains(one("read_info").args[0]):
                t = setting(acc, "set_color_output")
                n += 1
                ck.need("gif/rgba", t is not None and t.op == "agg" and t.args[1] == "RGBA", "GIF frames are decoded to RGBA", where)
        for l in good:
            if not (l.op == "agg" and l.args[1] == "Ok" and l.args[2].op == "agg" and l.args[2].args[2].op == "agg"): ck.unk(key, "the decoded image is not tracked", where); continue
            img = l.args[2].args[2]
            gw, gh, data = img.args[2:5]
            n += 1
            def same(got, want):
                if isinstance(want, tuple): return got.op == "fld" and got.args[0] is want[1] and show(got).endswith("." + want[0])
                return got is want
            def dim(k2, got, want):
                if same(got, want): ck.ok(key + "/" + k2, "image %s is the declared one" % k2, where)
                elif not isinstance(want, tuple): ck.eq(key + "/" + k2, got, want, "image %s is the declared one" % k2, where)
                else: ck.need(key + "/" + k2, False, "image %s is the declared one: %s" % (k2, show(got)[-80:]), where)
            dim("width", gw, w); dim("height", gh, h)
            i = tm.bounded("i", mul(gw, gh))
            v = index(data, i)
            if native:      # accessors of the image crate's pixel types
                m = {}
                for x in tm.walk(v):
                    if x.op == "call" and x.args[0] == "core::ops::index::Index::index" and index(src, i) in tm.walk(x.args[2]): m[x] = index(index(src, i), x.args[3])
                    elif x.op == "fld" and x.args[0] is index(src, i) or x.op == "call" and last_of(x) in ("channels", "deref", "as_ref") and len(x.args) == 3 and x.args[2] is index(src, i): m[x] = index(src, i)
                v = tm.subst(v, m)
            raw = src
            if isinstance(raw, tuple):
                c = [x for x in tm.walk(v) if x.op == "fld" and x.args[0] is raw[1]]
                raw = c[0] if c else None
            if raw is None: ck.unk(key, "the frame's samples are not tracked", where); continue
            per = len(ch) * (1 if native else max(bits, 8) // 8)
            get = (lambda k: index(index(raw, i), C(k))) if native else (lambda k: index(raw, add(mul(C(per), i), C(k))))
            if ch == "cmyk":
                cast = lambda x: en.do_cast("IntToFloat", x, ("prim", "u8"), ("prim", "f32"))
                inv = [tm.fsub(C(255.0), cast(get(k))) for k in range(4)]
                vals = [fdiv(tm.fmul(inv[k], inv[3]), C(65025.0)) for k in range(3)]
                specs = pixel_spec(ck, "rgb", vals)
            elif bits == 16 and f == "Jpeg":      # native (little) endian words
                cast = lambda x: en.do_cast("IntToFloat", x, ("prim", "u16"), ("prim", "f32"))
                specs = pixel_spec(ck, "l", [fdiv(cast(add(mul(C(256), get(1)), get(0))), C(65535.0))])
            else: specs = pixel_spec(ck, ch, sample_values(ch, bits, get, native))
            n += 1
            ck.eq_any(key + "/pixel", v, specs, "pixel i is built from sample group i as %s, %d bits" % (ch, bits), where)
    ck.floor("decoded pixel formats", n, 60)
# ---- C02 ------------------------------------------------------------------------------
from rules_core import MAXPIX
def source(ck, A, f):
    """(sample sequence, width, height) the decoder library reports, as terms"""
    ev = {}
    for e in A.events:
        if e.kind == "call": ev.setdefault(e.name.rsplit("::", 1)[-1], []).append(e)
    def one(x): return ev[x][0] if x in ev and len(set(z.ret for z in ev[x])) == 1 else None
    def member(t, nm):
        fs = set(x for e in A.events for y in (list(e.pc) + ([e.ret] if isinstance(e.ret, Term) else [])) for x in tm.walk(y) if x.op == "fld" and x.args[0] is t and show(x).endswith("." + nm))
        return fs.pop() if len(fs) == 1 else None
    if f == "Png":
        e, inf = one("next_frame"), one("info")
        return (T("post", 1, e.ret) if e else None, inf and member(inf.ret, "width"), inf and member(inf.ret, "height"))
    if f == "Jpeg":
        e = one("decode")
        return (fld(down(e.ret, "Ok"), 0) if e else None, sym("info_width"), sym("info_height"))
    if f == "Gif":
        e = one("read_next_frame")
        if not e: return None, None, None
        fr = fld(down(fld(down(e.ret, "Ok"), 0), "Some"), 0)
        return member(fr, "buffer"), member(fr, "width"), member(fr, "height")
    if f == "WebP":
        e, g = one("from_raw_parts"), one("WebPDecodeRGBA")
        return (e.ret if e else None, g and T("post", 2, g.ret), g and T("post", 3, g.ret))
    return sym("pix"), sym("img_width"), sym("img_height")
def c02(ck):
    import copy
    F = ck.F
    n = 0
    tm.SEQ_LEN[sym("pix")] = mul(sym("img_width"), sym("img_height"))
    for case in decode_cases(F):
        nm, f, sm, ch, bits = case
        A = decode(ck, case)
        if not A or not A.ok: continue
        key = "decode/" + nm
        src, w, h = source(ck, A, f)
        if w is None or h is None: ck.unk(key, "declared dimensions not tracked", A.where); continue
        per = len(ch) * (bits // 8 if bits < 32 else 1)
        pos = [le(ZERO, w), le(ZERO, h), lt(w, C(1 << 32)), lt(h, C(1 << 32)), lt(mul(w, h), C(1 << 64))]
        m = {}
        if src is not None and f in ("Jpeg", "Gif"): m[T("len", src)] = mul(mul(w, h), C(per))
        if f == "WebP":
            # libwebp reports at most 16383 pixels per side
            pos += [le(ONE, w), le(ONE, h), le(w, C(16383)), le(h, C(16383)), le(mul(w, h), C(16383 * 16383))]
        B = copy.copy(A)
        B.events = []
        for e in A.events:
            if e.kind in ("panic", "assert"):
                e = copy.copy(e)
                e.pc = tuple(tm.subst(p, m) for p in e.pc) if m else e.pc
                if isinstance(e.ret, Term) and m: e.ret = tm.subst(e.ret, m)
                B.events.append(e)
            elif e.kind == "narrow":
                n += 1
                lits, hard = split_pc(e.pc)
                v = e.ret if isinstance(e.ret, Term) else None
                if v is None: continue
                ms = equiv(and_(*hard, not_(lt(v, C(1 << 32)))), FALSE, tuple(pos + lits), 400)
                k = "%s/overflow#%d" % (key, n)
                if not ms: ck.ok(k, "no overflow in %s" % e.name, "%s:%s" % (e.fn, e.line))
                elif any(x.sure for x in ms) and (w in tm.walk(v) or h in tm.walk(v)): ck.bad(k, "arithmetic on declared dimensions may overflow before they are checked: %r" % ms[0], "%s:%s" % (e.fn, e.line))
                else: ck.unk(k, "%r" % ms[0], "%s:%s" % (e.fn, e.line))
        n += 1
        ck.nopanic(key + "/nopanic", B, tuple(pos), "decoding never panics, whatever dimensions are declared")
        if f == "WebP": continue
        okc = [isvar(e.ret, "Ok") for e in fallible(A) if not e.loops]
        if f == "Gif": okc += [isvar(fld(down(e.ret, "Ok"), 0), "Some") for e in A.events if e.kind == "call" and e.name.endswith("read_next_frame")]
        want = agg("adt:" + RES, "Err", mk(F, DE, "InvalidBufferSize", {"width": w, "height": h}))
        for t, c in (("zero-width", [eq(w, ZERO), le(ONE, h)]), ("zero-height", [le(ONE, w), eq(h, ZERO)]), ("too-large", [le(ONE, w), le(ONE, h), lt(MAXPIX, mul(w, h))])):
            n += 1
            under(ck, "%s/%s" % (key, t), pos + okc + c, A.ret, want, "declared dimensions with %s give the size error naming them" % t, A.where)
    ck.floor("decoder paths", n, 100)
# ---- C18 ------------------------------------------------------------------------------
from models import NULLP
OWNED = ("alloc::vec::Vec", "alloc::boxed::Box", "alloc::string::String", "d10_core::pixelbuffer::PixelBuffer", DC + "DecodedImage", "core::result::Result",
         "core::option::Option", EE, DE, "core::ops::control_flow::ControlFlow")
def carries(ty, F=None):
    """may a value of this type point into memory it does not own?"""
    if not isinstance(ty, tuple) or not ty: return True
    if ty[0] in ("prim", "str"): return False
    if ty[0] in ("tuple", "array", "slice"): return any(carries(x, F) for x in (ty[1] if ty[0] == "tuple" else (ty[1],)))
    if ty[0] == "adt" and (ty[1] in OWNED or ty[1].endswith("alloc::Global")): return any(carries(x, F) for x in ty[2] if isinstance(x, tuple) and x and x[0] != "cv")
    if ty[0] == "adt" and F is not None and ty[1] in F.adts and F.adts[ty[1]]["crate"].startswith("d10"):
        return any(len(f) < 2 or carries(f[1], F) for v in F.adts[ty[1]]["variants"] for f in v["fields"]) or any(carries(x, F) for x in ty[2] if isinstance(x, tuple) and x and x[0] != "cv")
    return ty[0] not in ("never",)
def operands(t):
    """locals read by an rvalue, statement or operand, with whether they are moved"""
    if isinstance(t, tuple):
        if t and t[0] in ("copy", "move") and len(t) == 2 and isinstance(t[1], tuple) and t[1] and isinstance(t[1][0], int): yield t[1][0]; return
        if t and t[0] in ("ref", "rawptr") and len(t) == 3 and isinstance(t[2], tuple) and t[2] and isinstance(t[2][0], int): yield t[2][0]; return
        if t and t[0] in ("discr", "len") and len(t) > 1 and isinstance(t[1], tuple) and t[1] and isinstance(t[1][0], int): yield t[1][0]
        for x in t: yield from operands(x)
def after_release(b, name, F):
    """uses of a released pointer, or of anything derived from it, after the release: [(line of release, line of use)] and the number of releases"""
    bd = b["body"]; bl = bd["blocks"]; out = []; n = 0
    for i, blk in enumerate(bl):
        t = blk["t"]
        if not t or t[0] != "call" or not isinstance(t[1], dict) or t[1]["name"] != name or not t[2]: continue
        n += 1
        S = set(operands(t[2][0]))
        while 1:
            m = len(S)
            for k in bl:
                for s in k["s"]:
                    if s[0] != "=": continue
                    d, rv = s[1][0], s[2]
                    use = set(operands(rv))
                    if use & S and carries(bd["locals"][d], F): S.add(d)
                    if d in S and rv[0] in ("use", "cast"): S |= set(x for x in use if carries(bd["locals"][x], F))
                c = k["t"]
                if c and c[0] == "call" and set(operands(c[2])) & S and carries(bd["locals"][c[3][0]], F): S.add(c[3][0])
            if len(S) == m: break
        seen, todo = set(), [t[4]]
        while todo:
            j = todo.pop()
            if j in seen or not isinstance(j, int) or j >= len(bl): continue
            seen.add(j)
            k = bl[j]
            for s in k["s"]:
                if s[0] == "=" and set(operands(s[2])) & S: out.append((t[5], s[3]))
            c = k["t"]
            if not c: continue
            if c[0] == "call" and set(operands(c[2])) & S: out.append((t[5], c[5]))
            todo += en.succs(c)
    return n, out
class Opaq:
    """names for the results of library calls, so that conditions on them are plain literals"""
    def __init__(s): s.m = {}
    def closed(s, t): return not any(z.op == "sym" and isinstance(z.args[0], str) and z.args[0].startswith("%") for z in tm.varset(t))
    def name(s, t):
        if t not in s.m:
            c = t
            while c.op == "post": c = c.args[1]
            s.m[t] = sym("%s%s@%d" % (c.args[0].rsplit("::", 1)[-1], ".%s" % t.args[0] if t.op == "post" else "", len(s.m)))
    def scan(s, t, seen):
        if t in seen: return
        seen.add(t)
        c = t
        while c.op == "post" and isinstance(c.args[1], Term): c = c.args[1]
        if c.op == "call" and s.closed(t): s.name(t); return
        def go(a):
            if isinstance(a, Term): s.scan(a, seen)
            elif isinstance(a, tuple):
                for x in a: go(x)
        go(t.args)
    def __call__(s, t):
        s.scan(t, set())
        # only the maximal calls are replaced: subst looks at a term before its parts
        return tm.subst(t, s.m)
OPQ = Opaq()
def opq_(ts): return [OPQ(x) for x in ts]
def feasible(pc, extra=(), asm=()):
    """mismatches (empty: the path conditions together with extra are contradictory)"""
    pc, extra, asm = opq_(pc), opq_(extra), opq_(asm)
    if FALSE in pc or FALSE in extra: return []
    lits, hard = split_pc(list(pc))
    return equiv(and_(*hard, *extra), FALSE, tuple(asm) + tuple(lits), 300)
def lib_calls(A): return [e for e in A.events if e.kind == "call" and "libwebp_sys" in e.name and e.name.rsplit("::", 1)[-1].startswith("WebP")]
def statuses(ck, key, A):
    """every status a libwebp call returns decides the result"""
    n = 0
    for e in lib_calls(A):
        d, nm = e.extra[1], e.name.rsplit("::", 1)[-1]
        where = "%s:%s" % (e.fn, e.line)
        if d == ("prim", "i32"): fails = eq(e.ret, ZERO)
        elif d[0] == "ptr": fails = eq(e.ret, NULLP)
        else: continue
        n += 1
        under(ck, "%s/status/%s" % (key, nm), opq_(e.pc) + [OPQ(fails)], OPQ(isvar(A.ret, "Ok")), FALSE, "a failing %s makes the operation fail" % nm, where)
        for x in lib_calls(A):
            # nothing but releases may follow a failed call
            if A.events.index(x) > A.events.index(e) and not x.name.endswith("Free"):
                n += 1
                m = feasible(x.pc, [fails])
                k = "%s/status/%s-before-%s" % (key, nm, x.name.rsplit("::", 1)[-1])
                if not m: ck.ok(k, "only reached when %s succeeded" % nm, "%s:%s" % (x.fn, x.line))
                elif d[0] == "ptr" or nm in ("WebPGetInfo", "WebPConfigLosslessPreset", "WebPPictureInit", "WebPConfigInit", "WebPValidateConfig", "WebPPictureAlloc"):
                    (ck.bad if any(y.sure for y in m) else ck.unk)(k, "%s runs although %s failed" % (x.name, nm), "%s:%s" % (x.fn, x.line))
    return n
def covers(ck, key, got, want, what, where, asm=()):
    """the calls with path conditions `got` happen exactly once on every path in `want`"""
    ok = True
    for i, p in enumerate(got):
        for q in got[i + 1:]:
            m = feasible(p, q)
            if m: (ck.bad if any(y.sure for y in m) else ck.unk)(key + "/twice", "%s: may happen twice" % what, where); ok = False
    if not got: ck.bad(key, "%s: never happens" % what, where); return
    m = feasible(want, [not_(or_(*[and_(*p) for p in got]))], asm)
    if not m and ok: ck.ok(key, what, where)
    elif m: (ck.bad if any(y.sure for y in m) else ck.unk)(key, "%s: missed under %r" % (what, m[0]), where)
def releasing_drops(F, A, fn):
    """drop events of workspace types whose Drop implementation calls fn"""
    out = []
    tys = {}
    for b in F.bodies.values():
        if b["trait"] == "core::ops::drop::Drop" or str(b["trait"]).endswith("ops::drop::Drop"):
            if any(k["t"] and k["t"][0] == "call" and isinstance(k["t"][1], dict) and k["t"][1]["name"] == fn for k in b["body"]["blocks"]):
                t = b["self"]
                if t: tys[t if isinstance(t, str) else t[1] if len(t) > 1 else None] = b
    for e in A.events:
        if e.kind == "drop" and isinstance(e.extra, tuple) and e.extra[0] == "adt" and e.extra[1] in tys: out.append(e)
    return out
def ptr_base(t):
    return t.args[2] if t.op == "call" and last_of(t) in ("as_ptr", "as_mut_ptr") and len(t.args) > 2 else None
def dims(d):
    """what libwebp guarantees about the dimensions of a decoded image"""
    w, h = T("post", 2, d.ret), T("post", 3, d.ret)
    return (le(ONE, w), le(ONE, h), le(w, C(16383)), le(h, C(16383)), le(mul(w, h), C(16383 * 16383)))
def c18(ck):
    F = ck.F
    n = 0
    # decoding
    for case in decode_cases(F):
        if case[1] != "WebP": continue
        A = decode(ck, case)
        if not A or not A.ok: ck.unk("decode", "webp decoder not evaluated"); continue
        n += statuses(ck, "decode", A)
        for e in lib_calls(A):
            nm = e.name.rsplit("::", 1)[-1]
            if len(e.args) > 1 and nm.startswith(("WebPGetInfo", "WebPDecode", "WebPGetFeatures")):
                b = ptr_base(e.args[0])
                n += 1
                if b is None: ck.unk("decode/%s/input" % nm, "input pointer not tracked", "%s:%s" % (e.fn, e.line))
                else: ck.eq("decode/%s/input" % nm, e.args[1], tm.seqlen(b), "the length passed to %s is that of the passed data" % nm, "%s:%s" % (e.fn, e.line))
        dec = [e for e in lib_calls(A) if e.name.rsplit("::", 1)[-1].startswith("WebPDecode") and e.extra[1][0] == "ptr"]
        if not ck.need("decode/call", bool(dec), "a libwebp decoding function returning a buffer is called", A.where): continue
        rets = dict((e.ret, e) for e in dec)
        m = 0
        for e in A.events:
            if e.kind == "call" and e.name.rsplit("::", 1)[-1] in ("from_raw_parts", "from_raw_parts_mut"):
                where = "%s:%s" % (e.fn, e.line)
                ptr = e.args[0]
                d = rets.get(ptr)
                if not d: ck.unk("decode/slice#%d" % m, "slice over another pointer: %s" % show(ptr)[:80], where); continue
                m += 1
                per = 3 if d.name.endswith("RGB") or d.name.endswith("BGR") else 4
                w, h = T("post", 2, d.ret), T("post", 3, d.ret)
                pos = dims(d)
                ck.eq("decode/slice#%d/len" % m, untrunc(OPQ(e.args[1]), tuple(opq_(pos))), OPQ(mul(mul(w, h), C(per))), "the slice covers width x height x %d bytes as reported by the decoding call" % per, where, asm=tuple(opq_(pos)))
                x = feasible(e.pc, [eq(ptr, NULLP)])
                (ck.ok if not x else ck.bad if any(y.sure for y in x) else ck.unk)("decode/slice#%d/null" % m, "the returned pointer is checked before use", where)
                n += 2
        if not m: ck.unk("decode/slice", "no slice over the decoded buffer found", A.where)
        for d in dec:
            where = "%s:%s" % (d.fn, d.line)
            free = [e for e in lib_calls(A) if e.name.endswith("::WebPFree") and e.args and e.args[0] is d.ret] + [e for e in releasing_drops(F, A, "WebPFree") if e.args and any(x is d.ret for x in tm.walk(e.args[0]))]
            other = [e for e in lib_calls(A) if e.name.endswith("::WebPFree") and e not in free]
            n += 1
            if not free and other: ck.unk("decode/free", "the released pointer is not tracked", where)
            elif any(e.loops for e in free): ck.bad("decode/free", "the decoded buffer is released inside a loop", where)
            else: covers(ck, "decode/free", [e.pc for e in free], list(d.pc) + [not_(eq(d.ret, NULLP))], "the decoded buffer is released exactly once on every path", where, dims(d))
    r = 0
    for k, b in sorted(F.bodies.items()):
        if b["crate"] != "d10_codecs": continue
        c, uses = after_release(b, "WebPFree", F)
        if not c: continue
        r += c; n += 1
        if uses: ck.bad("decode/after-free/" + b["path"], "memory is used at line %s after it was released at line %s" % (uses[0][1], uses[0][0]), "%s:%s" % (b["file"], uses[0][1]))
        else: ck.ok("decode/after-free/" + b["path"], "nothing derived from a released pointer is used afterwards (%d releases)" % c, "%s:%s" % (b["file"], b["line"]))
    ck.need("decode/release", r > 0, "WebPFree is called", "d10-codecs/src/webp.rs")
    # encoding
    b = buffer("b")
    for nm, f in enc_cases(F):
        if not nm.startswith("WebP/"): continue
        A = encode(ck, f)
        if not A or not A.ok: continue
        key = "encode/" + nm
        n += statuses(ck, key, A)
        enc = [e for e in lib_calls(A) if e.name.endswith("::WebPEncode")]
        if not ck.need(key + "/call", bool(enc), "WebPEncode is called", A.where): continue
        e = enc[0]
        where = "%s:%s" % (e.fn, e.line)
        pic = e.args[1]
        a = F.adt(pic.args[0][4:]) if pic.op == "agg" else None
        if not a: ck.unk(key + "/picture", "picture not tracked", where); continue
        fields = [x[0] for x in a["variants"][0]["fields"]]
        get = lambda x: pic.args[2 + fields.index(x)]
        asm = (le(ONE, W(b)), le(ONE, H(b)), le(W(b), C(16383)), le(H(b), C(16383)))
        for x, want in (("width", W(b)), ("height", H(b)), ("argb_stride", W(b))):
            n += 1
            ck.eq("%s/%s" % (key, x), untrunc(get(x), asm), want, "%s passed to libwebp" % x, where, asm=asm)
        n += 1
        ck.eq(key + "/use_argb", eq(get("use_argb"), ZERO), FALSE, "the argb plane is the one in use", where)
        n += 1
        base = ptr_base(get("argb"))
        if base is None: ck.unk(key + "/argb", "pixel pointer not tracked", where)
        else:
            ln = tm.seqlen(base)
            ck.eq(key + "/argb-len", untrunc(ln, asm), mul(W(b), H(b)), "the pixel array has width x height entries", where, asm=asm)
            at_ = A.events.index(e)
            drops = [(i, x) for i, x in enumerate(A.events) if x.kind == "drop" and x.args and x.args[0] is base]
            n += 1
            early = []
            for i, x in drops:
                if i < at_:
                    if feasible(x.pc, e.pc): early.append(x)
            late = [x for i, x in drops if i > at_]
            if early: ck.bad(key + "/argb-alive", "the pixel array is dropped at line %s before WebPEncode reads it" % early[0].line, where)
            elif late: ck.ok(key + "/argb-alive", "the pixel array is dropped after WebPEncode", where)
            else: ck.unk(key + "/argb-alive", "end of the pixel array's life not tracked", where)
        free = [x for x in lib_calls(A) if x.name.endswith("::WebPPictureFree")] + releasing_drops(F, A, "WebPPictureFree")
        n += 1
        covers(ck, key + "/free", [x.pc for x in free], list(e.pc), "the picture is released exactly once after the encode", where)
        n += 1
        if any(A.events.index(x) < A.events.index(e) for x in free): ck.bad(key + "/free-order", "the picture is released before it is encoded", where)
        else: ck.ok(key + "/free-order", "the picture is released after the encode", where)
        for x in lib_calls(A):
            if x.name.endswith("::WebPConfigLosslessPreset"):
                n += 1
                ck.eq(key + "/lossless-level", and_(le(ZERO, x.args[1]), le(x.args[1], C(9))), TRUE, "the level is one libwebp accepts", "%s:%s" % (x.fn, x.line))
            if x.name.endswith("::new_with_preset") or x.name.endswith("::WebPConfigPreset"):
                n += 1
                q = x.args[-1]
                ck.eq(key + "/quality", q, en.do_cast("IntToFloat", tm.imin(C(100), tm.imax(ZERO, sym("quality"))), ("prim", "u8"), ("prim", "f32")), "the quality passed is the requested one, at most 100", "%s:%s" % (x.fn, x.line), asm=(le(ZERO, sym("quality")), le(sym("quality"), C(255))))
    webp_slot(ck, True)
    webp_slot(ck, False)
    ck.floor("library call obligations", n, 60)
RULES = {
 "C18": (c18, "the WebP decoder and encoder are abstractly evaluated with libwebp opaque: for every call of it that returns a status or pointer, the path with a failing status must end in an error and must not reach a later libwebp call; the slice over the decoded buffer is compared with the dimensions the decoding call reported; path conditions of WebPFree and WebPPictureFree must partition the paths that own the memory; a MIR dataflow finds uses of anything derived from a released pointer; drop events order the life of the pixel array against WebPEncode"),
 "C02": (c02, "each decoder is abstractly evaluated for every pixel format with the declared dimensions symbolic; for zero width, zero height and too many pixels the result must be the size error carrying those dimensions, no panic may be reachable under the libraries' length contracts, and no arithmetic on the dimensions may overflow before they are checked"),
 "C07": (c07, "each decoder is abstractly evaluated once per pixel format its library can report (supplied as a summary of that library call); pixel i of the decoded image is compared, for an arbitrary i, with the colour built from sample group i of the library's output in the declared order, divided by full scale; dimensions must be the declared ones"),
 "C25": (c25, "JPEG and GIF encoding are abstractly evaluated for sizes beyond 65535 (must be the BadDimensions error with the format's name and the image's size) and within (must not; every 16 bit cast must fit); the quality and option values reaching the codec libraries are compared with the requested ones for every option variant"),
 "C06": (c06, "each encode case is abstractly evaluated; the header settings in the receiver chain of the library encoder are compared with the requested colour type, and the written sequence is compared symbolically, for an arbitrary pixel index, with the declared channels quantised from the gamma-encoded (or gray) pixel"),
 "C05": (c05, "the tables are evaluated entry by entry: each extension (in four spellings) and unknown ones through Format::from_path and EncodingFormat::from_path, each signature symbolically through from_reader in both directions, each format through decode, encode, format and the constructors; the codec library reached by the call graph of each case must be that format's"),
 "C03": (c03, "every encode case and encode_to_file is abstractly evaluated with the codec libraries opaque; the failure of each fallible writing call must make the function fail; a value of a type whose drop discards write errors (BufWriter, png Writer, gif Encoder) must be flushed or finished before it is dropped on any path that can return Ok; the WebP callback must report failed writes to the library"),
 "C04": (c04, "every encode case and every decoder is abstractly evaluated with the codec libraries opaque; for each call whose result is a Result, the returned value under the assumption that this call failed must be Err of the matching variant carrying that error (I/O variants of library errors map to the I/O variant), and no panic may depend on a failed call"),
}

"""Abstract semantics of the standard-library calls the workspace uses."""
from fractions import Fraction
import term as tm
from term import *

MODELS, TRAIT_MODELS = {}, {}
def _en():
    import engine
    return engine

def model(*paths):
    def d(f):
        for p in paths: MODELS[p] = f
        return f
    return d
def tmodel(*pairs):
    def d(f):
        for p in pairs: TRAIT_MODELS[p] = f
        return f
    return d
ITER = "core::iter::traits::iterator::Iterator"
DEI = "core::iter::traits::double_ended::DoubleEndedIterator"
INTO = "core::iter::traits::collect::IntoIterator"

def val(cx, a, st): return cx.E.read(st, a) if a.op in ("ref",) or a.op == "ite" else (st.store.get(("D", a), a))

# ---- identity-like ------------------------------------------------------------------
def _ident(cx, a, st): return val(cx, a[0], st), st
for p in ("core::hint::must_use", "core::hint::black_box", "core::convert::identity", "core::mem::drop_guard"): MODELS[p] = _ident
for tr, n in (("core::ops::deref::Deref", "deref"), ("core::borrow::Borrow", "borrow"),
              ("alloc::borrow::ToOwned", "to_owned")):
    TRAIT_MODELS[(tr, n)] = _ident
for p in ("alloc::vec::Vec::as_slice", "alloc::vec::Vec::into_boxed_slice", "alloc::string::String::as_str", "[T]::to_vec", "[T]::into_vec",
          "core::array::{impl#0}::as_slice", "[_;_]::as_slice", "alloc::borrow::Cow::into_owned", "str::to_owned",
          "alloc::boxed::Box::new", "alloc::string::String::into_boxed_str", "[T]::as_ref", "alloc::vec::Vec::from",
          "alloc::boxed::Box::pin", "[_;_]::each_ref", "str::as_str", "alloc::slice::to_vec", "core::slice::from_ref",
          "core::cell::Cell::new", "core::mem::ManuallyDrop::new"):
    MODELS[p] = _ident
@tmodel(("core::convert::AsRef", "as_ref"))
def as_ref(cx, a, st):
    t = cx.targs[0]
    while t[0] == "ref": t = t[2]
    if t[0] in ("array", "slice") or t[0] == "adt" and t[1] == "alloc::vec::Vec": return val(cx, a[0], st), st
    to = cx.targs[1] if len(cx.targs) > 1 else None
    if t[0] == "param" and to and to[0] == "adt" and to[1] == "std::path::Path": return val(cx, a[0], st), st     # a view of the caller's path
    for same in (("str", "alloc::string::String"), ("std::path::Path", "std::path::PathBuf"), ("std::ffi::os_str::OsStr", "std::ffi::os_str::OsString")):
        if to and to[0] != "param" and (to[1] if to[0] == "adt" else to[0]) == same[0] and (t[1] if t[0] == "adt" else t[0]) in same: return val(cx, a[0], st), st
    return NotImplemented
@model("alloc::vec::Vec::as_mut_slice", "[_;_]::as_mut_slice", "[T]::as_mut", "core::option::Option::as_deref_mut", "core::slice::from_mut")
def ident_ref(cx, a, st): return a[0], st
@tmodel(("core::ops::deref::DerefMut", "deref_mut"), ("core::convert::AsMut", "as_mut"), ("core::borrow::BorrowMut", "borrow_mut"))
def deref_mut(cx, a, st): return a[0], st

@tmodel(("core::clone::Clone", "clone"))
def clone(cx, a, st):
    v = val(cx, a[0], st)
    return v, st
@model("[T]::concat")
def concat(cx, a, st): return T("concat", val(cx, a[0], st)), st

@tmodel(("core::convert::Into", "into"))
def into(cx, a, st):
    s, t = cx.targs[0], cx.targs[1]
    if s == t: return a[0], st
    return cx.E.call_named("core::convert::From::from", "core::convert::From::from", "core::convert::From", "from", (t, s), None,
                           a, (s,), t, st, cx.fr, cx.line)
@tmodel(("core::convert::From", "from"))
def from_(cx, a, st):
    t, s = cx.targs[0], cx.targs[1] if len(cx.targs) > 1 else None
    if t == s: return a[0], st
    v = a[0]
    if t[0] == "prim" and s and s[0] == "prim":
        from engine import do_cast, FLOATS
        k = "IntToFloat" if t in FLOATS and s not in FLOATS else "FloatToFloat" if t in FLOATS else "IntToInt"
        return do_cast(k, v, s, t, cx.E), st
    if t[0] == "adt" and t[1] in ("alloc::vec::Vec", "alloc::boxed::Box") and s and s[0] in ("array", "ref", "adt"):
        return val(cx, v, st), st
    if t[0] == "adt" and t[1] == "core::option::Option": return some(v), st
    return NotImplemented
@tmodel(("core::convert::TryInto", "try_into"), ("core::convert::TryFrom", "try_from"))
def try_into(cx, a, st):
    s, t = (cx.targs[0], cx.targs[1]) if cx.name == "try_into" else (cx.targs[1], cx.targs[0])
    if t[0] == "array":
        v = val(cx, a[0], st)
        n = t[2][1] if isinstance(t[2], tuple) and t[2] and t[2][0] in ("cv", "cterm") else t[2]
        if isinstance(n, int): n = C(n)
        if v.op == "agg" and v.args[0] == "array" and isinstance(n, Term) and is_c(n):
            return (ok(v) if len(v.args) - 2 == n.args[1] else err(v)), st
        return T("call", "try_into_array", (), v), st
    if t[0] == "prim" and s[0] == "prim":
        from engine import BITS, do_cast
        bt = BITS.get(t[1])
        if bt:
            hi = C((1 << (bt if t[1][0] == "u" else bt - 1)) - 1)
            c = le(a[0], hi)
            if t[1][0] == "u" and s[1][0] == "i": c = and_(c, le(ZERO, a[0]))
            return ite(c, ok(a[0]), err(T("sym", "TryFromIntError"))), st
    return NotImplemented

# ---- numbers -----------------------------------------------------------------------
def fn1(p, f):
    def m(cx, a, st):
        if p in ("powf", "sqrt", "ln", "log2", "log10", "recip") and not is_f(a[0]): cx.E.ev("fdiv" if p == "recip" else "fdom", p, cx.fr, st, cx.line, args=((C(Fraction(1)),) if p == "recip" else ()) + tuple(a))
        return f(*a), st
    for w in ("f32", "f64"): MODELS[w + "::" + p] = m
    MODELS["core::f32::" + p] = m; MODELS["std::f32::" + p] = m
fn1("min", fmin); fn1("max", fmax)
fn1("clamp", lambda x, lo, hi: fmin(fmax(x, lo), hi))
def opq(n):
    def f(*a):
        if n == "floor" and is_f(a[0]): return C(Fraction(cval(a[0]).__floor__()))
        if n == "ceil" and is_f(a[0]): return C(Fraction(cval(a[0]).__ceil__()))
        if n in ("floor", "round", "ceil", "trunc") and a[0].op == "i2f": return a[0]
        if n == "sqrt" and is_f(a[0]):
            import math
            return C(float(math.sqrt(float(cval(a[0])))))
        if n in CONSTF and a and all(is_f(z) for z in a):
            try: return C(float(CONSTF[n](*[float(cval(z)) for z in a])))
            except (ValueError, OverflowError, ZeroDivisionError, TypeError): pass
        return T("f", n, *a)
    return f
import math as _math
CONSTF = {"powf": lambda x, y: x ** y if x >= 0 else None, "sin": _math.sin, "cos": _math.cos, "exp": _math.exp, "ln": _math.log, "atan2": _math.atan2, "trunc": _math.trunc,
          "round": lambda x: _math.floor(abs(x) + 0.5) * (1 if x >= 0 else -1), "cbrt": lambda x: abs(x) ** (1 / 3) * (1 if x >= 0 else -1), "tan": _math.tan, "log2": _math.log2, "log10": _math.log10}
for _n in ("floor", "ceil", "round", "trunc", "fract", "sqrt", "cbrt", "sin", "cos", "tan", "asin", "acos", "atan", "atan2", "sinh", "cosh",
           "tanh", "exp", "exp2", "ln", "log2", "log10", "powf", "hypot", "signum", "to_degrees", "to_radians", "rem_euclid", "copysign",
           "is_nan", "is_finite", "is_infinite", "to_bits", "from_bits", "total_cmp", "exp_m1", "ln_1p", "log", "div_euclid", "sin_cos"):
    fn1(_n, opq(_n))
def fabs(x):
    if is_f(x): return C(abs(cval(x)))
    q = to_fpoly(x)
    if q and q[min(q, key=lambda m: [y.id for y in m])] < 0: x = fneg(x)
    return T("f", "abs", x)
fn1("abs", fabs)
fn1("recip", lambda x: fdiv(C(Fraction(1)), x))
fn1("mul_add", lambda a, b, c: fadd(fmul(a, b), c))
def powi(x, n):
    if is_int(n) and 0 <= cval(n) <= 8:
        r = C(Fraction(1))
        for _ in range(cval(n)): r = fmul(r, x)
        return r
    return T("f", "powi", x, n)
fn1("powi", powi)
tm._REB["f"] = lambda n, *a: (fabs(*a) if n == "abs" else powi(*a) if n == "powi" else opq(n)(*a))

for _w in ("u8", "u16", "u32", "u64", "usize", "i8", "i16", "i32", "i64", "isize", "u128", "i128"):
    def _m(f):
        return lambda cx, a, st: (f(*a), st)
    MODELS[_w + "::min"] = _m(imin); MODELS[_w + "::max"] = _m(imax)
    for _o, _f in (("add", add), ("sub", sub), ("mul", mul)):
        def _mw(f, w, o):
            def m(cx, a, st):
                v = f(*a)
                if not is_c(v): cx.E.ev("narrow", "wrapping_" + o, cx.fr, st, cx.line, ret=v, targs=w)
                return v, st
            return m
        MODELS[_w + "::wrapping_" + _o] = _mw(_f, _w, _o)
    MODELS[_w + "::saturating_add"] = _m(add); MODELS[_w + "::saturating_mul"] = _m(mul)
    MODELS[_w + "::unchecked_add"] = _m(add); MODELS[_w + "::unchecked_mul"] = _m(mul); MODELS[_w + "::unchecked_sub"] = _m(sub)
    MODELS[_w + "::checked_add"] = _m(lambda a, b: some(add(a, b)))
    MODELS[_w + "::checked_mul"] = _m(lambda a, b: some(mul(a, b)))
    MODELS[_w + "::div_ceil"] = _m(lambda a, b: div(add(a, sub(b, ONE)), b))
    MODELS[_w + "::abs"] = _m(lambda a: C(abs(cval(a))) if is_int(a) else T("iabs", a))
    MODELS[_w + "::unsigned_abs"] = MODELS[_w + "::abs"]
    MODELS[_w + "::rem_euclid"] = _m(rem); MODELS[_w + "::div_euclid"] = _m(div)
    MODELS[_w + "::checked_rem"] = _m(lambda a, b: ite(eq(b, ZERO), NONE, some(rem(a, b))))
    MODELS[_w + "::checked_div"] = _m(lambda a, b: ite(eq(b, ZERO), NONE, some(div(a, b))))
    MODELS[_w + "::to_be_bytes"] = (lambda w: lambda cx, a, st: (be_bytes(w, a[0]), st))(_w)
    MODELS[_w + "::to_le_bytes"] = (lambda w: lambda cx, a, st: (rev_arr(be_bytes(w, a[0])), st))(_w)
    MODELS[_w + "::to_ne_bytes"] = MODELS[_w + "::to_le_bytes"]
    MODELS[_w + "::from_be_bytes"] = (lambda w: lambda cx, a, st: (from_be(w, a[0]), st))(_w)
    MODELS[_w + "::from_le_bytes"] = (lambda w: lambda cx, a, st: (from_be(w, a[0], True), st))(_w)
    MODELS[_w + "::from_ne_bytes"] = MODELS[_w + "::from_le_bytes"]
    MODELS[_w + "::pow"] = _m(lambda a, b: C(cval(a) ** cval(b)) if is_int(a) and is_int(b) else mul(a, a) if is_int(b) and cval(b) == 2 else T("ipow", a, b))
    if _w[0] == "u":
        MODELS[_w + "::saturating_sub"] = _m(lambda a, b: imax(sub(a, b), ZERO))
        MODELS[_w + "::checked_sub"] = _m(lambda a, b: ite(lt(a, b), NONE, some(sub(a, b))))
        MODELS[_w + "::abs_diff"] = _m(lambda a, b: T("iabs", sub(a, b)))
        MODELS[_w + "::is_multiple_of"] = _m(lambda a, b: eq(rem(a, b), ZERO))
    else:
        MODELS[_w + "::saturating_sub"] = _m(sub)
        MODELS[_w + "::checked_sub"] = _m(lambda a, b: some(sub(a, b)))
def _bytes(w): return {"8": 1, "16": 2, "32": 4, "64": 8}[w[1:]] if w[1:].isdigit() and w[1:] != "128" else 8
def be_bytes(w, v):
    n = _bytes(w)
    return mkagg("array", "", *[T("byte", i, n, v) for i in range(n)])      # i = 0 is most significant
def rev_arr(a): return mkagg("array", "", *a.args[:1:-1])
def from_be(w, a, le_=False):
    n = _bytes(w)
    it = [index(a, C(i)) for i in range(n)]
    if le_: it = it[::-1]
    if all(x.op == "byte" and x.args[0] == i and x.args[1] == n and x.args[2] is it[0].args[2] for i, x in enumerate(it)): return it[0].args[2]
    r = ZERO
    for x in it: r = add(mul(r, C(256)), x)
    return r
MODELS["f32::to_be_bytes"] = lambda cx, a, st: (mkagg("array", "", *[T("byte", i, 4, T("fbits", a[0])) for i in range(4)]), st)
MODELS["f32::to_le_bytes"] = lambda cx, a, st: (mkagg("array", "", *[T("byte", 3 - i, 4, T("fbits", a[0])) for i in range(4)]), st)
MODELS["f32::to_ne_bytes"] = MODELS["f32::to_le_bytes"]

def isf(cx):
    t = cx.targs[0]
    while t[0] == "ref": t = t[2]
    return t in (("prim", "f32"), ("prim", "f64"))
def isi(cx):
    t = cx.targs[0]
    while t[0] == "ref": t = t[2]
    return t[0] == "prim" and t not in (("prim", "f32"), ("prim", "f64"))
@tmodel(("core::cmp::Ord", "max"))
def omax(cx, a, st): return (imax(*[val(cx, x, st) for x in a]), st) if isi(cx) else NotImplemented
@tmodel(("core::cmp::Ord", "min"))
def omin(cx, a, st): return (imin(*[val(cx, x, st) for x in a]), st) if isi(cx) else NotImplemented
@tmodel(("core::cmp::Ord", "clamp"))
def oclamp(cx, a, st):
    if not isi(cx): return NotImplemented
    x, lo, hi = [val(cx, y, st) for y in a]
    return imin(imax(x, lo), hi), st
MODELS["core::cmp::min"] = lambda cx, a, st: (imin(*a), st) if isi(cx) else NotImplemented
MODELS["core::cmp::max"] = lambda cx, a, st: (imax(*a), st) if isi(cx) else NotImplemented
def arith(name, fi, ff):
    def m(cx, a, st):
        x, y = [val(cx, v, st) for v in a[:2]]
        if isf(cx):
            if name in ("Div", "Rem") and not (is_c(y) and cval(y) != 0): cx.E.ev("fdiv", name, cx.fr, st, cx.line, args=(x, y), ret=ff(x, y))
            return ff(x, y), st
        if isi(cx): return fi(x, y), st
        return NotImplemented
    TRAIT_MODELS[("core::ops::arith::" + name, name.lower())] = m
arith("Add", add, fadd); arith("Sub", sub, fsub); arith("Mul", mul, fmul); arith("Div", div, fdiv)
arith("Rem", rem, lambda a, b: T("frem", a, b))
def arith_as(name, fi, ff):
    def m(cx, a, st):
        x, y = val(cx, a[0], st), val(cx, a[1], st)
        if not (isf(cx) or isi(cx)): return NotImplemented
        if isf(cx) and name == "DivAssign" and not (is_c(y) and cval(y) != 0): cx.E.ev("fdiv", name, cx.fr, st, cx.line, args=(x, y))
        st = st.copy()
        cx.E.write(st, a[0], (ff if isf(cx) else fi)(x, y))
        return UNIT, st
    TRAIT_MODELS[("core::ops::arith::" + name, {"AddAssign": "add_assign", "SubAssign": "sub_assign", "MulAssign": "mul_assign", "DivAssign": "div_assign"}[name])] = m
arith_as("AddAssign", add, fadd); arith_as("SubAssign", sub, fsub); arith_as("MulAssign", mul, fmul); arith_as("DivAssign", div, fdiv)
@tmodel(("core::ops::arith::Neg", "neg"))
def neg_(cx, a, st):
    x = val(cx, a[0], st)
    return (fneg(x), st) if isf(cx) else (neg(x), st) if isi(cx) else NotImplemented
@tmodel(("core::ops::bit::Not", "not"))
def bnot(cx, a, st): return not_(val(cx, a[0], st)), st

STRS = (("str",),)
def _strip(t):
    while t and t[0] == "ref": t = t[2]
    return t
def gen_eq(cx, a, b, t, st):
    if t in (("prim", "f32"), ("prim", "f64")): return feq(a, b)
    if t[0] in ("array", "slice") or t[0] == "adt" and t[1] == "alloc::vec::Vec":
        et = t[1] if t[0] != "adt" else t[2][0]
        if t[0] == "array" and t[2][0] == "cv" and t[2][1] <= 8:
            return and_(*[gen_eq(cx, index(a, C(i)), index(b, C(i)), et, st) for i in range(t[2][1])])
        return eq(a, b)
    if t[0] == "adt" and t[1] == "core::option::Option" and t[2] and t[2][0][0] == "adt":
        return eq(a, b)
    return eq(a, b)
@tmodel(("core::cmp::PartialEq", "eq"))
def peq(cx, a, st):
    x, y = val(cx, a[0], st), val(cx, a[1], st)
    t = _strip(cx.targs[0])
    if t[0] == "adt" and t[1].startswith("d10"):
        r = cx.E.resolve_trait("core::cmp::PartialEq", "eq", (t,) + cx.targs[1:])
        if r: return NotImplemented
    return gen_eq(cx, x, y, t, st), st
@tmodel(("core::cmp::PartialEq", "ne"))
def pne(cx, a, st):
    t = _strip(cx.targs[0])
    if t[0] == "adt" and t[1].startswith("d10"):
        t2 = _strip(cx.targs[1]) if len(cx.targs) > 1 else t
        r = cx.E.call_named("core::cmp::PartialEq::eq", "core::cmp::PartialEq::eq", "core::cmp::PartialEq", "eq", (t, t2), None, a, cx.argtys, cx.destty, st, cx.fr, cx.line)
        if r is None: return None
        return not_(r[0]), r[1]
    r = peq(cx, a, st)
    return r if r is NotImplemented else (not_(r[0]), r[1])
for _n, _f in (("lt", lambda a, b, f, u: flt(a, b) if f else lt(a, b)), ("gt", lambda a, b, f, u: flt(b, a) if f else lt(b, a)),
               ("le", lambda a, b, f, u: fle(a, b) if f else le(a, b)), ("ge", lambda a, b, f, u: fle(b, a) if f else le(b, a))):
    def _mk(fn):
        def m(cx, a, st):
            x, y = val(cx, a[0], st), val(cx, a[1], st)
            if isf(cx) or isi(cx): return fn(x, y, isf(cx), False), st
            return NotImplemented
        return m
    TRAIT_MODELS[("core::cmp::PartialOrd", _n)] = _mk(_f)

@tmodel(("core::default::Default", "default"))
def default(cx, a, st):
    t = cx.targs[0]
    if t[0] == "prim":
        if t[1] in ("f32", "f64"): return C(Fraction(0)), st
        if t[1] == "bool": return FALSE, st
        return ZERO, st
    if t[0] == "adt" and t[1] == "core::option::Option": return NONE, st
    if t[0] == "adt" and t[1] == "alloc::vec::Vec": return EMPTY, st
    if t[0] == "tuple" and not t[1]: return UNIT, st
    return NotImplemented

# ---- ranges of an in-range test
@model("core::ops::range::Range::contains", "core::ops::range::RangeInclusive::contains")
def rcontains(cx, a, st):
    r, x = val(cx, a[0], st), val(cx, a[1], st)
    if r.op != "agg": return NotImplemented
    lo, hi = r.args[2], r.args[3]
    fl = _strip(cx.targs[0]) in (("prim", "f32"), ("prim", "f64"))
    L, LE = (flt, fle) if fl else (lt, le)
    return and_(LE(lo, x), LE(x, hi) if "Inclusive" in cx.path else L(x, hi)), st
@model("core::ops::range::RangeInclusive::new")
def rinew(cx, a, st): return T("agg", "adt:core::ops::range::RangeInclusive", "RangeInclusive", a[0], a[1], FALSE), st

# ---- Option / Result ---------------------------------------------------------------
def from_call(cx, v, t, s, st):
    """From::<s>::from(v) for t"""
    if t == s: return v, st
    return cx.E.call_named("core::convert::From::from", "core::convert::From::from", "core::convert::From", "from", (t, s), None,
                           [v], (s,), t, st, cx.fr, cx.line)
CF = "adt:core::ops::control_flow::ControlFlow"
@tmodel(("core::ops::try_trait::Try", "branch"))
def branch(cx, a, st):
    v = a[0]
    t = cx.targs[0]
    if t[1] == "core::option::Option":
        r = ite(isvar(v, "Some"), T("agg", CF, "Continue", fld(down(v, "Some"), 0)), T("agg", CF, "Break", NONE))
    elif t[1] == "core::result::Result":
        r = ite(isvar(v, "Ok"), T("agg", CF, "Continue", fld(down(v, "Ok"), 0)), T("agg", CF, "Break", err(fld(down(v, "Err"), 0))))
    else: return NotImplemented
    return r, st
@tmodel(("core::ops::try_trait::FromResidual", "from_residual"))
def from_residual(cx, a, st):
    t, r = cx.targs[0], cx.targs[1]
    if t[1] == "core::option::Option": return NONE, st
    if t[1] == "core::result::Result" and r[1] == "core::result::Result":
        e = fld(down(a[0], "Err"), 0)
        x = from_call(cx, e, t[2][1], r[2][1], st)
        if x is None: return None
        return err(x[0]), x[1]
    return NotImplemented
@tmodel(("core::ops::try_trait::Try", "from_output"))
def from_output(cx, a, st):
    t = cx.targs[0]
    return (some(a[0]) if t[1] == "core::option::Option" else ok(a[0])), st

def pay(v, var): return fld(down(v, var), 0)
def two(cx, st, c, f1, f2):
    """evaluate f1 under c and f2 under !c, merged"""
    from engine import merge_vals
    c = cx.E.known(st, c)
    if c is TRUE: return f1(st)
    if c is FALSE: return f2(st)
    return merge_vals([(c, f1(st.assume(c))), (not_(c), f2(st.assume(not_(c))))], st)
def variants(path): return ("Some", "None") if "Option" in path else ("Ok", "Err")
def opt(name):
    def d(f):
        for t in ("core::option::Option::", "core::result::Result::"):
            MODELS[t + name] = f
        return f
    return d
def wrap(path, x): return some(x) if "Option" in path else ok(x)
@opt("map")
def o_map(cx, a, st):
    v = val(cx, a[0], st); V, N = variants(cx.path)
    def f1(s):
        r = cx.callv(a[1], [pay(v, V)], s)
        return None if r is None else (wrap(cx.path, r[0]), r[1])
    return two(cx, st, isvar(v, V), f1, lambda s: (NONE if V == "Some" else err(pay(v, N)), s))
@opt("map_err")
def o_map_err(cx, a, st):
    v = val(cx, a[0], st)
    def f2(s):
        r = cx.callv(a[1], [pay(v, "Err")], s)
        return None if r is None else (err(r[0]), r[1])
    return two(cx, st, isvar(v, "Ok"), lambda s: (ok(pay(v, "Ok")), s), f2)
@opt("and_then")
def o_and_then(cx, a, st):
    v = val(cx, a[0], st); V, N = variants(cx.path)
    return two(cx, st, isvar(v, V), lambda s: cx.callv(a[1], [pay(v, V)], s), lambda s: (NONE if V == "Some" else err(pay(v, N)), s))
@opt("or_else")
def o_or_else(cx, a, st):
    v = val(cx, a[0], st); V, N = variants(cx.path)
    return two(cx, st, isvar(v, V), lambda s: (wrap(cx.path, pay(v, V)), s), lambda s: cx.callv(a[1], [] if V == "Some" else [pay(v, N)], s))
@opt("or")
def o_or(cx, a, st):
    v = val(cx, a[0], st); V, N = variants(cx.path)
    return ite(isvar(v, V), wrap(cx.path, pay(v, V)), a[1]), st
@opt("and")
def o_and(cx, a, st):
    v = val(cx, a[0], st); V, N = variants(cx.path)
    return ite(isvar(v, V), a[1], NONE if V == "Some" else err(pay(v, N))), st
@opt("unwrap_or")
def o_unwrap_or(cx, a, st):
    v = val(cx, a[0], st); V, N = variants(cx.path)
    return ite(isvar(v, V), pay(v, V), val(cx, a[1], st)), st
@opt("unwrap_or_else")
def o_unwrap_or_else(cx, a, st):
    v = val(cx, a[0], st); V, N = variants(cx.path)
    return two(cx, st, isvar(v, V), lambda s: (pay(v, V), s), lambda s: cx.callv(a[1], [] if V == "Some" else [pay(v, N)], s))
@opt("unwrap_or_default")
def o_unwrap_or_default(cx, a, st):
    v = val(cx, a[0], st); V, N = variants(cx.path)
    t = cx.targs[0]
    return two(cx, st, isvar(v, V), lambda s: (pay(v, V), s),
               lambda s: cx.E.call_named("core::default::Default::default", "core::default::Default::default", "core::default::Default", "default", (t,), None, [], (), t, s, cx.fr, cx.line))
@opt("map_or")
def o_map_or(cx, a, st):
    v = val(cx, a[0], st); V, N = variants(cx.path)
    return two(cx, st, isvar(v, V), lambda s: cx.callv(a[2], [pay(v, V)], s), lambda s: (a[1], s))
@opt("map_or_else")
def o_map_or_else(cx, a, st):
    v = val(cx, a[0], st); V, N = variants(cx.path)
    return two(cx, st, isvar(v, V), lambda s: cx.callv(a[2], [pay(v, V)], s), lambda s: cx.callv(a[1], [] if V == "Some" else [pay(v, N)], s))
@opt("is_some_and")
def o_is_some_and(cx, a, st):
    v = val(cx, a[0], st); V = "Some"
    return two(cx, st, isvar(v, V), lambda s: cx.callv(a[1], [pay(v, V)], s), lambda s: (FALSE, s))
@opt("is_ok_and")
def o_is_ok_and(cx, a, st):
    v = val(cx, a[0], st)
    return two(cx, st, isvar(v, "Ok"), lambda s: cx.callv(a[1], [pay(v, "Ok")], s), lambda s: (FALSE, s))
@opt("is_none_or")
def o_is_none_or(cx, a, st):
    v = val(cx, a[0], st)
    return two(cx, st, isvar(v, "Some"), lambda s: cx.callv(a[1], [pay(v, "Some")], s), lambda s: (TRUE, s))
@opt("filter")
def o_filter(cx, a, st):
    v = val(cx, a[0], st)
    def f1(s):
        r = cx.callv(a[1], [pay(v, "Some")], s)
        return None if r is None else (ite(r[0], some(pay(v, "Some")), NONE), r[1])
    return two(cx, st, isvar(v, "Some"), f1, lambda s: (NONE, s))
@opt("ok_or")
def o_ok_or(cx, a, st):
    v = val(cx, a[0], st)
    if _hasref(a[0]) : v = a[0]
    return ite(isvar(v, "Some"), ok(pay(v, "Some")), err(a[1])), st
def _hasref(v): return False
@opt("ok_or_else")
def o_ok_or_else(cx, a, st):
    v = val(cx, a[0], st)
    def f2(s):
        r = cx.callv(a[1], [], s)
        return None if r is None else (err(r[0]), r[1])
    return two(cx, st, isvar(v, "Some"), lambda s: (ok(pay(v, "Some")), s), f2)
@opt("ok")
def o_ok(cx, a, st):
    v = val(cx, a[0], st)
    return ite(isvar(v, "Ok"), some(pay(v, "Ok")), NONE), st
@opt("err")
def o_err(cx, a, st):
    v = val(cx, a[0], st)
    return ite(isvar(v, "Ok"), NONE, some(pay(v, "Err"))), st
for _n, _v in (("is_some", "Some"), ("is_none", "None"), ("is_ok", "Ok"), ("is_err", "Err")):
    (lambda n, v: opt(n)(lambda cx, a, st: (isvar(val(cx, a[0], st), v), st)))(_n, _v)
@opt("unwrap")
@opt("expect")
def o_unwrap(cx, a, st):
    v = val(cx, a[0], st); V, N = variants(cx.path)
    c = cx.E.known(st, isvar(v, V))
    cx.E.ev("panic", cx.path, cx.fr, st, cx.line, ret=not_(c), args=(v,))
    if c is FALSE: return None
    return pay(v, V), st.assume(c)
@opt("unwrap_err")
@opt("expect_err")
def o_unwrap_err(cx, a, st):
    v = val(cx, a[0], st)
    c = isvar(v, "Err")
    cx.E.ev("panic", cx.path, cx.fr, st, cx.line, ret=not_(c), args=(v,))
    if c is FALSE: return None
    return pay(v, "Err"), st.assume(c)
@opt("unwrap_unchecked")
def o_unwrap_un(cx, a, st):
    v = val(cx, a[0], st); V, N = variants(cx.path)
    return pay(v, V), st
for _n in ("cloned", "copied", "as_ref", "as_deref", "into_iter_", "as_slice"):
    opt(_n)(lambda cx, a, st: (val(cx, a[0], st), st))
@opt("as_mut")
def o_as_mut(cx, a, st):
    v = val(cx, a[0], st); V, N = variants(cx.path)
    nm = ("f", 0, "0", "adt:core::option::Option" if V == "Some" else RES, ("0",), V)
    r = cx.E.refpath(cx.E.refpath(a[0], ("v", V)), nm)
    if V == "Some": return ite(isvar(v, V), some(r), NONE), st
    return ite(isvar(v, V), ok(r), err(pay(v, N))), st
@opt("take")
def o_take(cx, a, st):
    v = val(cx, a[0], st)
    st = st.copy(); cx.E.write(st, a[0], NONE)
    return v, st
@opt("replace")
def o_replace(cx, a, st):
    v = val(cx, a[0], st)
    st = st.copy(); cx.E.write(st, a[0], some(a[1]))
    return v, st
@opt("insert")
@opt("get_or_insert")
def o_insert(cx, a, st):
    st = st.copy(); cx.E.write(st, a[0], some(a[1]))
    return cx.E.refpath(cx.E.refpath(a[0], ("v", "Some")), ("f", 0, "0", OPT, ("0",), "Some")), st
@opt("zip")
def o_zip(cx, a, st):
    x, y = val(cx, a[0], st), val(cx, a[1], st)
    return ite(and_(isvar(x, "Some"), isvar(y, "Some")), some(tup(pay(x, "Some"), pay(y, "Some"))), NONE), st
@opt("transpose")
def o_transpose(cx, a, st):
    v = val(cx, a[0], st)
    if "Option" in cx.path:
        i = pay(v, "Some")
        return ite(isvar(v, "Some"), ite(isvar(i, "Ok"), ok(some(pay(i, "Ok"))), err(pay(i, "Err"))), ok(NONE)), st
    i = pay(v, "Ok")
    return ite(isvar(v, "Ok"), ite(isvar(i, "Some"), some(ok(pay(i, "Some"))), NONE), some(err(pay(v, "Err")))), st
@opt("flatten")
def o_flatten(cx, a, st):
    v = val(cx, a[0], st); V, N = variants(cx.path)
    return ite(isvar(v, V), pay(v, V), NONE if V == "Some" else err(pay(v, N))), st
@opt("inspect_err")
@opt("inspect")
def o_inspect(cx, a, st): return val(cx, a[0], st), st

MODELS["bool::then"] = lambda cx, a, st: two(cx, st, a[0], lambda s: (lambda r: None if r is None else (some(r[0]), r[1]))(cx.callv(a[1], [], s)), lambda s: (NONE, s))
MODELS["bool::then_some"] = lambda cx, a, st: (ite(a[0], some(a[1]), NONE), st)

@model("core::mem::replace")
def mreplace(cx, a, st):
    v = val(cx, a[0], st); st = st.copy(); cx.E.write(st, a[0], a[1]); return v, st
@model("core::mem::swap")
def mswap(cx, a, st):
    x, y = val(cx, a[0], st), val(cx, a[1], st); st = st.copy()
    cx.E.write(st, a[0], y); cx.E.write(st, a[1], x); return UNIT, st
@model("core::mem::take")
def mtake(cx, a, st):
    v = val(cx, a[0], st)
    t = cx.targs[0]
    r = cx.E.call_named("core::default::Default::default", "core::default::Default::default", "core::default::Default", "default", (t,), None, [], (), t, st, cx.fr, cx.line)
    st = r[1].copy(); cx.E.write(st, a[0], r[0]); return v, st
@model("core::mem::drop")
def mdrop(cx, a, st):
    cx.E.ev("drop", "mem::drop", cx.fr, st, cx.line, args=tuple(val(cx, x, st) for x in a), extra=cx.targs[0] if cx.targs else None)
    return UNIT, st

# ---- Vec / slice -----------------------------------------------------------------------
@model("alloc::vec::Vec::new", "alloc::vec::Vec::with_capacity")
def vnew(cx, a, st): return EMPTY, st
@model("alloc::vec::from_elem")
def from_elem(cx, a, st): return rep(a[0], a[1]), st
@model("alloc::boxed::box_assume_init_into_vec_unsafe", "alloc::slice::into_vec", "alloc::slice::{impl#0}::into_vec")
def boxvec(cx, a, st): return val(cx, a[0], st), st
@model("alloc::boxed::Box::new_uninit")
def box_uninit(cx, a, st):
    s = st.copy(); r = cx.E.newref(s, T("uninit"), "B"); return r, s
@model("alloc::boxed::box_new")
def box_new(cx, a, st): return a[0], st
@model("alloc::vec::Vec::push", "alloc::string::String::push")
def vpush(cx, a, st):
    if "String" in cx.path:
        s = st.copy(); cx.E.write(s, a[0], T("strcat", val(cx, a[0], st), a[1])); return UNIT, s
    s = st.copy(); v = val(cx, a[0], st)
    cx.E.write(s, a[0], catv(v, mkagg("array", "", a[1]))); return UNIT, s
def catv(v, x):
    if v.op == "ite" and False: pass
    return cat(v, x)
@model("alloc::string::String::push_str")
def spush(cx, a, st):
    s = st.copy(); cx.E.write(s, a[0], T("strcat", val(cx, a[0], st), val(cx, a[1], st))); return UNIT, s
@model("alloc::vec::Vec::extend_from_slice")
def vext(cx, a, st):
    s = st.copy(); cx.E.write(s, a[0], catv(val(cx, a[0], st), val(cx, a[1], st))); return UNIT, s
@model("alloc::vec::Vec::append")
def vappend(cx, a, st):
    s = st.copy(); cx.E.write(s, a[0], catv(val(cx, a[0], st), val(cx, a[1], st))); cx.E.write(s, a[1], EMPTY); return UNIT, s
@tmodel(("core::iter::traits::collect::Extend", "extend"))
def vextend(cx, a, st):
    t = cx.targs[0]
    if t[0] != "adt" or t[1] != "alloc::vec::Vec": return NotImplemented
    r = to_seq(cx, mk_iter(cx, a[1], cx.argtys[1] if cx.argtys else None, st), st)
    if r is None: return NotImplemented
    s = r[1].copy(); cx.E.write(s, a[0], catv(val(cx, a[0], s), r[0])); return UNIT, s
@model("alloc::vec::Vec::reserve", "alloc::vec::Vec::shrink_to_fit", "alloc::vec::Vec::reserve_exact")
def vreserve(cx, a, st): return UNIT, st
@model("alloc::vec::Vec::clear")
def vclear(cx, a, st): s = st.copy(); cx.E.write(s, a[0], EMPTY); return UNIT, s
@model("alloc::vec::Vec::truncate")
def vtrunc(cx, a, st):
    s = st.copy(); v = val(cx, a[0], st); cx.E.write(s, a[0], slice_(v, ZERO, imin(a[1], seqlen(v)))); return UNIT, s
@model("alloc::vec::Vec::resize")
def vresize(cx, a, st):
    s = st.copy(); v = val(cx, a[0], st); n = seqlen(v)
    cx.E.write(s, a[0], catv(v, rep(a[2], sub(a[1], n)))); return UNIT, s
@model("alloc::vec::Vec::len", "[T]::len", "str::len", "alloc::string::String::len", "[_;_]::len")
def vlen(cx, a, st): return seqlen(val(cx, a[0], st)), st
@model("alloc::vec::Vec::is_empty", "[T]::is_empty", "str::is_empty", "alloc::string::String::is_empty")
def vempty(cx, a, st): return eq(seqlen(val(cx, a[0], st)), ZERO), st
@model("[T]::iter", "alloc::vec::Vec::iter", "[_;_]::iter")
def siter(cx, a, st): return T("iter", T("sseq", val(cx, a[0], st)), ZERO), st
@model("[T]::iter_mut", "alloc::vec::Vec::iter_mut")
def sitermut(cx, a, st): return T("iter", T("smut", a[0]), ZERO), st
@model("[T]::chunks", "[T]::chunks_exact")
def schunks(cx, a, st): return T("iter", T("schunk", val(cx, a[0], st), a[1]), ZERO), st
@model("[T]::chunks_mut", "[T]::chunks_exact_mut")
def schunksm(cx, a, st): return T("iter", T("schunkmut", a[0], a[1]), ZERO), st
@model("[T]::windows")
def swin(cx, a, st): return T("iter", T("swin", val(cx, a[0], st), a[1]), ZERO), st
@model("[T]::copy_from_slice", "[T]::clone_from_slice")
def copy_from(cx, a, st):
    s = st.copy(); x = val(cx, a[1], st)
    cx.E.write(s, a[0], x); return UNIT, s
@model("[T]::fill")
def sfill(cx, a, st):
    s = st.copy(); v = val(cx, a[0], st); cx.E.write(s, a[0], rep(a[1], seqlen(v))); return UNIT, s
@model("[T]::swap")
def sswap(cx, a, st):
    s = st.copy(); v = val(cx, a[0], st)
    x, y = index(v, a[1]), index(v, a[2])
    cx.E.write(s, a[0], store(store(v, a[1], y), a[2], x)); return UNIT, s
@model("[T]::reverse")
def sreverse(cx, a, st):
    s = st.copy(); v = val(cx, a[0], st); n = seqlen(v); k = bounded("k", n)
    cx.E.write(s, a[0], gen(k, n, index(v, sub(sub(n, ONE), k)))); return UNIT, s
@model("[T]::get")
def sget(cx, a, st):
    v = val(cx, a[0], st)
    if a[1].op == "agg":
        r = range_of(a[1], v)
        if r is None: return NotImplemented
        return some(slice_(v, *r)), st
    return ite(lt(a[1], seqlen(v)), some(index(v, a[1])), NONE), st
@model("[T]::get_mut")
def sgetm(cx, a, st):
    v = val(cx, a[0], st)
    return ite(lt(a[1], seqlen(v)), some(cx.E.refpath(a[0], ("i", a[1]))), NONE), st
@model("[T]::first")
def sfirst(cx, a, st):
    v = val(cx, a[0], st); return ite(eq(seqlen(v), ZERO), NONE, some(index(v, ZERO))), st
@model("[T]::last")
def slast(cx, a, st):
    v = val(cx, a[0], st); n = seqlen(v); return ite(eq(n, ZERO), NONE, some(index(v, sub(n, ONE)))), st
@model("[T]::first_mut")
def sfirstm(cx, a, st):
    v = val(cx, a[0], st); return ite(eq(seqlen(v), ZERO), NONE, some(cx.E.refpath(a[0], ("i", ZERO)))), st
@model("[T]::last_mut")
def slastm(cx, a, st):
    v = val(cx, a[0], st); n = seqlen(v); return ite(eq(n, ZERO), NONE, some(cx.E.refpath(a[0], ("i", sub(n, ONE))))), st
@model("[T]::split_first")
def ssplitf(cx, a, st):
    v = val(cx, a[0], st); n = seqlen(v); return ite(eq(n, ZERO), NONE, some(tup(index(v, ZERO), slice_(v, ONE, sub(n, ONE))))), st
@model("[T]::split_last")
def ssplitl(cx, a, st):
    v = val(cx, a[0], st); n = seqlen(v); return ite(eq(n, ZERO), NONE, some(tup(index(v, sub(n, ONE)), slice_(v, ZERO, sub(n, ONE))))), st
@model("alloc::vec::Vec::pop")
def vpop(cx, a, st):
    v = val(cx, a[0], st); n = seqlen(v); s = st.copy()
    cx.E.write(s, a[0], ite(eq(n, ZERO), v, slice_(v, ZERO, sub(n, ONE))))
    return ite(eq(n, ZERO), NONE, some(index(v, sub(n, ONE)))), s
@model("[T]::split_at")
def ssplit(cx, a, st):
    v = val(cx, a[0], st); return tup(slice_(v, ZERO, a[1]), slice_(v, a[1], sub(seqlen(v), a[1]))), st
@model("[T]::split_at_mut")
def ssplitm(cx, a, st):
    v = val(cx, a[0], st)
    return tup(cx.E.refpath(a[0], ("s", ZERO, a[1])), cx.E.refpath(a[0], ("s", a[1], sub(seqlen(v), a[1])))), st
@model("[T]::contains")
def scontains(cx, a, st):
    v, x = val(cx, a[0], st), val(cx, a[1], st); k = bounded("k", seqlen(v))
    return exists(k, seqlen(v), eq(index(v, k), x)), st
def range_of(r, v):
    """(start, len) of a range value over sequence v"""
    n = seqlen(v)
    if r.op != "agg": return None
    k = r.args[0].split("::")[-1]
    if k == "Range": return r.args[2], sub(r.args[3], r.args[2])
    if k == "RangeTo": return ZERO, r.args[2]
    if k == "RangeFrom": return r.args[2], sub(n, r.args[2])
    if k == "RangeFull": return ZERO, n
    if k == "RangeInclusive": return r.args[2], add(sub(r.args[3], r.args[2]), ONE)
    if k == "RangeToInclusive": return ZERO, add(r.args[2], ONE)
    return None
@tmodel(("core::ops::index::Index", "index"))
def sindex(cx, a, st):
    v = val(cx, a[0], st)
    t = _strip(cx.targs[0])
    if not (t[0] in ("array", "slice", "str") or t[0] == "adt" and t[1] in ("alloc::vec::Vec", "alloc::string::String")): return NotImplemented
    if a[1].op == "agg" or a[1].op not in ("poly",) and cx.targs[1][0] == "adt":
        r = range_of(a[1], v)
        if r is None: return NotImplemented
        cx.E.ev("assert", "range", cx.fr, st, cx.line, args=(v,) + r, ret=le(add(*r), seqlen(v)))
        return slice_(v, *r), st
    cx.E.ev("assert", "bounds", cx.fr, st, cx.line, args=(seqlen(v), a[1]), ret=cx.E.known(st, lt(a[1], seqlen(v))))
    return index(v, a[1]), st
@tmodel(("core::ops::index::IndexMut", "index_mut"))
def sindexm(cx, a, st):
    v = val(cx, a[0], st)
    t = _strip(cx.targs[0])
    if not (t[0] in ("array", "slice", "str") or t[0] == "adt" and t[1] in ("alloc::vec::Vec",)): return NotImplemented
    if a[1].op == "agg":
        r = range_of(a[1], v)
        if r is None: return NotImplemented
        cx.E.ev("assert", "range", cx.fr, st, cx.line, args=(v,) + r, ret=le(add(*r), seqlen(v)))
        if r[0] is ZERO and r[1] is seqlen(v): return a[0], st
        return cx.E.refpath(a[0], ("s",) + r), st
    cx.E.ev("assert", "bounds", cx.fr, st, cx.line, args=(seqlen(v), a[1]), ret=cx.E.known(st, lt(a[1], seqlen(v))))
    return cx.E.refpath(a[0], ("i", a[1])), st
@model("core::array::from_fn")
def arr_from_fn(cx, a, st):
    n = cx.targs[1] if len(cx.targs) > 1 else ("?",)
    nt = None
    for t in cx.targs:
        if t and t[0] in ("cv", "cterm"): nt = _en().const_len(t)
        elif t and t[0] == "param" and len(t) == 3 and t is not cx.targs[0] and nt is None: nt = sym(str(t[-1]))
    if cx.destty and cx.destty[0] == "array":
        d = cx.destty[2]; nt = _en().const_len(d)
    if nt is None: return NotImplemented
    return map_seq(cx, st, nt, lambda i, s: cx.callv(a[0], [i], s))
@model("[_;_]::map")
def arr_map(cx, a, st):
    v = val(cx, a[0], st)
    if cx.destty and cx.destty[0] == "array" and cx.destty[2][0] == "cv": tm.ARR_N.setdefault(v, cx.destty[2][1])
    return map_seq(cx, st, seqlen(v), lambda i, s: cx.callv(a[1], [index(v, i)], s))
def map_seq(cx, st, n, f):
    """sequence of f(i) for i<n, effects threaded"""
    if is_int(n) and cval(n) <= 16:
        out = []
        for i in range(cval(n)):
            r = f(C(i), st)
            if r is None: return None
            out.append(r[0]); st = r[1]
        return mkagg("array", "", *out), st
    k = bounded("k", n)
    E = cx.E
    mark = len(E.events)
    outer = E.loops
    E.loops = outer + ((k, n),)
    r = f(k, st)
    E.loops = outer
    if r is None: return None
    if pure(st, r[1]):
        return gen(k, n, r[0]), State_(st)
    del E.events[mark:]
    s = st.copy()
    acc = E.newref(s, EMPTY, "A"); cnt = E.newref(s, ZERO, "A")
    def body(s):
        i = E.read(s, cnt)
        c = lt(i, n)
        s1 = s.assume(c)
        r = f(i, s1)
        out = {"done": (not_(c), s)}
        if r is not None:
            s2 = r[1].copy()
            E.write(s2, acc, cat(E.read(s2, acc), mkagg("array", "", r[0])))
            E.write(s2, cnt, add(E.read(s2, cnt), ONE))
            out["cont"] = (c, s2)
        return out
    ex = E.solve_loop(s, body, "map")
    for kk, c, s3 in ex:
        if kk == "done": return E.read(s3, acc), drop_tmp(s3, acc, cnt)
    return None
def drop_tmp(s, *refs):
    s = s.copy()
    for r in refs: s.store.pop(r.args[0], None)
    return s
def State_(st): return st
def pure(s1, s2):
    for k, v in s1.store.items():
        if s2.store.get(k) is not v: return False
    for k, v in s2.store.items():
        if k not in s1.store and k[0] == "D": return False
    return True

# ---- iterators ---------------------------------------------------------------------------
def mk_iter(cx, v, ty, st):
    """IntoIterator::into_iter as an 'iter' term (or the value itself for user iterators)"""
    if v.op == "iter": return v
    t = ty
    while t and t[0] == "ref" and not t[1]: t = t[2]
    if v.op == "ref" or v.op == "ite" and t and t[0] == "ref":
        w = cx.E.read(st, v)
        if w.op == "iter": return v          # &mut Iterator
        if t and t[0] == "ref" and t[2][0] == "param": return v
        return T("iter", T("smut", v), ZERO)
    if v.op == "agg" and v.args[0] == "adt:core::ops::range::Range": return T("iter", T("srange", v.args[2], v.args[3]), ZERO)
    if v.op == "agg" and v.args[0] == "adt:core::ops::range::RangeInclusive": return T("iter", T("srange", v.args[2], add(v.args[3], ONE)), ZERO)
    if v.op == "agg" and v.args[0] == "adt:core::ops::range::RangeFrom": return T("iter", T("srange", v.args[2], T("inf")), ZERO)
    if v.op == "agg" and v.args[0] == OPT or v.op == "ite" and t and t[0] == "adt" and t[1] == "core::option::Option":
        return T("iter", T("sseq", ite(isvar(v, "Some"), mkagg("array", "", pay(v, "Some")), EMPTY)), ZERO)
    if t and (t[0] in ("array", "slice") or t[0] == "adt" and t[1] in ("alloc::vec::Vec", "alloc::boxed::Box")): return T("iter", T("sseq", v), ZERO)
    if t and t[0] == "ref" and t[1]: return T("iter", T("smut", v), ZERO) if t[2][0] in ("array", "slice", "adt") else v
    if v.op in ("agg",) and v.args[0] == "array" or v.op in ("gen", "flat", "scatter", "cat", "slice"): return T("iter", T("sseq", v), ZERO)
    if t and t[0] == "adt" and cx.E.resolve_trait(ITER, "next", (t,)) is None: return T("iter", T("sopq", v), ZERO)
    if t and t[0] == "param": return v
    return v
@model("core::iter::sources::repeat::repeat")
def it_repeat(cx, a, st): return T("iter", T("srepeat", a[0]), ZERO), st
@model("core::iter::sources::repeat_n::repeat_n")
def it_repeat_n(cx, a, st): return T("iter", T("stake", T("srepeat", a[0]), a[1]), ZERO), st
@model("core::iter::sources::repeat_with::repeat_with")
def it_repeat_with(cx, a, st): return T("iter", T("srepw", a[0]), ZERO), st
@model("core::iter::sources::once::once")
def it_once(cx, a, st): return T("iter", T("sseq", mkagg("array", "", a[0])), ZERO), st
@model("core::iter::sources::empty::empty")
def it_empty(cx, a, st): return T("iter", T("sseq", EMPTY), ZERO), st
@model("core::iter::adapters::zip::zip")
def it_zip(cx, a, st):
    return T("iter", T("szip", skip0(mk_iter(cx, a[0], cx.targs[0], st)), skip0(mk_iter(cx, a[1], cx.targs[1], st))), ZERO), st
@tmodel((INTO, "into_iter"))
def into_iter(cx, a, st):
    t = _strip(cx.targs[0])
    if t[0] == "adt" and t[1].startswith("d10") and cx.E.resolve_trait(INTO, "into_iter", (t,)): return NotImplemented
    v = mk_iter(cx, a[0], cx.targs[0], st)
    if v.op == "iter" and variable(v.args[0]) and v.args[0].op != "suser":
        # drain filters and flat maps without side effects once, before the loop
        n = len(cx.E.events)
        r = src_seq(cx, skip0(v), st)
        if r is not None and pure(st, r[1]) and r[0].op != "items": return T("iter", T("sseq", r[0]), ZERO), r[1]
        del cx.E.events[n:]
    return v, st

def src_len(E, s, st):
    o = s.op
    if o == "sseq": return seqlen(s.args[0])
    if o == "smut": return seqlen(E.read(st, s.args[0]))
    if o == "srange": return T("inf") if s.args[1].op == "inf" else sub(s.args[1], s.args[0])
    if o in ("smap", "senum", "srev", "sinspect", "speek"): return src_len(E, s.args[0], st)
    if o == "szip":
        a, b = src_len(E, s.args[0], st), src_len(E, s.args[1], st)
        if a.op == "inf": return b
        if b.op == "inf": return a
        return imin(a, b)
    if o == "schain": return add(src_len(E, s.args[0], st), src_len(E, s.args[1], st))
    if o == "stake":
        l = src_len(E, s.args[0], st)
        return s.args[1] if l.op == "inf" else imin(l, s.args[1])
    if o == "sskip": 
        l = src_len(E, s.args[0], st)
        return l if l.op == "inf" else imax(sub(l, s.args[1]), ZERO) if not (is_int(sub(l, s.args[1])) and cval(sub(l, s.args[1])) >= 0) else sub(l, s.args[1])
    if o == "sstep":
        l = src_len(E, s.args[0], st)
        return div(add(l, sub(s.args[1], ONE)), s.args[1])
    if o in ("schunk",):
        return chunks_len(seqlen(s.args[0]), s.args[1])
    if o == "schunkmut": return chunks_len(seqlen(E.read(st, s.args[0])), s.args[1])
    if o == "swin": return add(sub(seqlen(s.args[0]), s.args[1]), ONE)
    if o in ("srepeat", "srepw"): return T("inf")
    return T("len", s)
def chunks_len(n, c):
    q = div(n, c)
    return q
def src_item(cx, s, i, st):
    """(value, state) of item i; None on divergence"""
    E = cx.E
    o = s.op
    if o == "sseq": return index(s.args[0], i), st
    if o == "smut": return E.refpath(s.args[0], ("i", i)), st
    if o == "srange": return add(s.args[0], i), st
    if o == "smap":
        r = src_item(cx, s.args[0], i, st)
        if r is None: return None
        return cx.callv(s.args[1], [r[0]], r[1])
    if o == "sinspect": return src_item(cx, s.args[0], i, st)
    if o == "speek": return src_item(cx, s.args[0], i, st)
    if o == "senum":
        r = src_item(cx, s.args[0], i, st)
        return None if r is None else (tup(add(i, s.args[1]) if len(s.args) > 1 else i, r[0]), r[1])
    if o == "szip":
        r = src_item(cx, s.args[0], i, st)
        if r is None: return None
        q = src_item(cx, s.args[1], i, r[1])
        return None if q is None else (tup(r[0], q[0]), q[1])
    if o == "srev":
        n = src_len(E, s.args[0], st)
        return src_item(cx, s.args[0], sub(sub(n, ONE), i), st)
    if o == "schain":
        n = src_len(E, s.args[0], st)
        return two(cx, st, lt(i, n), lambda z: src_item(cx, s.args[0], i, z), lambda z: src_item(cx, s.args[1], sub(i, n), z))
    if o == "stake": return src_item(cx, s.args[0], i, st)
    if o == "sskip": return src_item(cx, s.args[0], add(i, s.args[1]), st)
    if o == "sstep": return src_item(cx, s.args[0], mul(i, s.args[1]), st)
    if o == "schunk": return slice_(s.args[0], mul(i, s.args[1]), s.args[1]), st
    if o == "schunkmut": return E.refpath(s.args[0], ("s", mul(i, s.args[1]), s.args[1])), st
    if o == "swin": return slice_(s.args[0], i, s.args[1]), st
    if o == "srepeat": return s.args[0], st
    if o == "srepw": return cx.callv(s.args[0], [], st)
    return T("index", s, i), st
def variable(s):
    """does the source contain filters (unknown length)?"""
    return s.op in ("sfilter", "sflatmap", "sfiltermap", "suser", "stakewhile", "smapwhile") or any(isinstance(x, Term) and x.op[0] == "s" and x.op in SRCS and variable(x) for x in s.args)
SRCS = ("sseq", "smut", "srange", "smap", "senum", "szip", "srev", "schain", "stake", "sskip", "sstep", "schunk", "schunkmut", "swin", "sfilter",
        "sflatmap", "sfiltermap", "sopq", "sinspect", "speek", "srepeat", "srepw", "suser", "stakewhile", "smapwhile")

def skip0(it):
    """source of an iterator with its position applied"""
    s, p = it.args
    if p is ZERO: return s
    if s.op == "sseq": return T("sseq", slice_(s.args[0], p, sub(seqlen(s.args[0]), p)))
    return T("sskip", s, p)

def to_seq(cx, it, st, wrap_=None):
    """(sequence term, state) of all remaining items"""
    E = cx.E
    if it.op == "ref":
        w = E.read(st, it)
        if w.op == "iter":
            r = to_seq(cx, w, st)
            return r
        return user_seq(cx, it, st)
    if it.op != "iter":
        return user_seq(cx, it, st)
    return src_seq(cx, skip0(it), st)
def src_seq(cx, s, st):
    E = cx.E
    if not variable(s):
        if s.op == "sseq": return s.args[0], st
        n = src_len(E, s, st)
        if n.op == "inf" or n.op == "len" and n.args[0].op in SRCS: 
            return T("items", s), st
        return map_seq(cx, st, n, lambda i, z: src_item(cx, s, i, z))
    if s.op in ("sfilter", "sfiltermap", "sflatmap"):
        r = src_seq(cx, s.args[0], st)
        if r is None: return None
        q, st = r
        n = seqlen(q); k = bounded("k", n)
        outer = E.loops; E.loops = outer + ((k, n),)
        x = cx.callv(s.args[1], [index(q, k)], st)
        if x is None: E.loops = outer; return None
        if s.op == "sflatmap":
            y = to_seq(cx, mk_iter(cx, x[0], None, x[1]), x[1])
            E.loops = outer
            if y is None: return None
            return flat(k, n, y[0]), (st if pure(st, y[1]) else y[1])
        E.loops = outer
        if s.op == "sfilter": b = ite(x[0], mkagg("array", "", index(q, k)), EMPTY)
        else: b = ite(isvar(x[0], "Some"), mkagg("array", "", pay(x[0], "Some")), EMPTY)
        return flat(k, n, b), (st if pure(st, x[1]) else x[1])
    if s.op in ("smap", "senum", "srev", "stake", "sskip", "szip", "schain", "sinspect"):
        r = src_seq(cx, s.args[0], st)
        if r is None: return None
        s2 = T(s.op, T("sseq", r[0]), *s.args[1:])
        if s.op in ("szip", "schain"):
            r2 = src_seq(cx, s.args[1], r[1])
            if r2 is None: return None
            s2 = T(s.op, T("sseq", r[0]), T("sseq", r2[0])); r = r2
        return src_seq(cx, s2, r[1])
    if s.op == "suser": return user_seq(cx, s.args[0], st)
    return T("items", s), st
def next_of(cx, ref, st, ty=None, env=()):
    """call Iterator::next on the iterator object behind ref"""
    E = cx.E
    v = E.read(st, ref)
    if v.op == "iter": return iter_next(cx, ref, v, st)
    if v.op == "ref": return next_of(cx, v, st)
    t = ty
    if v.op == "agg" and v.args[0].startswith("adt:"):
        p = v.args[0][4:]
        for imp in E.F.impl_by_trait.get(ITER, ()):
            if imp["self"][0] == "adt" and imp["self"][1] == p:
                for itn in imp["items"]:
                    if itn[0] == "next":
                        b = E.F.bodies.get(itn[1])
                        if b and env:     # the impl's parameters are the type's in order; indices may skip lifetimes
                            gs = sorted(g[0] for g in b["generics"])
                            e = [None] * (max(gs) + 1 if gs else 0)
                            for g, x in zip(gs, env): e[g] = x
                            env = tuple(e)
                        if b: return E.eval_body(b, b["body"], env, [ref], st, cx.fr)
    ret = T("call", ITER + "::next", (), v)
    s = st.copy(); E.write(s, ref, T("post", 0, ret))
    return ret, s
def user_seq(cx, it, st):
    """materialise a user-defined iterator by its own next()"""
    E = cx.E
    s = st.copy()
    ref = it if it.op == "ref" else E.newref(s, it, "U")
    v0 = E.read(s, ref)
    env = tm.ADT_ARGS.get(v0, ())
    if it.op in ("sym", "call", "fld", "post"):
        return T("items", it), st
    acc = E.newref(s, EMPTY, "A")
    def body(s):
        r = next_of(cx, ref, s, env=env)
        if r is None: return {}
        v, s2 = r
        c = isvar(v, "Some")
        s3 = s2.assume(c).copy()
        E.write(s3, acc, cat(E.read(s3, acc), mkagg("array", "", pay(v, "Some"))))
        return {"cont": (c, s3), "done": (not_(c), s2)}
    for kk, c, s3 in E.solve_loop(s, body, "user iterator"):
        if kk == "done": return E.read(s3, acc), drop_tmp(s3, acc, *([ref] if it.op != "ref" else []))
    return None
def iter_next(cx, ref, v, st):
    E = cx.E
    src, p = v.args
    if variable(src):
        r = src_seq(cx, src, st)
        if r is None: return None
        src = T("sseq", r[0]); st = r[1]
    n = src_len(E, src, st)
    c = lt(p, n) if n.op != "inf" else TRUE
    c = E.known(st, c)
    def f1(s):
        r = src_item(cx, src, p, s)
        if r is None: return None
        s2 = r[1].copy(); E.write(s2, ref, T("iter", src, add(p, ONE)))
        return some(r[0]), s2
    def f2(s):      # position past the end is harmless: the iterator stays exhausted
        s2 = s.copy(); E.write(s2, ref, T("iter", src, add(p, ONE)))
        return NONE, s2
    return two(cx, st, c, f1, f2)

@tmodel((ITER, "next"))
def it_next(cx, a, st):
    v = cx.E.read(st, a[0])
    if v.op == "iter": return iter_next(cx, a[0], v, st)
    if v.op == "ref" and cx.E.read(st, v).op == "iter": return iter_next(cx, v, cx.E.read(st, v), st)
    if v.op == "agg" and v.args[0] == "adt:core::ops::range::Range":
        s = st.copy()
        lo, hi = v.args[2], v.args[3]
        s2 = s.copy(); cx.E.write(s2, a[0], mkagg(v.args[0], v.args[1], add(lo, ONE), hi))
        return two(cx, st, lt(lo, hi), lambda z: (some(lo), State2(z, cx, a[0], v, lo, hi)), lambda z: (NONE, z))
    if v.op == "agg": return next_of(cx, a[0], st, cx.targs[0])
    return NotImplemented
def State2(z, cx, r, v, lo, hi):
    z = z.copy(); cx.E.write(z, r, mkagg(v.args[0], v.args[1], add(lo, ONE), hi)); return z

def it_of(cx, v, ty, st):
    """an 'iter' source for adaptor receivers"""
    if v.op == "ref":
        w = cx.E.read(st, v)
        if w.op == "iter": return skip0(w)
        return T("suser", v)
    x = mk_iter(cx, v, ty, st)
    if x.op == "iter": return skip0(x)
    return T("suser", x)
def adaptor(name, f):
    def m(cx, a, st):
        s = it_of(cx, a[0], cx.targs[0] if cx.targs else None, st)
        if s.op == "suser" and name not in ("cloned", "copied", "by_ref"):
            r = user_seq(cx, s.args[0], st)
            if r is None: return None
            s, st = T("sseq", r[0]), r[1]
        return T("iter", f(cx, s, a, st), ZERO), st
    TRAIT_MODELS[(ITER, name)] = m
adaptor("map", lambda cx, s, a, st: T("smap", s, a[1]))
adaptor("enumerate", lambda cx, s, a, st: T("senum", s))
adaptor("rev", lambda cx, s, a, st: T("srev", s))
adaptor("cloned", lambda cx, s, a, st: s)
adaptor("copied", lambda cx, s, a, st: s)
adaptor("take", lambda cx, s, a, st: T("stake", s, a[1]))
adaptor("skip", lambda cx, s, a, st: T("sskip", s, a[1]) if a[1] is not ZERO else s)
adaptor("step_by", lambda cx, s, a, st: T("sstep", s, a[1]))
adaptor("filter", lambda cx, s, a, st: T("sfilter", s, a[1]))
adaptor("filter_map", lambda cx, s, a, st: T("sfiltermap", s, a[1]))
adaptor("flat_map", lambda cx, s, a, st: T("sflatmap", s, a[1]))
adaptor("flatten", lambda cx, s, a, st: T("sflatmap", s, T("fn", "identity", "core::convert::identity", ())))
adaptor("fuse", lambda cx, s, a, st: s)
adaptor("peekable", lambda cx, s, a, st: s)
adaptor("inspect", lambda cx, s, a, st: s)
adaptor("cycle", lambda cx, s, a, st: T("scycle", s))
def _second(cx, v, st):
    t = None
    for x in cx.targs[1:]:
        t = x
    return it_of(cx, v, cx.argtys[1] if cx.argtys and len(cx.argtys) > 1 else t, st)
adaptor("zip", lambda cx, s, a, st: T("szip", s, _second(cx, a[1], st)))
adaptor("chain", lambda cx, s, a, st: T("schain", s, _second(cx, a[1], st)))
@tmodel((ITER, "by_ref"))
def by_ref(cx, a, st): return a[0], st
@tmodel((ITER, "size_hint"))
def size_hint(cx, a, st):
    v = val(cx, a[0], st)
    if v.op == "iter" and not variable(v.args[0]):
        n = sub(src_len(cx.E, v.args[0], st), v.args[1]); return tup(n, some(n)), st
    return NotImplemented
@tmodel(("core::iter::traits::exact_size::ExactSizeIterator", "len"))
def exlen(cx, a, st):
    v = val(cx, a[0], st)
    if v.op == "iter" and not variable(v.args[0]): return sub(src_len(cx.E, v.args[0], st), v.args[1]), st
    return NotImplemented

@tmodel((ITER, "collect"), ("core::iter::traits::collect::FromIterator", "from_iter"))
def collect(cx, a, st):
    if cx.name == "from_iter": dt, ity = cx.targs[0], cx.argtys[0] if cx.argtys else None
    else: dt, ity = cx.targs[1] if len(cx.targs) > 1 else cx.destty, cx.targs[0]
    it = mk_iter(cx, a[0], ity, st)
    if dt and dt[0] == "adt" and dt[1] in ("core::result::Result", "core::option::Option"):
        V, N = ("Ok", "Err") if dt[1].endswith("Result") else ("Some", "None")
        r = to_seq(cx, it, st)
        if r is None: return None
        q, s = r
        n = seqlen(q); k = bounded("k", n)
        x = index(q, k)
        c = forall(k, n, isvar(x, V))
        sq = gen(k, n, fld(down(x, V), 0))
        if not (dt[2][0][0] == "adt" and dt[2][0][1] in ("alloc::vec::Vec", "alloc::boxed::Box")): sq = T("collect", dt[2][0], sq)
        if V == "Some": return ite(c, some(sq), NONE), s
        j = first(k, n, not_(isvar(x, V)))
        return ite(c, ok(sq), err(fld(down(index(q, j), "Err"), 0))), s
    r = to_seq(cx, it, st)
    if r is None: return None
    if dt and dt[0] == "adt" and dt[1] in ("alloc::vec::Vec", "alloc::boxed::Box"): return r
    return T("collect", dt, r[0]), r[1]
def over(cx, v, st):
    """(n, item term at fresh k, k) for a pure sequence view of iterator v (by value or by &mut)"""
    w = cx.E.read(st, v) if v.op == "ref" else v
    w = mk_iter(cx, w, cx.targs[0] if cx.targs else None, st)
    r = to_seq(cx, w, st)
    if r is None: return None
    q, s = r
    n = seqlen(q); k = bounded("k", n)
    return k, n, index(q, k), q, s
def quant(name):
    def m(cx, a, st):
        o = over(cx, a[0], st)
        if o is None: return None
        k, n, x, q, s = o
        if cx.E.unroll and is_int(n) and cval(n) <= cx.E.unroll and q.op == "agg":
            cs = []
            for y in q.args[2:]:
                r = cx.callv(a[1], [y], s)
                if r is None: return None
                cs.append(r[0]); s = r[1]
            if name == "any": return or_(*cs), s
            if name == "all": return and_(*cs), s
            v = NONE
            for i in range(len(cs) - 1, -1, -1): v = ite(cs[i], some(q.args[2 + i] if name == "find" else C(i)), v)
            return v, s
        r = cx.callv(a[1], [x], s)
        if r is None: return None
        if name == "any": return exists(k, n, r[0]), s
        if name == "all": return forall(k, n, r[0]), s
        j = first(k, n, r[0])
        ex = exists(k, n, r[0])
        if name == "find": return ite(ex, some(index(q, j)), NONE), s
        return ite(ex, some(j), NONE), s
    TRAIT_MODELS[(ITER, name)] = m
for _n in ("any", "all", "find", "position"): quant(_n)
def minmax(name):
    def m(cx, a, st):
        o = over(cx, a[0], st)
        if o is None: return None
        k, n, x, q, s = o
        nn = "imax" if name == "max" else "imin"
        if is_int(n) and 0 < cval(n) <= 16:
            r = index(q, ZERO)
            for i in range(1, cval(n)): r = tm._red2(nn, r, index(q, C(i)))
            return some(r), s
        if nn == "imax": r = sred(nn, k, n, x, ZERO)
        else: r = T("call", "imin_of", (), q)
        return ite(eq(n, ZERO), NONE, some(r)), s
    TRAIT_MODELS[(ITER, name)] = m
minmax("max"); minmax("min")
@tmodel((ITER, "count"))
def it_count(cx, a, st):
    v = mk_iter(cx, a[0], cx.targs[0], st)
    r = to_seq(cx, v, st)
    if r is None: return None
    return seqlen(r[0]), r[1]
@tmodel((ITER, "last"))
def it_last(cx, a, st):
    r = to_seq(cx, mk_iter(cx, a[0], cx.targs[0], st), st)
    if r is None: return None
    n = seqlen(r[0])
    return ite(eq(n, ZERO), NONE, some(index(r[0], sub(n, ONE)))), r[1]
@tmodel((ITER, "nth"))
def it_nth(cx, a, st):
    v = val(cx, a[0], st)
    if v.op != "iter" or variable(v.args[0]): return NotImplemented
    s = st.copy()
    i = add(v.args[1], a[1])
    n = src_len(cx.E, v.args[0], st)
    r = src_item(cx, v.args[0], i, s)
    if r is None: return None
    s = r[1].copy()
    cx.E.write(s, a[0], T("iter", v.args[0], add(i, ONE)))
    return ite(lt(i, n), some(r[0]), NONE), s
@tmodel((ITER, "sum"))
def it_sum(cx, a, st):
    o = over(cx, a[0], st)
    if o is None: return None
    k, n, x, q, s = o
    t = cx.targs[-1]
    fl = t in (("prim", "f32"), ("prim", "f64"))
    return sred("fadd" if fl else "add", k, n, x, C(Fraction(0)) if fl else ZERO), s
@tmodel((ITER, "fold"), (ITER, "for_each"), (ITER, "try_for_each"), (ITER, "try_fold"), (ITER, "reduce"))
def it_fold(cx, a, st):
    E = cx.E
    if cx.name == "reduce": return NotImplemented
    tr = cx.name in ("try_fold", "try_for_each")
    good, bad_ = "Ok", "Err"
    if tr:
        rt = cx.targs[-1]
        if rt[0] != "adt" or rt[1] not in ("core::option::Option", "core::result::Result"): return NotImplemented
        if rt[1].endswith("Option"): good, bad_ = "Some", "None"
    folds = cx.name in ("fold", "try_fold")
    it = a[0]
    w = mk_iter(cx, E.read(st, it) if it.op == "ref" else it, cx.targs[0], st)
    if w.op == "iter" and variable(w.args[0]) or w.op != "iter":
        r = to_seq(cx, w, st)
        if r is None: return None
        w, st = T("iter", T("sseq", r[0]), ZERO), r[1]
    s = st.copy()
    pos = E.newref(s, w, "A")
    acc = E.newref(s, a[1] if folds else UNIT, "A")
    fn = a[2] if folds else a[1]
    if fn.op != "ref": fn = E.newref(s, fn, "A")
    def body(s):
        r = iter_next(cx, pos, E.read(s, pos), s)
        if r is None: return {}
        v, s2 = r
        c = isvar(v, "Some")
        out = {"done": (not_(c), s2)}
        s3 = s2.assume(c)
        args = ([E.read(s3, acc)] if folds else []) + [pay(v, "Some")]
        q = cx.callv(fn, args, s3)
        if q is None: return out
        s4 = q[1].copy()
        if tr:
            okc = isvar(q[0], good)
            E.write(s4, acc, q[0])
            out["brk"] = (and_(c, not_(okc)), s4.assume(not_(okc)))
            s5 = s4.assume(okc).copy(); E.write(s5, acc, pay(q[0], good) if folds else UNIT)
            out["cont"] = (and_(c, okc), s5)
        else:
            E.write(s4, acc, q[0] if cx.name == "fold" else UNIT)
            out["cont"] = (c, s4)
        return out
    from engine import merge_vals
    res = []
    for kk, c, s3 in E.solve_loop(s, body, cx.name):
        v = E.read(s3, acc)
        if tr and kk == "done": v = ok(v) if good == "Ok" else some(v)
        elif tr: v = err(pay(v, "Err")) if good == "Ok" else NONE
        res.append((c, (v, drop_tmp(s3, pos, acc))))
    if not res: return None
    return merge_vals(res, st)

# ---- panics and process ------------------------------------------------------------------
@model("core::panicking::panic", "core::panicking::panic_fmt", "core::panicking::assert_failed", "core::panicking::panic_nounwind",
       "core::panicking::panic_display", "core::panicking::unreachable_display", "std::panicking::begin_panic", "core::option::unwrap_failed",
       "core::option::expect_failed", "core::result::unwrap_failed", "core::panicking::panic_explicit", "core::panicking::assert_failed_inner",
       "core::panicking::panic_bounds_check", "std::process::abort")
def panic(cx, a, st):
    cx.E.ev("panic", cx.path, cx.fr, st, cx.line, ret=TRUE, args=tuple(val(cx, x, st) for x in a))
    return None
@model("std::process::exit")
def pexit(cx, a, st):
    cx.E.ev("exit", cx.path, cx.fr, st, cx.line, ret=TRUE, args=tuple(a))
    return None

# ---- strings -----------------------------------------------------------------------------
@tmodel(("alloc::string::ToString", "to_string"))
def tostr(cx, a, st):
    t = _strip(cx.targs[0])
    v = val(cx, a[0], st)
    if t == ("str",) or t == ("adt", "alloc::string::String", ()): return v, st
    return NotImplemented
@tmodel(("core::convert::From", "from_str_"))
def _unused(cx, a, st): return NotImplemented
@model("str::to_ascii_lowercase", "str::to_lowercase", "alloc::string::String::to_ascii_lowercase")
def lower(cx, a, st):
    v = val(cx, a[0], st)
    if is_c(v, "str"): return C(cval(v).lower()), st
    return T("lower", v), st
tm._REB["lower"] = lambda v: C(cval(v).lower()) if is_c(v, "str") else T("lower", v)
@model("str::eq_ignore_ascii_case")
def eqic(cx, a, st):
    x, y = val(cx, a[0], st), val(cx, a[1], st)
    lo = lambda v: C(cval(v).lower()) if is_c(v, "str") else T("lower", v)
    return eq(lo(x), lo(y)), st
STROPS = {"trim": str.strip, "trim_start": str.lstrip, "trim_end": str.rstrip, "to_uppercase": str.upper, "to_ascii_uppercase": str.upper,
          "replace": lambda v, a, b: v.replace(a, b), "trim_matches": lambda v, a: v.strip(a) if len(a) == 1 else None,
          "trim_start_matches": lambda v, a: v.lstrip(a) if len(a) == 1 else None, "trim_end_matches": lambda v, a: v.rstrip(a) if len(a) == 1 else None}
def strop_(n, v, *a):
    if is_c(v, "str") and all(x.op == "c" for x in a):
        r = STROPS[n](cval(v), *[chr(cval(x)) if isinstance(cval(x), int) else cval(x) for x in a])
        if r is not None: return C(r)
    return T("strop", n, v, *a)
def _strop(n):
    def f(cx, a, st):
        vs = [val(cx, x, st) for x in a]
        return (strop_(n, *vs), st) if vs[0].op in ("c", "strop", "lower", "sym") and all(x.op == "c" for x in vs[1:]) else NotImplemented
    return f
for _n in STROPS: model("str::" + _n)(_strop(_n))
tm._REB["strop"] = strop_
@model("str::as_bytes", "alloc::string::String::as_bytes", "alloc::string::String::into_bytes")
def asbytes(cx, a, st):
    v = val(cx, a[0], st)
    return (C(cval(v).encode(), "bytes") if is_c(v, "str") else T("bytesof", v)), st
@model("str::starts_with")
def starts(cx, a, st):
    v, p = val(cx, a[0], st), val(cx, a[1], st)
    if is_c(v, "str") and p.op == "c": return starts_c(v, p), st
    return T("starts_with", v, p), st
@model("[T]::starts_with")
def sstarts(cx, a, st):
    v, p = val(cx, a[0], st), val(cx, a[1], st)
    return T("starts_with", v, p), st
def starts_c(v, p): return C(cval(v).startswith(chr(cval(p)) if isinstance(cval(p), int) and isinstance(cval(v), str) else cval(p)))
tm._REB["starts_with"] = lambda v, p: starts_c(v, p) if v.op == "c" and p.op == "c" else T("starts_with", v, p)
@model("std::ffi::os_str::OsStr::to_string_lossy", "std::ffi::os_str::OsString::to_string_lossy")
def lossy(cx, a, st):
    v = val(cx, a[0], st)
    return (v, st) if is_c(v, "str") else NotImplemented


# ---- raw pointers -------------------------------------------------------------------
NULLP = sym("null")
@model("core::ptr::null", "core::ptr::null_mut")
def null_ptr(cx, a, st): return NULLP, st
@model("*mut T::is_null", "*const T::is_null")
def is_null(cx, a, st): return eq(a[0], NULLP), st
@model("core::ptr::non_null::NonNull::new")
def nonnull_new(cx, a, st):
    O = "adt:core::option::Option"
    return ite(eq(a[0], NULLP), agg(O, "None"), agg(O, "Some", a[0])), st
@model("core::ptr::non_null::NonNull::as_ptr", "core::ptr::non_null::NonNull::new_unchecked", "*mut T::cast", "*const T::cast", "*mut T::cast_const", "*const T::cast_mut", "core::ptr::non_null::NonNull::cast")
def ptr_same(cx, a, st): return a[0], st

// MIR fact extractor: a rustc wrapper that dumps, for every workspace crate,
// the type-checked program (ADTs, traits, impls, function bodies as MIR with
// resolved callees and constant values) as JSON.  It changes nothing about
// the compilation and executes nothing of the analysed code.
#![feature(rustc_private)]
#![allow(clippy::all)]
extern crate rustc_abi;
extern crate rustc_data_structures;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_infer;
extern crate rustc_trait_selection;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_session;
extern crate rustc_span;

use rustc_driver::{Callbacks, Compilation};
use rustc_hir::def::DefKind;
use rustc_hir::def_id::{DefId, LOCAL_CRATE};
use rustc_interface::interface;
use rustc_middle::mir::{self, *};
use rustc_middle::ty::{self, GenericArgKind, Ty, TyCtxt, TypingEnv};
use rustc_span::Span;
use std::fmt::Write as _;

fn esc(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 || (c as u32) > 0x7e => {
                let mut b = [0u16; 2];
                for u in c.encode_utf16(&mut b) {
                    let _ = write!(o, "\\u{:04x}", u);
                }
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn list<I: IntoIterator<Item = String>>(it: I) -> String {
    let v: Vec<String> = it.into_iter().collect();
    format!("[{}]", v.join(","))
}

thread_local! {
    // foreign ADTs mentioned by some type; their shape is dumped as well
    static SEEN: std::cell::RefCell<std::collections::BTreeMap<String, DefId>> = Default::default();
}

struct Cx<'tcx> {
    tcx: TyCtxt<'tcx>,
    env: TypingEnv<'tcx>,
}

impl<'tcx> Cx<'tcx> {
    fn key(&self, d: DefId) -> String {
        format!(
            "{}{}",
            self.cname(d.krate),
            self.tcx.def_path(d).to_string_no_crate_verbose()
        )
    }

    // d10-python and the CLI binary are both compiled as crates called `d10`;
    // name the local crate after its package.
    fn cname(&self, k: rustc_hir::def_id::CrateNum) -> String {
        if k == LOCAL_CRATE {
            if let Ok(p) = std::env::var("CARGO_PKG_NAME") {
                return p.replace('-', "_");
            }
        }
        self.tcx.crate_name(k).to_string()
    }

    fn path(&self, d: DefId) -> String {
        ty::print::with_no_trimmed_paths!(ty::print::with_no_visible_paths!(self.path_inner(d)))
    }

    fn raw_path(&self, d: DefId) -> String {
        // crate::a::b without generics
        let dp = self.tcx.def_path(d);
        let mut s = self.cname(d.krate);
        for seg in dp.data.iter() {
            let n = seg.data.get_opt_name();
            match n {
                Some(n) => {
                    s.push_str("::");
                    s.push_str(n.as_str());
                }
                None => {
                    let _ = write!(s, "::{{{}#{}}}", "x", seg.disambiguator);
                }
            }
        }
        s
    }

    fn path_inner(&self, d: DefId) -> String {
        let tcx = self.tcx;
        match tcx.def_kind(d) {
            DefKind::AssocFn | DefKind::AssocConst { .. } | DefKind::AssocTy => {
                let p = tcx.parent(d);
                let name = tcx.item_name(d).to_string();
                match tcx.def_kind(p) {
                    DefKind::Impl { of_trait } => {
                        let st = tcx.type_of(p).instantiate_identity().skip_norm_wip();
                        let base = self.ty_head(st);
                        if of_trait {
                            let tr = tcx.impl_trait_ref(p).instantiate_identity().skip_norm_wip();
                            format!("<{} as {}>::{}", base, self.raw_path(tr.def_id), name)
                        } else {
                            format!("{}::{}", base, name)
                        }
                    }
                    _ => format!("{}::{}", self.raw_path(p), name),
                }
            }
            _ => self.raw_path(d),
        }
    }

    fn ty_head(&self, t: Ty<'tcx>) -> String {
        match t.kind() {
            ty::Adt(a, _) => self.raw_path(a.did()),
            ty::Ref(_, t, _) => format!("&{}", self.ty_head(*t)),
            ty::Slice(t) => format!("[{}]", match t.kind() { ty::Param(_) => "T".to_string(), _ => self.ty_head(*t) }),
            ty::Array(..) => "[_;_]".to_string(),
            ty::Str => "str".to_string(),
            ty::Tuple(..) => "(..)".to_string(),
            ty::Param(p) => p.name.to_string(),
            ty::Dynamic(..) => "dyn".to_string(),
            _ => format!("{}", t),
        }
    }

    fn args(&self, a: ty::GenericArgsRef<'tcx>) -> String {
        self.args_slice(&a[..])
    }

    fn args_slice(&self, a: &[ty::GenericArg<'tcx>]) -> String {
        list(a.iter().filter_map(|g| match g.kind() {
            GenericArgKind::Type(t) => Some(self.ty(t)),
            GenericArgKind::Const(c) => Some(self.cst(c)),
            GenericArgKind::Lifetime(_) => None,
            #[allow(unreachable_patterns)]
            _ => Some("[\"unk\"]".into()),
        }))
    }

    fn cst(&self, c: ty::Const<'tcx>) -> String {
        match c.kind() {
            ty::ConstKind::Param(p) => format!("[\"param\",{},{}]", self.param_ix(p.index), esc(p.name.as_str())),
            _ => {
                if let Some(v) = c.try_to_target_usize(self.tcx) {
                    format!("[\"cv\",{}]", v)
                } else {
                    format!("[\"cunk\",{}]", esc(&format!("{:?}", c)))
                }
            }
        }
    }

    // index among non-lifetime params is computed on the Python side by name;
    // keep the raw index.
    fn param_ix(&self, i: u32) -> u32 {
        i
    }

    fn ty(&self, t: Ty<'tcx>) -> String {
        match t.kind() {
            ty::Bool | ty::Char | ty::Int(_) | ty::Uint(_) | ty::Float(_) | ty::Never => {
                format!("[\"prim\",{}]", esc(&t.to_string()))
            }
            ty::Str => "[\"str\"]".into(),
            ty::Adt(a, args) => {
                if !a.did().is_local() {
                    let p = self.raw_path(a.did());
                    SEEN.with(|s| s.borrow_mut().insert(p, a.did()));
                }
                format!("[\"adt\",{},{}]", esc(&self.raw_path(a.did())), self.args(args))
            }
            ty::Foreign(d) => format!("[\"adt\",{},[]]", esc(&self.raw_path(*d))),
            ty::Array(t, c) => format!("[\"array\",{},{}]", self.ty(*t), self.cst(*c)),
            ty::Slice(t) => format!("[\"slice\",{}]", self.ty(*t)),
            ty::RawPtr(t, m) => format!("[\"ptr\",{},{}]", m.is_mut(), self.ty(*t)),
            ty::Ref(_, t, m) => format!("[\"ref\",{},{}]", m.is_mut(), self.ty(*t)),
            ty::FnDef(d, args) => format!("[\"fndef\",{},{},{}]", esc(&self.key(*d)), esc(&self.path(*d)), self.args(args.skip_binder())),
            ty::FnPtr(..) => format!("[\"fnptr\",{}]", esc(&t.to_string())),
            ty::Closure(d, args) => format!(
                "[\"closure\",{},{}]",
                esc(&self.key(*d)),
                self.args_slice(ty::ClosureArgs::<TyCtxt<'tcx>> { args }.parent_args())
            ),
            ty::Tuple(ts) => format!("[\"tuple\",{}]", list(ts.iter().map(|t| self.ty(t)))),
            ty::Param(p) => format!("[\"param\",{},{}]", p.index, esc(p.name.as_str())),
            ty::Dynamic(preds, ..) => format!(
                "[\"dyn\",{}]",
                esc(&preds.principal_def_id().map(|d| self.raw_path(d)).unwrap_or_default())
            ),
            _ => format!("[\"other\",{}]", esc(&t.to_string())),
        }
    }

    fn span(&self, s: Span) -> String {
        let sm = self.tcx.sess.source_map();
        let s = s.source_callsite();
        let lo = sm.lookup_char_pos(s.lo());
        format!("{}", lo.line)
    }

    fn file(&self, s: Span) -> String {
        let sm = self.tcx.sess.source_map();
        let s = s.source_callsite();
        let lo = sm.lookup_char_pos(s.lo());
        esc(&format!("{}", lo.file.name.prefer_local_unconditionally()))
    }

    fn place(&self, body: &Body<'tcx>, p: &Place<'tcx>) -> String {
        let mut cur = mir::PlaceTy::from_ty(body.local_decls[p.local].ty);
        let mut pr = vec![];
        for e in p.projection.iter() {
            pr.push(match e {
                ProjectionElem::Deref => "[\"deref\"]".to_string(),
                ProjectionElem::Field(f, _) => {
                    let mut name = String::new();
                    if let ty::Adt(a, _) = cur.ty.kind() {
                        let v = cur.variant_index.unwrap_or(rustc_abi::FIRST_VARIANT);
                        if !a.is_union() || true {
                            name = a.variant(v).fields[f].name.to_string();
                        }
                    }
                    format!("[\"field\",{},{}]", f.as_u32(), esc(&name))
                }
                ProjectionElem::Index(l) => format!("[\"index\",{}]", l.as_u32()),
                ProjectionElem::ConstantIndex { offset, min_length, from_end } => {
                    format!("[\"cindex\",{},{},{}]", offset, min_length, from_end)
                }
                ProjectionElem::Subslice { from, to, from_end } => format!("[\"subslice\",{},{},{}]", from, to, from_end),
                ProjectionElem::Downcast(_, v) => {
                    let mut name = String::new();
                    if let ty::Adt(a, _) = cur.ty.kind() {
                        name = a.variant(v).name.to_string();
                    }
                    format!("[\"down\",{},{}]", v.as_u32(), esc(&name))
                }
                _ => "[\"opaque\"]".to_string(),
            });
            cur = cur.projection_ty(self.tcx, e);
        }
        format!("[{},[{}]]", p.local.as_u32(), pr.join(","))
    }

    fn bytes_at(&self, id: mir::interpret::AllocId, off: u64, len: u64) -> Option<Vec<u8>> {
        match self.tcx.try_get_global_alloc(id)? {
            mir::interpret::GlobalAlloc::Memory(a) => {
                let a = a.inner();
                let r = off as usize..(off + len) as usize;
                if r.end > a.len() {
                    return None;
                }
                Some(a.inspect_with_uninit_and_ptr_outside_interpreter(r).to_vec())
            }
            _ => None,
        }
    }

    fn constant(&self, c: &mir::Const<'tcx>) -> String {
        let t = c.ty();
        let ts = self.ty(t);
        match c {
            mir::Const::Ty(_, c) => format!("[\"tconst\",{},{}]", ts, self.cst(*c)),
            mir::Const::Unevaluated(u, _) => match u.promoted {
                Some(p) => format!("[\"promoted\",{},{},{},{}]", ts, esc(&self.key(u.def)), p.as_u32(), self.args(u.args)),
                None => {
                    let r = ty::Instance::try_resolve(self.tcx, self.env, u.def, u.args).ok().flatten();
                    let (rk, ra) = match r {
                        Some(i) => (self.key(i.def_id()), self.args(i.args)),
                        None => (self.key(u.def), self.args(u.args)),
                    };
                    let tr = self.tcx.trait_of_assoc(u.def).map(|d| esc(&self.raw_path(d))).unwrap_or("null".into());
                    format!("[\"named\",{},{},{},{},{},{},{}]", ts, esc(&rk), ra, esc(&self.path(u.def)), tr, esc(&self.key(u.def)), self.args(u.args))
                }
            },
            mir::Const::Val(v, _) => match v {
                ConstValue::ZeroSized => format!("[\"zst\",{}]", ts),
                ConstValue::Scalar(mir::interpret::Scalar::Int(i)) => {
                    let bits = i.to_bits_unchecked();
                    format!("[\"int\",{},\"{}\",{}]", ts, bits, i.size().bytes())
                }
                ConstValue::Scalar(mir::interpret::Scalar::Ptr(p, _)) => {
                    let (prov, off) = p.prov_and_relative_offset();
                    match self.tcx.try_get_global_alloc(prov.alloc_id()) {
                        Some(mir::interpret::GlobalAlloc::Static(d)) => format!("[\"static\",{},{}]", ts, esc(&self.key(d))),
                        Some(mir::interpret::GlobalAlloc::Memory(a)) => {
                            let l = a.inner().len() as u64;
                            match self.bytes_at(prov.alloc_id(), off.bytes(), l - off.bytes()) {
                                Some(b) => format!("[\"ptrbytes\",{},{}]", ts, list(b.iter().map(|x| x.to_string()))),
                                None => format!("[\"cunk\",{}]", ts),
                            }
                        }
                        Some(mir::interpret::GlobalAlloc::Function { instance, .. }) => format!(
                            "[\"fnptr\",{},{}]", ts, esc(&self.key(instance.def_id()))),
                        _ => format!("[\"cunk\",{}]", ts),
                    }
                }
                ConstValue::Slice { alloc_id, meta } => match self.bytes_at(*alloc_id, 0, *meta) {
                    Some(b) => {
                        let is_str = matches!(t.kind(), ty::Ref(_, t, _) if t.is_str());
                        if is_str {
                            format!("[\"strlit\",{},{}]", ts, esc(&String::from_utf8_lossy(&b)))
                        } else {
                            format!("[\"bytes\",{},{}]", ts, list(b.iter().map(|x| x.to_string())))
                        }
                    }
                    None => format!("[\"cunk\",{}]", ts),
                },
                ConstValue::Indirect { alloc_id, offset } => {
                    let l = match self.tcx.try_get_global_alloc(*alloc_id) {
                        Some(mir::interpret::GlobalAlloc::Memory(a)) => a.inner().len() as u64,
                        _ => 0,
                    };
                    if l <= 4096 {
                        match self.bytes_at(*alloc_id, offset.bytes(), l - offset.bytes()) {
                            Some(b) => format!("[\"rawbytes\",{},{}]", ts, list(b.iter().map(|x| x.to_string()))),
                            None => format!("[\"cunk\",{}]", ts),
                        }
                    } else {
                        format!("[\"cunk\",{}]", ts)
                    }
                }
            },
        }
    }

    fn operand(&self, body: &Body<'tcx>, o: &Operand<'tcx>) -> String {
        match o {
            Operand::Copy(p) => format!("[\"copy\",{}]", self.place(body, p)),
            Operand::Move(p) => format!("[\"move\",{}]", self.place(body, p)),
            Operand::Constant(c) => format!("[\"const\",{}]", self.constant(&c.const_)),
            #[allow(unreachable_patterns)]
            _ => "[\"unkop\"]".to_string(),
        }
    }

    fn rvalue(&self, body: &Body<'tcx>, r: &Rvalue<'tcx>) -> String {
        match r {
            Rvalue::Use(o, ..) => format!("[\"use\",{}]", self.operand(body, o)),
            Rvalue::Repeat(o, c) => format!("[\"repeat\",{},{}]", self.operand(body, o), self.cst(*c)),
            Rvalue::Ref(_, k, p) => format!("[\"ref\",{},{}]", matches!(k, BorrowKind::Mut { .. }), self.place(body, p)),
            Rvalue::RawPtr(k, p) => format!("[\"rawptr\",{},{}]", esc(&format!("{:?}", k)), self.place(body, p)),
            Rvalue::Cast(k, o, t) => format!(
                "[\"cast\",{},{},{},{}]",
                esc(&format!("{:?}", k)),
                self.operand(body, o),
                self.ty(o.ty(body, self.tcx)),
                self.ty(*t)
            ),
            Rvalue::BinaryOp(op, b) => format!(
                "[\"bin\",{},{},{},{}]",
                esc(&format!("{:?}", op)),
                self.operand(body, &b.0),
                self.operand(body, &b.1),
                self.ty(b.0.ty(body, self.tcx))
            ),
            Rvalue::UnaryOp(op, o) => format!("[\"un\",{},{}]", esc(&format!("{:?}", op)), self.operand(body, o)),
            Rvalue::Discriminant(p) => format!("[\"discr\",{},{}]", self.place(body, p), self.ty(p.ty(body, self.tcx).ty)),
            Rvalue::Aggregate(k, ops) => {
                let ks = match &**k {
                    AggregateKind::Array(t) => format!("[\"array\",{}]", self.ty(*t)),
                    AggregateKind::Tuple => "[\"tuple\"]".to_string(),
                    AggregateKind::Adt(d, v, args, _, f) => {
                        let a = self.tcx.adt_def(*d);
                        let vd = a.variant(*v);
                        format!(
                            "[\"adt\",{},{},{},{},{},{}]",
                            esc(&self.raw_path(*d)),
                            v.as_u32(),
                            esc(vd.name.as_str()),
                            list(vd.fields.iter().map(|f| esc(f.name.as_str()))),
                            self.args(args),
                            f.map(|f| f.as_u32() as i64).unwrap_or(-1)
                        )
                    }
                    AggregateKind::Closure(d, args) => format!(
                        "[\"closure\",{},{}]",
                        esc(&self.key(*d)),
                        self.args_slice(ty::ClosureArgs::<TyCtxt<'tcx>> { args }.parent_args())
                    ),
                    AggregateKind::RawPtr(..) => "[\"rawptr\"]".to_string(),
                    _ => "[\"unk\"]".to_string(),
                };
                format!("[\"agg\",{},{}]", ks, list(ops.iter().map(|o| self.operand(body, o))))
            }
            Rvalue::CopyForDeref(p) => format!("[\"use\",[\"copy\",{}]]", self.place(body, p)),
            Rvalue::ThreadLocalRef(d) => format!("[\"tls\",{}]", esc(&self.key(*d))),
            Rvalue::Reborrow(_, m, p) => format!("[\"ref\",{},{}]", m.is_mut(), self.place(body, p)),
            _ => format!("[\"unkrv\",{}]", esc(&format!("{:?}", r))),
        }
    }

    fn callee(&self, f: &Operand<'tcx>, body: &Body<'tcx>) -> String {
        let t = f.ty(body, self.tcx);
        if let ty::FnDef(d, args) = t.kind() {
            let args = args.skip_binder();
            let tr = self.tcx.trait_of_assoc(*d);
            let res = ty::Instance::try_resolve(self.tcx, self.env, *d, args).ok().flatten();
            let r = match res {
                Some(i) => format!(
                    "[{},{},{},{}]",
                    esc(&self.key(i.def_id())),
                    esc(&self.path(i.def_id())),
                    self.args(i.args),
                    esc(match i.def {
                        ty::InstanceKind::Item(_) => "item",
                        ty::InstanceKind::Virtual(..) => "virtual",
                        _ => "shim",
                    })
                ),
                None => "null".into(),
            };
            format!(
                "{{\"key\":{},\"path\":{},\"args\":{},\"trait\":{},\"name\":{},\"res\":{},\"unsafe\":{}}}",
                esc(&self.key(*d)),
                esc(&self.path(*d)),
                self.args(args),
                tr.map(|d| esc(&self.raw_path(d))).unwrap_or("null".into()),
                esc(&self.tcx.opt_item_name(*d).map(|n| n.to_string()).unwrap_or_default()),
                r,
                self.tcx.fn_sig(*d).instantiate_identity().skip_norm_wip().skip_binder().safety().is_unsafe()
            )
        } else {
            format!("{{\"indirect\":{},\"ty\":{}}}", self.operand(body, f), self.ty(t))
        }
    }

    fn body(&self, body: &Body<'tcx>) -> String {
        let mut s = String::new();
        let _ = write!(s, "{{\"argc\":{},\"spread\":{},\"locals\":[", body.arg_count, body.spread_arg.map(|l| l.as_u32() as i64).unwrap_or(-1));
        for (i, l) in body.local_decls.iter().enumerate() {
            if i > 0 {
                s.push(',');
            }
            s.push_str(&self.ty(l.ty));
        }
        s.push_str("],\"vars\":[");
        s.push_str(
            &body
                .var_debug_info
                .iter()
                .filter_map(|v| match &v.value {
                    VarDebugInfoContents::Place(p) => Some(format!("[{},{}]", esc(v.name.as_str()), self.place(body, p))),
                    _ => None,
                })
                .collect::<Vec<_>>()
                .join(","),
        );
        s.push_str("],\"blocks\":[");
        for (bi, b) in body.basic_blocks.iter().enumerate() {
            if bi > 0 {
                s.push(',');
            }
            s.push_str("{\"c\":");
            s.push_str(if b.is_cleanup { "1" } else { "0" });
            s.push_str(",\"s\":[");
            let mut first = true;
            for st in &b.statements {
                let x = match &st.kind {
                    StatementKind::Assign(a) => Some(format!(
                        "[\"=\",{},{},{}]",
                        self.place(body, &a.0),
                        self.rvalue(body, &a.1),
                        self.span(st.source_info.span)
                    )),
                    StatementKind::SetDiscriminant { place, variant_index } => Some(format!(
                        "[\"setd\",{},{},{}]",
                        self.place(body, place),
                        variant_index.as_u32(),
                        self.span(st.source_info.span)
                    )),
                    StatementKind::StorageDead(l) => Some(format!("[\"dead\",{}]", l.as_u32())),
                    StatementKind::Intrinsic(i) => Some(format!("[\"intr\",{}]", esc(&format!("{:?}", i)))),
                    _ => None,
                };
                if let Some(x) = x {
                    if !first {
                        s.push(',');
                    }
                    first = false;
                    s.push_str(&x);
                }
            }
            s.push_str("],\"t\":");
            let t = b.terminator();
            let ln = self.span(t.source_info.span);
            let x = match &t.kind {
                TerminatorKind::Goto { target, .. } => format!("[\"goto\",{}]", target.as_u32()),
                TerminatorKind::SwitchInt { discr, targets } => format!(
                    "[\"switch\",{},{},{},{},{}]",
                    self.operand(body, discr),
                    self.ty(discr.ty(body, self.tcx)),
                    list(targets.iter().map(|(v, t)| format!("[\"{}\",{}]", v, t.as_u32()))),
                    targets.otherwise().as_u32(),
                    ln
                ),
                TerminatorKind::Return => format!("[\"return\",{}]", ln),
                TerminatorKind::Unreachable => "[\"unreachable\"]".to_string(),
                TerminatorKind::UnwindResume | TerminatorKind::UnwindTerminate(_) => "[\"resume\"]".to_string(),
                TerminatorKind::Drop { place, target, .. } => {
                    let pt = place.ty(body, self.tcx).ty;
                    format!("[\"drop\",{},{},{},{}]", self.place(body, place), target.as_u32(), self.ty(pt), ln)
                }
                TerminatorKind::Call { func, args, destination, target, fn_span, .. } => format!(
                    "[\"call\",{},{},{},{},{},{},{}]",
                    self.callee(func, body),
                    list(args.iter().map(|a| self.operand(body, &a.node))),
                    self.place(body, destination),
                    target.map(|t| t.as_u32() as i64).unwrap_or(-1),
                    self.span(*fn_span),
                    list(args.iter().map(|a| self.ty(a.node.ty(body, self.tcx)))),
                    self.ty(destination.ty(body, self.tcx).ty)
                ),
                TerminatorKind::Assert { cond, expected, target, msg, .. } => format!(
                    "[\"assert\",{},{},{},{},{},{}]",
                    self.operand(body, cond),
                    expected,
                    target.as_u32(),
                    esc(match &**msg {
                        AssertKind::BoundsCheck { .. } => "bounds",
                        AssertKind::Overflow(..) | AssertKind::OverflowNeg(..) => "overflow",
                        AssertKind::DivisionByZero(..) | AssertKind::RemainderByZero(..) => "divzero",
                        _ => "other",
                    }),
                    match &**msg {
                        AssertKind::BoundsCheck { len, index } => list([self.operand(body, len), self.operand(body, index)]),
                        _ => "[]".to_string(),
                    },
                    ln
                ),
                _ => format!("[\"unkterm\",{}]", esc(&format!("{:?}", t.kind))),
            };
            s.push_str(&x);
            s.push('}');
        }
        s.push_str("]}");
        s
    }
}

struct Cb {
    out: String,
}

impl Callbacks for Cb {
    fn config(&mut self, config: &mut interface::Config) {
        config.opts.unstable_opts.mir_opt_level = Some(0);
        config.opts.cg.overflow_checks = Some(false);
        config.opts.cg.debug_assertions = Some(false);
        config.opts.debug_assertions = false;
    }

    fn after_analysis<'tcx>(&mut self, _c: &interface::Compiler, tcx: TyCtxt<'tcx>) -> Compilation {
        let cx0 = Cx { tcx, env: TypingEnv::fully_monomorphized() };
        let crate_name = cx0.cname(LOCAL_CRATE);
        let mut out = String::new();
        let _ = write!(out, "{{\"crate\":{},\n\"adts\":[", esc(&crate_name));
        let mut adts = vec![];
        let mut impls = vec![];
        let mut traits = vec![];
        let mut statics = vec![];
        for id in tcx.hir_crate_items(()).definitions() {
            let d = id.to_def_id();
            match tcx.def_kind(d) {
                DefKind::Struct | DefKind::Enum | DefKind::Union => {
                    let a = tcx.adt_def(d);
                    let ev = tcx.effective_visibilities(()).is_reachable(id);
                    let vs = list(a.variants().iter_enumerated().map(|(vi, v)| {
                        format!(
                            "{{\"name\":{},\"discr\":\"{}\",\"fields\":{}}}",
                            esc(v.name.as_str()),
                            if a.is_enum() { a.discriminant_for_variant(tcx, vi).val as i128 } else { 0 },
                            list(v.fields.iter().map(|f| format!(
                                "[{},{},{}]",
                                esc(f.name.as_str()),
                                cx0.ty(tcx.type_of(f.did).instantiate_identity().skip_norm_wip()),
                                f.vis.is_public()
                            )))
                        )
                    }));
                    adts.push(format!(
                        "{{\"path\":{},\"kind\":{},\"pub\":{},\"reach\":{},\"send\":{},\"sync\":{},\"variants\":{},\"file\":{},\"line\":{}}}",
                        esc(&cx0.raw_path(d)),
                        esc(if a.is_enum() { "enum" } else if a.is_struct() { "struct" } else { "union" }),
                        tcx.visibility(d).is_public(),
                        ev,
                        auto_trait(tcx, d, tcx.get_diagnostic_item(rustc_span::sym::Send)),
                        auto_trait(tcx, d, tcx.lang_items().sync_trait()),
                        vs,
                        cx0.file(tcx.def_span(d)),
                        cx0.span(tcx.def_span(d))
                    ));
                }
                DefKind::Static { mutability, .. } => {
                    let t = tcx.type_of(d).instantiate_identity().skip_norm_wip();
                    let fz = t.is_freeze(tcx, TypingEnv::post_analysis(tcx, d));
                    statics.push(format!("{{\"path\":{},\"mut\":{},\"freeze\":{},\"ty\":{},\"file\":{},\"line\":{}}}", esc(&cx0.raw_path(d)),
                        mutability == ty::Mutability::Mut, fz, cx0.ty(t), cx0.file(tcx.def_span(d)), cx0.span(tcx.def_span(d))));
                }
                DefKind::Trait => {
                    let items = list(tcx.associated_items(d).in_definition_order().map(|i| {
                        format!("[{},{},{}]", esc(i.opt_name().map(|n| n.to_string()).unwrap_or_default().as_str()), esc(&cx0.key(i.def_id)), i.defaultness(tcx).has_value())
                    }));
                    let supers = list(tcx.explicit_super_clauses_of(d).iter_identity_copied().filter_map(|x| {
                        let (c, _) = x.skip_norm_wip();
                        c.as_trait_clause().map(|t| esc(&cx0.raw_path(t.def_id())))
                    }));
                    traits.push(format!("{{\"path\":{},\"items\":{},\"supers\":{},\"reach\":{},\"exported\":{}}}", esc(&cx0.raw_path(d)), items, supers, tcx.effective_visibilities(()).is_reachable(id), tcx.effective_visibilities(()).is_exported(id)));
                }
                DefKind::Impl { of_trait } => {
                    let st = tcx.type_of(d).instantiate_identity().skip_norm_wip();
                    let (tr, targs) = if of_trait {
                        let t = tcx.impl_trait_ref(d).instantiate_identity().skip_norm_wip();
                        (esc(&cx0.raw_path(t.def_id)), cx0.args(t.args))
                    } else {
                        ("null".to_string(), "[]".to_string())
                    };
                    let items = list(tcx.associated_items(d).in_definition_order().map(|i| {
                        format!(
                            "[{},{},{}]",
                            esc(i.opt_name().map(|n| n.to_string()).unwrap_or_default().as_str()),
                            esc(&cx0.key(i.def_id)),
                            i.trait_item_def_id().map(|d| esc(&cx0.key(d))).unwrap_or("null".into())
                        )
                    }));
                    let neg = of_trait && tcx.impl_polarity(d) == ty::ImplPolarity::Negative;
                    let uns = of_trait && tcx.impl_trait_header(d).safety.is_unsafe();
                    impls.push(format!(
                        "{{\"key\":{},\"self\":{},\"trait\":{},\"targs\":{},\"items\":{},\"neg\":{},\"unsafe\":{},\"file\":{},\"line\":{}}}",
                        esc(&cx0.key(d)), cx0.ty(st), tr, targs, items, neg, uns,
                        cx0.file(tcx.def_span(d)), cx0.span(tcx.def_span(d))
                    ));
                }
                _ => {}
            }
        }
        out.push_str(&adts.join(",\n"));
        out.push_str("],\n\"traits\":[");
        out.push_str(&traits.join(",\n"));
        out.push_str("],\n\"impls\":[");
        out.push_str(&impls.join(",\n"));
        out.push_str("],\n\"bodies\":[");
        let mut first = true;
        for id in tcx.hir_body_owners() {
            let d = id.to_def_id();
            let kind = tcx.def_kind(d);
            let is_fn = matches!(kind, DefKind::Fn | DefKind::AssocFn | DefKind::Closure);
            let is_const = matches!(
                kind,
                DefKind::Const { .. } | DefKind::AssocConst { .. } | DefKind::Static { .. } | DefKind::AnonConst
            );
            if !is_fn && !is_const {
                continue;
            }
            if is_const && matches!(kind, DefKind::AnonConst) {
                continue;
            }
            let env = TypingEnv::post_analysis(tcx, d);
            let cx = Cx { tcx, env };
            let body: &Body<'tcx> = if is_fn { tcx.optimized_mir(d) } else { tcx.mir_for_ctfe(d) };
            let gens = {
                let mut v = vec![];
                let mut g = Some(tcx.generics_of(d));
                while let Some(gg) = g {
                    let mut own: Vec<String> = vec![];
                    for p in &gg.own_params {
                        if !matches!(p.kind, ty::GenericParamDefKind::Lifetime) {
                            own.push(format!("[{},{}]", p.index, esc(p.name.as_str())));
                        }
                    }
                    own.extend(v);
                    v = own;
                    g = gg.parent.map(|p| tcx.generics_of(p));
                }
                list(v)
            };
            let root = tcx.typeck_root_def_id(d);
            let parent = tcx.opt_parent(root);
            let (iself, itrait) = match parent {
                Some(p) if matches!(tcx.def_kind(p), DefKind::Impl { .. }) => {
                    let st = tcx.type_of(p).instantiate_identity().skip_norm_wip();
                    let tr = tcx.impl_opt_trait_ref(p).map(|t| cx.raw_path(t.instantiate_identity().skip_norm_wip().def_id));
                    (cx.ty(st), tr.map(|s| esc(&s)).unwrap_or("null".into()))
                }
                Some(p) if matches!(tcx.def_kind(p), DefKind::Trait) => ("null".to_string(), esc(&cx.raw_path(p))),
                _ => ("null".to_string(), "null".to_string()),
            };
            let proms = if is_fn || is_const {
                list(tcx.promoted_mir(d).iter().map(|b| cx.body(b)))
            } else {
                "[]".into()
            };
            let params = if is_fn && !matches!(kind, DefKind::Closure) {
                list(tcx.fn_arg_idents(d).iter().map(|n| esc(&n.map(|n| n.to_string()).unwrap_or_default())))
            } else {
                "[]".into()
            };
            let vis = if matches!(kind, DefKind::Closure) { false } else { tcx.effective_visibilities(()).is_reachable(id) };
            if !first {
                out.push_str(",\n");
            }
            first = false;
            let _ = write!(
                out,
                "{{\"key\":{},\"path\":{},\"name\":{},\"kind\":{},\"root\":{},\"self\":{},\"trait\":{},\"reach\":{},\"generics\":{},\"params\":{},\"file\":{},\"line\":{},\"body\":{},\"promoted\":{}}}",
                esc(&cx.key(d)),
                esc(&cx.path(d)),
                esc(&tcx.opt_item_name(d).map(|n| n.to_string()).unwrap_or_default()),
                esc(if matches!(kind, DefKind::Closure) { "closure" } else if is_fn { "fn" } else { "const" }),
                esc(&cx.key(root)),
                iself,
                itrait,
                vis,
                gens,
                params,
                cx.file(tcx.def_span(d)),
                cx.span(tcx.def_span(d)),
                cx.body(body),
                proms
            );
        }
        out.push_str("],\n");
        let foreign: Vec<DefId> = SEEN.with(|s| s.borrow().values().copied().collect());
        let _ = write!(out, "\"foreign\":{},\n", list(foreign.iter().filter(|d| matches!(tcx.def_kind(**d), DefKind::Struct | DefKind::Enum)).map(|d| {
            let a = tcx.adt_def(*d);
            format!("{{\"path\":{},\"kind\":{},\"variants\":{}}}", esc(&cx0.raw_path(*d)),
                esc(if a.is_enum() { "enum" } else { "struct" }),
                list(a.variants().iter_enumerated().map(|(vi, v)| format!("{{\"name\":{},\"discr\":\"{}\",\"fields\":{}}}",
                    esc(v.name.as_str()),
                    if a.is_enum() { a.discriminant_for_variant(tcx, vi).val as i128 } else { 0 },
                    list(v.fields.iter().map(|f| format!("[{}]", esc(f.name.as_str())))))))) 
        })));
        let _ = write!(out, "\"statics\":{},\n", list(statics.into_iter()));
        let _ = write!(out, "\"unsafe_blocks\":{}}}\n", unsafe_blocks(tcx, &cx0));
        let p = format!("{}/{}-{}.json", self.out, crate_name, std::process::id());
        std::fs::write(&p, out).expect("write facts");
        Compilation::Continue
    }
}

fn auto_trait<'tcx>(tcx: TyCtxt<'tcx>, d: DefId, tr: Option<DefId>) -> bool {
    use rustc_infer::infer::TyCtxtInferExt;
    use rustc_trait_selection::infer::InferCtxtExt;
    let tr = match tr {
        Some(t) => t,
        None => return false,
    };
    let (infcx, penv) = tcx.infer_ctxt().build_with_typing_env(TypingEnv::post_analysis(tcx, d));
    let t = tcx.type_of(d).instantiate_identity().skip_norm_wip();
    infcx.type_implements_trait(tr, [t], penv).must_apply_modulo_regions()
}

struct UV<'a, 'tcx> {
    tcx: TyCtxt<'tcx>,
    cx: &'a Cx<'tcx>,
    owner: DefId,
    v: Vec<String>,
}

impl<'a, 'tcx> rustc_hir::intravisit::Visitor<'tcx> for UV<'a, 'tcx> {
    type NestedFilter = rustc_middle::hir::nested_filter::OnlyBodies;
    fn maybe_tcx(&mut self) -> TyCtxt<'tcx> {
        self.tcx
    }
    fn visit_block(&mut self, b: &'tcx rustc_hir::Block<'tcx>) {
        if let rustc_hir::BlockCheckMode::UnsafeBlock(rustc_hir::UnsafeSource::UserProvided) = b.rules {
            let from_macro = b.span.from_expansion();
            self.v.push(format!("[{},{},{},{}]", esc(&self.cx.key(self.owner)), self.cx.file(b.span), self.cx.span(b.span), from_macro));
        }
        rustc_hir::intravisit::walk_block(self, b);
    }
}

fn unsafe_blocks<'tcx>(tcx: TyCtxt<'tcx>, cx: &Cx<'tcx>) -> String {
    let mut v = vec![];
    for id in tcx.hir_body_owners() {
        let mut uv = UV { tcx, cx, owner: id.to_def_id(), v: vec![] };
        let b = tcx.hir_body_owned_by(id);
        rustc_hir::intravisit::Visitor::visit_body(&mut uv, b);
        v.extend(uv.v);
        // unsafe fns
        if matches!(tcx.def_kind(id), DefKind::Fn | DefKind::AssocFn) {
            let d = id.to_def_id();
            if tcx.fn_sig(d).instantiate_identity().skip_norm_wip().skip_binder().safety().is_unsafe() {
                v.push(format!("[{},{},{},{}]", esc(&cx.key(d)), cx.file(tcx.def_span(d)), cx.span(tcx.def_span(d)), tcx.def_span(d).from_expansion()));
            }
        }
    }
    list(v)
}

fn main() {
    let mut args: Vec<String> = std::env::args().collect();
    // RUSTC_WORKSPACE_WRAPPER: argv[1] is the real rustc
    if args.len() > 1 && (args[1].ends_with("rustc") || args[1].contains("rustc")) {
        args.remove(1);
    }
    let out = std::env::var("MIRFACTS_OUT").unwrap_or_default();
    let is_build_script = args.iter().any(|a| a == "build_script_build" || a == "--print=cfg");
    let has_crate = args.iter().any(|a| a == "--crate-name");
    let is_test = args.iter().any(|a| a == "--test");
    if out.is_empty() || is_build_script || !has_crate || is_test {
        struct Nop;
        impl Callbacks for Nop {}
        rustc_driver::compiler_entrypoint(&args, &mut Nop);
        return;
    }
    rustc_driver::compiler_entrypoint(&args, &mut Cb { out });
}

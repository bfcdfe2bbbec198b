// MIR extraction driver: runs as RUSTC_WORKSPACE_WRAPPER (argv[1] = real rustc) under
// `cargo +nightly check`, and dumps the type-checked program (generic MIR with resolved
// callee definitions, ADT layouts, impl table, statics, unsafe blocks) as JSON.
#![feature(rustc_private)]
extern crate rustc_abi;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_infer;
extern crate rustc_trait_selection;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_session;
extern crate rustc_span;

use rustc_driver::{Callbacks, Compilation};
use rustc_hir::def::DefKind;
use rustc_hir::def_id::{DefId, LocalDefId};
use rustc_middle::mir::interpret::{GlobalAlloc, Scalar};
use rustc_middle::mir::*;
use rustc_middle::ty::print::with_no_trimmed_paths;
use rustc_middle::ty::{self, GenericArgKind, GenericArgsRef, Ty, TyCtxt, TyKind};
use rustc_span::Span;
use std::fmt::Write as _;

enum J {
    S(String),
    N(i128),
    B(bool),
    Null,
    A(Vec<J>),
    O(Vec<(&'static str, J)>),
}
impl J {
    fn w(&self, o: &mut String) {
        match self {
            J::S(s) => {
                o.push('"');
                for c in s.chars() {
                    match c {
                        '"' => o.push_str("\\\""),
                        '\\' => o.push_str("\\\\"),
                        '\n' => o.push_str("\\n"),
                        c if (c as u32) < 0x20 => {
                            write!(o, "\\u{:04x}", c as u32).unwrap();
                        }
                        c => o.push(c),
                    }
                }
                o.push('"');
            }
            J::N(n) => write!(o, "{}", n).unwrap(),
            J::B(b) => write!(o, "{}", b).unwrap(),
            J::Null => o.push_str("null"),
            J::A(v) => {
                o.push('[');
                for (i, x) in v.iter().enumerate() {
                    if i > 0 {
                        o.push(',');
                    }
                    x.w(o);
                }
                o.push(']');
            }
            J::O(v) => {
                o.push('{');
                for (i, (k, x)) in v.iter().enumerate() {
                    if i > 0 {
                        o.push(',');
                    }
                    write!(o, "\"{}\":", k).unwrap();
                    x.w(o);
                }
                o.push('}');
            }
        }
    }
}
fn s(x: impl Into<String>) -> J {
    J::S(x.into())
}
fn n(x: usize) -> J {
    J::N(x as i128)
}

struct Cx<'tcx> {
    tcx: TyCtxt<'tcx>,
}

impl<'tcx> Cx<'tcx> {
    fn id(&self, d: DefId) -> String {
        format!("{}{}", self.tcx.crate_name(d.krate), self.tcx.def_path(d).to_string_no_crate_verbose())
    }
    fn pretty(&self, d: DefId) -> String {
        with_no_trimmed_paths!(self.tcx.def_path_str(d))
    }
    fn def(&self, d: DefId) -> J {
        let tcx = self.tcx;
        let mut v = vec![("id", s(self.id(d))), ("p", s(self.pretty(d))), ("local", J::B(d.is_local()))];
        if let Some(p) = tcx.opt_parent(d) {
            match tcx.def_kind(p) {
                DefKind::Trait => v.push(("trait", s(self.pretty(p)))),
                DefKind::Impl { .. } => {
                    if let Some(t) = tcx.impl_opt_trait_ref(p) {
                        v.push(("impl_of", s(self.pretty(t.skip_binder().def_id))));
                    }
                    v.push(("impl_self", self.ty(tcx.type_of(p).skip_binder())));
                }
                _ => {}
            }
        }
        if let Some(nm) = tcx.opt_item_name(d) {
            v.push(("name", s(nm.to_string())));
        }
        J::O(v)
    }
    fn span(&self, sp: Span) -> J {
        let sm = self.tcx.sess.source_map();
        let sp = sp.source_callsite();
        let lo = sm.lookup_char_pos(sp.lo());
        s(format!("{}:{}", lo.file.name.prefer_local_unconditionally(), lo.line))
    }
    fn args(&self, a: GenericArgsRef<'tcx>) -> J {
        J::A(
            a.iter()
                .filter_map(|g| match g.kind() {
                    GenericArgKind::Type(t) => Some(self.ty(t)),
                    GenericArgKind::Const(c) => Some(J::O(vec![("k", s("const")), ("v", s(format!("{:?}", c)))])),
                    _ => None,
                })
                .collect(),
        )
    }
    fn ty(&self, t: Ty<'tcx>) -> J {
        let k = |k: &str| J::O(vec![("k", s(k))]);
        match t.kind() {
            TyKind::Bool => k("bool"),
            TyKind::Char => k("char"),
            TyKind::Str => k("str"),
            TyKind::Never => k("never"),
            TyKind::Int(i) => k(i.name_str()),
            TyKind::Uint(i) => k(i.name_str()),
            TyKind::Float(i) => k(i.name_str()),
            TyKind::Adt(d, a) => J::O(vec![("k", s("adt")), ("d", s(self.id(d.did()))), ("p", s(self.pretty(d.did()))), ("a", self.args(a))]),
            TyKind::Array(e, c) => {
                let len = c.try_to_target_usize(self.tcx);
                J::O(vec![("k", s("array")), ("t", self.ty(*e)), ("n", len.map_or(J::Null, |x| J::N(x as i128)))])
            }
            TyKind::Slice(e) => J::O(vec![("k", s("slice")), ("t", self.ty(*e))]),
            TyKind::RawPtr(e, m) => J::O(vec![("k", s("ptr")), ("t", self.ty(*e)), ("m", J::B(m.is_mut()))]),
            TyKind::Ref(_, e, m) => J::O(vec![("k", s("ref")), ("t", self.ty(*e)), ("m", J::B(m.is_mut()))]),
            TyKind::FnDef(d, a) => J::O(vec![("k", s("fndef")), ("d", self.def(*d)), ("a", self.args(a.skip_binder()))]),
            TyKind::Closure(d, a) => {
                let ca = a.as_closure();
                J::O(vec![("k", s("closure")), ("d", s(self.id(*d))), ("up", J::A(ca.upvar_tys().iter().map(|t| self.ty(t)).collect())), ("pa", self.args(self.tcx.mk_args(ca.parent_args())))])
            }
            TyKind::Tuple(ts) => J::O(vec![("k", s("tuple")), ("a", J::A(ts.iter().map(|t| self.ty(t)).collect()))]),
            TyKind::Param(p) => J::O(vec![("k", s("param")), ("n", s(p.name.to_string()))]),
            TyKind::Alias(_, al) => {
                let did = match al.kind {
                    ty::AliasTyKind::Projection { def_id } => Some(def_id),
                    ty::AliasTyKind::Inherent { def_id } => Some(def_id),
                    ty::AliasTyKind::Opaque { def_id } => Some(def_id),
                    ty::AliasTyKind::Free { def_id } => Some(def_id),
                };
                J::O(vec![("k", s("alias")), ("d", did.map_or(J::Null, |d| s(self.pretty(d)))), ("a", self.args(al.args)), ("s", s(format!("{}", t)))])
            }
            _ => J::O(vec![("k", s("other")), ("s", s(format!("{:?}", t)))]),
        }
    }
    fn place(&self, p: &Place<'tcx>) -> J {
        let pr = p
            .projection
            .iter()
            .map(|e| match e {
                ProjectionElem::Deref => J::A(vec![s("deref")]),
                ProjectionElem::Field(f, t) => J::A(vec![s("field"), n(f.as_usize()), self.ty(t)]),
                ProjectionElem::Index(l) => J::A(vec![s("index"), n(l.as_usize())]),
                ProjectionElem::ConstantIndex { offset, min_length, from_end } => J::A(vec![s("cindex"), n(offset as usize), n(min_length as usize), J::B(from_end)]),
                ProjectionElem::Subslice { from, to, from_end } => J::A(vec![s("subslice"), n(from as usize), n(to as usize), J::B(from_end)]),
                ProjectionElem::Downcast(nm, v) => J::A(vec![s("down"), n(v.as_usize()), nm.map_or(J::Null, |x| s(x.to_string()))]),
                _ => J::A(vec![s("otherproj"), s(format!("{:?}", e))]),
            })
            .collect();
        J::A(vec![n(p.local.as_usize()), J::A(pr)])
    }
    fn scalar(&self, sc: Scalar) -> J {
        match sc {
            Scalar::Int(i) => J::O(vec![("k", s("int")), ("bits", s(format!("{}", i.to_bits_unchecked()))), ("size", n(i.size().bytes() as usize))]),
            Scalar::Ptr(p, _) => {
                let aid = p.provenance.alloc_id();
                match self.tcx.try_get_global_alloc(aid) {
                    Some(GlobalAlloc::Static(d)) => J::O(vec![("k", s("static")), ("d", self.def(d))]),
                    Some(GlobalAlloc::Function { instance }) => J::O(vec![("k", s("fnptr")), ("d", self.def(instance.def_id()))]),
                    Some(GlobalAlloc::Memory(m)) => {
                        let a = m.inner();
                        let len = a.len();
                        let bytes = a.inspect_with_uninit_and_ptr_outside_interpreter(0..len);
                        J::O(vec![("k", s("mem")), ("bytes", J::A(bytes.iter().take(4096).map(|b| J::N(*b as i128)).collect()))])
                    }
                    _ => J::O(vec![("k", s("ptr"))]),
                }
            }
        }
    }
    /// the value of a constant, taken apart along its type
    fn cval(&self, cv: ConstValue, t: Ty<'tcx>, left: &mut usize) -> J {
        if *left == 0 {
            return J::O(vec![("k", s("large"))]);
        }
        *left -= 1;
        match (t.kind(), cv) {
            (TyKind::Ref(_, u, _) | TyKind::RawPtr(u, _), ConstValue::Scalar(sc @ Scalar::Ptr(p, _))) => {
                let (prov, offset) = p.into_raw_parts();
                let aid = prov.alloc_id();
                match self.tcx.try_get_global_alloc(aid) {
                    Some(GlobalAlloc::Memory(_)) if u.is_sized(self.tcx, ty::TypingEnv::fully_monomorphized()) => self.cval(ConstValue::Indirect { alloc_id: aid, offset }, *u, left),
                    Some(GlobalAlloc::Static(d)) => {
                        let mut v = vec![("k", s("static")), ("d", self.def(d))];
                        let env = ty::TypingEnv::fully_monomorphized();
                        if !self.tcx.is_mutable_static(d) && self.tcx.is_static(d) && !self.tcx.is_foreign_item(d) && !self.tcx.is_thread_local_static(d) && u.is_freeze(self.tcx, env) {
                            if let Ok(a) = self.tcx.eval_static_initializer(d) {
                                let id = self.tcx.reserve_and_set_memory_alloc(a);
                                v.push(("init", self.cval(ConstValue::Indirect { alloc_id: id, offset }, *u, left)));
                            }
                        }
                        J::O(v)
                    }
                    _ => self.scalar(sc),
                }
            }
            (TyKind::Ref(_, u, _), ConstValue::Slice { alloc_id, meta }) => match u.kind() {
                TyKind::Slice(e) => self.cval(ConstValue::Indirect { alloc_id, offset: rustc_abi::Size::ZERO }, Ty::new_array(self.tcx, *e, meta), left),
                _ => match cv.try_get_slice_bytes_for_diagnostics(self.tcx) {
                    Some(b) => J::O(vec![("k", s("bytes")), ("s", s(String::from_utf8_lossy(b).to_string()))]),
                    None => J::O(vec![("k", s("opaque"))]),
                },
            },
            (TyKind::Array(..) | TyKind::Tuple(..), ConstValue::Indirect { .. } | ConstValue::Scalar(Scalar::Int(_))) => self.agg(cv, t, left),
            (TyKind::Adt(d, _), ConstValue::Indirect { .. }) if !d.is_union() => self.agg(cv, t, left),
            (_, ConstValue::Scalar(sc)) => self.scalar(sc),
            (_, ConstValue::ZeroSized) => J::O(vec![("k", s("zst"))]),
            _ => J::O(vec![("k", s("opaque"))]),
        }
    }
    fn agg(&self, cv: ConstValue, t: Ty<'tcx>, left: &mut usize) -> J {
        match self.tcx.try_destructure_mir_constant_for_user_output(cv, t) {
            Some(d) => J::O(vec![
                ("k", s("agg")),
                ("v", n(d.variant.map_or(0, |v| v.as_usize()))),
                ("fs", J::A(d.fields.iter().map(|(v, ft)| J::O(vec![("t", self.ty(*ft)), ("v", self.cval(*v, *ft, left))])).collect())),
            ]),
            None => J::O(vec![("k", s("opaque"))]),
        }
    }
    fn konst(&self, body: &Body<'tcx>, c: &ConstOperand<'tcx>) -> J {
        let t = c.const_.ty();
        let mut v = vec![("ty", self.ty(t))];
        if let Const::Unevaluated(u, _) = c.const_ {
            if let Some(p) = u.promoted {
                v.push(("promoted", n(p.as_usize())));
                v.push(("of", s(self.id(u.def))));
                return J::O(v);
            }
            v.push(("item", self.def(u.def)));
            v.push(("iargs", self.args(u.args)));
        }
        if matches!(t.kind(), TyKind::FnDef(..)) {
            return J::O(v);
        }
        let env = ty::TypingEnv::post_analysis(self.tcx, body.source.def_id());
        match c.const_.eval(self.tcx, env, c.span) {
            Ok(cv) => v.push(("val", self.cval(cv, t, &mut 20000))),
            Err(_) => v.push(("val", J::O(vec![("k", s("generic"))]))),
        }
        v.push(("dbg", s(with_no_trimmed_paths!(format!("{}", c.const_)))));
        J::O(v)
    }
    fn operand(&self, b: &Body<'tcx>, o: &Operand<'tcx>) -> J {
        match o {
            Operand::Copy(p) => J::O(vec![("k", s("copy")), ("p", self.place(p))]),
            Operand::Move(p) => J::O(vec![("k", s("move")), ("p", self.place(p))]),
            Operand::Constant(c) => J::O(vec![("k", s("const")), ("c", self.konst(b, c))]),
            x => J::O(vec![("k", s("other")), ("s", s(format!("{:?}", x)))]),
        }
    }
    fn rvalue(&self, b: &Body<'tcx>, r: &Rvalue<'tcx>) -> J {
        match r {
            Rvalue::Use(o, ..) => J::O(vec![("k", s("use")), ("o", self.operand(b, o))]),
            Rvalue::Repeat(o, c) => {
                let len = c.try_to_target_usize(self.tcx);
                J::O(vec![("k", s("repeat")), ("o", self.operand(b, o)), ("n", len.map_or(J::Null, |x| J::N(x as i128)))])
            }
            Rvalue::Ref(_, bk, p) => J::O(vec![("k", s("ref")), ("m", J::B(matches!(bk, BorrowKind::Mut { .. }))), ("p", self.place(p))]),
            Rvalue::Reborrow(_, m, p) => J::O(vec![("k", s("ref")), ("m", J::B(m.is_mut())), ("p", self.place(p))]),
            Rvalue::RawPtr(_, p) => J::O(vec![("k", s("rawptr")), ("p", self.place(p))]),
            Rvalue::ThreadLocalRef(d) => J::O(vec![("k", s("tls")), ("d", self.def(*d))]),
            Rvalue::Cast(ck, o, t) => J::O(vec![("k", s("cast")), ("ck", s(format!("{:?}", ck))), ("o", self.operand(b, o)), ("t", self.ty(*t)), ("ft", self.ty(o.ty(&b.local_decls, self.tcx)))]),
            Rvalue::BinaryOp(op, x) => J::O(vec![("k", s("bin")), ("op", s(format!("{:?}", op))), ("l", self.operand(b, &x.0)), ("r", self.operand(b, &x.1)), ("t", self.ty(x.0.ty(&b.local_decls, self.tcx)))]),
            Rvalue::UnaryOp(op, o) => J::O(vec![("k", s("un")), ("op", s(format!("{:?}", op))), ("o", self.operand(b, o)), ("t", self.ty(o.ty(&b.local_decls, self.tcx)))]),
            Rvalue::Discriminant(p) => J::O(vec![("k", s("discr")), ("p", self.place(p)), ("t", self.ty(p.ty(&b.local_decls, self.tcx).ty))]),
            Rvalue::CopyForDeref(p) => J::O(vec![("k", s("use")), ("o", J::O(vec![("k", s("copy")), ("p", self.place(p))]))]),
            Rvalue::Aggregate(ak, ops) => {
                let mut v = vec![("k", s("agg"))];
                match &**ak {
                    AggregateKind::Array(_) => v.push(("ak", s("array"))),
                    AggregateKind::Tuple => v.push(("ak", s("tuple"))),
                    AggregateKind::Adt(d, vi, a, _, _) => {
                        v.push(("ak", s("adt")));
                        v.push(("d", s(self.id(*d))));
                        v.push(("dp", s(self.pretty(*d))));
                        v.push(("v", n(vi.as_usize())));
                        v.push(("a", self.args(a)));
                    }
                    AggregateKind::Closure(d, a) => {
                        v.push(("ak", s("closure")));
                        v.push(("d", s(self.id(*d))));
                        v.push(("pa", self.args(self.tcx.mk_args(a.as_closure().parent_args()))));
                    }
                    x => v.push(("ak", s(format!("{:?}", x)))),
                }
                v.push(("ops", J::A(ops.iter().map(|o| self.operand(b, o)).collect())));
                J::O(v)
            }
            x => J::O(vec![("k", s("other")), ("s", s(format!("{:?}", x)))]),
        }
    }
    fn body(&self, b: &Body<'tcx>) -> J {
        let locals = b
            .local_decls
            .iter()
            .map(|d| J::O(vec![("t", self.ty(d.ty)), ("m", J::B(d.mutability.is_mut()))]))
            .collect();
        let names = b
            .var_debug_info
            .iter()
            .map(|v| {
                let p = match &v.value {
                    VarDebugInfoContents::Place(p) => self.place(p),
                    _ => J::Null,
                };
                J::A(vec![s(v.name.to_string()), p])
            })
            .collect();
        let blocks = b
            .basic_blocks
            .iter()
            .map(|bb| {
                let mut st = vec![];
                for x in &bb.statements {
                    match &x.kind {
                        StatementKind::Assign(pr) => st.push(J::O(vec![("k", s("assign")), ("p", self.place(&pr.0)), ("r", self.rvalue(b, &pr.1)), ("sp", self.span(x.source_info.span))])),
                        StatementKind::SetDiscriminant { place, variant_index } => st.push(J::O(vec![("k", s("setdiscr")), ("p", self.place(place)), ("v", n(variant_index.as_usize())), ("sp", self.span(x.source_info.span))])),
                        StatementKind::StorageLive(_) | StatementKind::StorageDead(_) | StatementKind::Nop | StatementKind::FakeRead(_) | StatementKind::PlaceMention(_) | StatementKind::AscribeUserType(..) | StatementKind::ConstEvalCounter | StatementKind::Coverage(_) => {}
                        k => st.push(J::O(vec![("k", s("other")), ("s", s(format!("{:?}", k))), ("sp", self.span(x.source_info.span))])),
                    }
                }
                let t = bb.terminator();
                let mut v = match &t.kind {
                    TerminatorKind::Goto { target, .. } => vec![("k", s("goto")), ("t", n(target.as_usize()))],
                    TerminatorKind::SwitchInt { discr, targets } => vec![
                        ("k", s("switch")),
                        ("d", self.operand(b, discr)),
                        ("dt", self.ty(discr.ty(&b.local_decls, self.tcx))),
                        ("cases", J::A(targets.iter().map(|(v, t)| J::A(vec![s(format!("{}", v)), n(t.as_usize())])).collect())),
                        ("o", n(targets.otherwise().as_usize())),
                    ],
                    TerminatorKind::Return => vec![("k", s("return"))],
                    TerminatorKind::Unreachable => vec![("k", s("unreachable"))],
                    TerminatorKind::UnwindResume => vec![("k", s("resume"))],
                    TerminatorKind::Drop { place, target, .. } => vec![("k", s("drop")), ("p", self.place(place)), ("t", n(target.as_usize()))],
                    TerminatorKind::Call { func, args, destination, target, .. } => vec![
                        ("k", s("call")),
                        ("f", self.operand(b, func)),
                        ("ft", self.ty(func.ty(&b.local_decls, self.tcx))),
                        ("args", J::A(args.iter().map(|a| self.operand(b, &a.node)).collect())),
                        ("at", J::A(args.iter().map(|a| self.ty(a.node.ty(&b.local_decls, self.tcx))).collect())),
                        ("dest", self.place(destination)),
                        ("dty", self.ty(destination.ty(&b.local_decls, self.tcx).ty)),
                        ("t", target.map_or(J::Null, |x| n(x.as_usize()))),
                    ],
                    TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                        let (mk, ops): (&str, Vec<J>) = match &**msg {
                            AssertKind::BoundsCheck { len, index } => ("bounds", vec![self.operand(b, len), self.operand(b, index)]),
                            AssertKind::Overflow(op, l, r) => match op {
                                BinOp::Add => ("overflow_add", vec![self.operand(b, l), self.operand(b, r)]),
                                BinOp::Sub => ("overflow_sub", vec![self.operand(b, l), self.operand(b, r)]),
                                BinOp::Mul => ("overflow_mul", vec![self.operand(b, l), self.operand(b, r)]),
                                _ => ("overflow_other", vec![self.operand(b, l), self.operand(b, r)]),
                            },
                            AssertKind::OverflowNeg(x) => ("overflow_neg", vec![self.operand(b, x)]),
                            AssertKind::DivisionByZero(x) => ("div_zero", vec![self.operand(b, x)]),
                            AssertKind::RemainderByZero(x) => ("rem_zero", vec![self.operand(b, x)]),
                            _ => ("other", vec![]),
                        };
                        vec![("k", s("assert")), ("c", self.operand(b, cond)), ("e", J::B(*expected)), ("mk", s(mk)), ("ops", J::A(ops)), ("t", n(target.as_usize()))]
                    }
                    TerminatorKind::FalseEdge { real_target, .. } => vec![("k", s("goto")), ("t", n(real_target.as_usize()))],
                    TerminatorKind::FalseUnwind { real_target, .. } => vec![("k", s("goto")), ("t", n(real_target.as_usize()))],
                    k => vec![("k", s("other")), ("s", s(format!("{:?}", k)))],
                };
                v.push(("sp", self.span(t.source_info.span)));
                J::O(vec![("cleanup", J::B(bb.is_cleanup)), ("st", J::A(st)), ("t", J::O(v))])
            })
            .collect();
        J::O(vec![("argc", n(b.arg_count)), ("spread", b.spread_arg.map_or(J::Null, |l| n(l.as_usize()))), ("locals", J::A(locals)), ("names", J::A(names)), ("bb", J::A(blocks))])
    }
    fn generics(&self, d: DefId) -> J {
        let g = self.tcx.generics_of(d);
        let mut v = vec![];
        for i in 0..g.count() {
            let p = g.param_at(i, self.tcx);
            match p.kind {
                ty::GenericParamDefKind::Lifetime => {}
                _ => v.push(s(p.name.to_string())),
            }
        }
        J::A(v)
    }
}

struct UnsafeFinder<'tcx> {
    tcx: TyCtxt<'tcx>,
    found: Vec<Span>,
}
impl<'tcx> rustc_hir::intravisit::Visitor<'tcx> for UnsafeFinder<'tcx> {
    type NestedFilter = rustc_middle::hir::nested_filter::OnlyBodies;
    fn maybe_tcx(&mut self) -> TyCtxt<'tcx> {
        self.tcx
    }
    fn visit_block(&mut self, b: &'tcx rustc_hir::Block<'tcx>) {
        if let rustc_hir::BlockCheckMode::UnsafeBlock(rustc_hir::UnsafeSource::UserProvided) = b.rules {
            if !b.span.in_external_macro(self.tcx.sess.source_map()) {
                self.found.push(b.span);
            }
        }
        rustc_hir::intravisit::walk_block(self, b);
    }
}

fn auto_trait<'tcx>(tcx: TyCtxt<'tcx>, t: ty::Ty<'tcx>, tr: DefId) -> bool {
    use rustc_infer::infer::TyCtxtInferExt;
    use rustc_trait_selection::infer::InferCtxtExt;
    let (infcx, pe) = tcx.infer_ctxt().build_with_typing_env(ty::TypingEnv::fully_monomorphized());
    infcx.type_implements_trait(tr, [t], pe).must_apply_modulo_regions()
}

struct Cb;
impl Callbacks for Cb {
    fn after_analysis<'tcx>(&mut self, _c: &rustc_interface::interface::Compiler, tcx: TyCtxt<'tcx>) -> Compilation {
        let Ok(out) = std::env::var("VERIF_MIR_OUT") else { return Compilation::Continue };
        let cx = Cx { tcx };
        let mut fns = vec![];
        let keys: Vec<LocalDefId> = tcx.mir_keys(()).iter().copied().collect();
        for ld in keys {
            let d = ld.to_def_id();
            let kind = tcx.def_kind(d);
            let (kname, body): (&str, Option<&Body<'tcx>>) = match kind {
                DefKind::Fn | DefKind::AssocFn => ("fn", Some(tcx.optimized_mir(d))),
                DefKind::Closure => ("closure", Some(tcx.optimized_mir(d))),
                DefKind::Const { .. } | DefKind::AssocConst { .. } => ("const", None),
                DefKind::Static { .. } => ("static", None),
                DefKind::Ctor(..) => ("ctor", Some(tcx.optimized_mir(d))),
                _ => ("other", None),
            };
            let mut v = vec![("def", cx.def(d)), ("kind", s(kname)), ("generics", cx.generics(d)), ("sp", cx.span(tcx.def_span(d)))];
            let vd = tcx.typeck_root_def_id(d);
            let vis = match tcx.def_kind(vd) {
                DefKind::Fn | DefKind::AssocFn | DefKind::Const { .. } | DefKind::AssocConst { .. } | DefKind::Static { .. } | DefKind::Ctor(..) => format!("{:?}", tcx.visibility(vd)),
                _ => String::new(),
            };
            v.push(("vis", s(vis)));
            if let DefKind::Static { mutability, .. } = kind {
                v.push(("static_mut", J::B(mutability.is_mut())));
                v.push(("ty", cx.ty(tcx.type_of(d).skip_binder())));
                v.push(("freeze", J::B(tcx.type_of(d).skip_binder().is_freeze(tcx, ty::TypingEnv::fully_monomorphized()))));
                v.push(("tls", J::B(tcx.is_thread_local_static(d))));
            }
            if matches!(kind, DefKind::Fn | DefKind::AssocFn) {
                let sig = tcx.fn_sig(d).skip_binder();
                v.push(("unsafe_fn", J::B(sig.safety().is_unsafe())));
                v.push(("out", cx.ty(sig.output().skip_binder())));
                v.push(("ins", J::A(sig.inputs().skip_binder().iter().map(|t| cx.ty(*t)).collect())));
            }
            if kind == DefKind::Closure {
                v.push(("parent_fn", s(cx.id(tcx.typeck_root_def_id(d)))));
            }
            let mut uf = UnsafeFinder { tcx, found: vec![] };
            if kind != DefKind::Closure && !matches!(kind, DefKind::Ctor(..)) {
                if let Some(hb) = tcx.hir_maybe_body_owned_by(ld) {
                    rustc_hir::intravisit::Visitor::visit_body(&mut uf, hb);
                }
            }
            v.push(("unsafe", J::A(uf.found.iter().map(|sp| cx.span(*sp)).collect())));
            if let Some(b) = body {
                v.push(("body", cx.body(b)));
                if !matches!(kind, DefKind::Ctor(..)) {
                    let pm = tcx.promoted_mir(d);
                    v.push(("promoted", J::A(pm.iter().map(|p| cx.body(p)).collect())));
                }
            }
            fns.push(J::O(v));
        }
        // ADTs, impls
        let mut adts = vec![];
        let mut impls = vec![];
        for ld in tcx.hir_crate_items(()).definitions() {
            let d = ld.to_def_id();
            match tcx.def_kind(d) {
                DefKind::Struct | DefKind::Enum | DefKind::Union => {
                    let a = tcx.adt_def(d);
                    let vars = a
                        .variants()
                        .iter()
                        .map(|vr| {
                            J::O(vec![
                                ("name", s(vr.name.to_string())),
                                (
                                    "fields",
                                    J::A(vr.fields.iter().map(|f| {
                                        J::A(vec![s(f.name.to_string()), cx.ty(tcx.type_of(f.did).skip_binder()), s(format!("{:?}", f.vis))])
                                    }).collect()),
                                ),
                            ])
                        })
                        .collect();
                    let discrs = if a.is_enum() { a.discriminants(tcx).map(|(_, d)| s(format!("{}", d.val))).collect() } else { vec![] };
                    // auto traits with every type parameter at f64 and every lifetime erased
                    let f64t = tcx.types.f64;
                    let ga = ty::GenericArgs::for_item(tcx, d, |p, _| match p.kind {
                        ty::GenericParamDefKind::Lifetime => tcx.lifetimes.re_erased.into(),
                        ty::GenericParamDefKind::Type { .. } => f64t.into(),
                        ty::GenericParamDefKind::Const { .. } => ty::Const::new_misc_error(tcx).into(),
                    });
                    let mut auto = vec![];
                    for (nm, tr) in [("Send", tcx.get_diagnostic_item(rustc_span::sym::Send)), ("Sync", tcx.lang_items().sync_trait())] {
                        if let Some(tr) = tr {
                            auto.push((nm, auto_trait(tcx, ty::Ty::new_adt(tcx, a, ga), tr)));
                        }
                    }
                    let mut afields = vec![];
                    for vr in a.variants() {
                        for f in vr.fields.iter() {
                            let t = tcx.normalize_erasing_regions(ty::TypingEnv::fully_monomorphized(), f.ty(tcx, ga));
                            for (nm, tr) in [("Send", tcx.get_diagnostic_item(rustc_span::sym::Send)), ("Sync", tcx.lang_items().sync_trait())] {
                                if let Some(tr) = tr {
                                    if !auto_trait(tcx, t, tr) {
                                        afields.push(J::A(vec![s(f.name.to_string()), s(nm), s(format!("{}", t))]));
                                    }
                                }
                            }
                        }
                    }
                    adts.push(J::O(vec![("auto", J::O(auto.into_iter().map(|(n, b)| (n, J::B(b))).collect())), ("auto_missing", J::A(afields)), ("def", cx.def(d)), ("generics", cx.generics(d)), ("enum", J::B(a.is_enum())), ("variants", J::A(vars)), ("discrs", J::A(discrs)), ("sp", cx.span(tcx.def_span(d))), ("vis", s(format!("{:?}", tcx.visibility(d))))]));
                }
                DefKind::Impl { .. } => {
                    let mut items = vec![];
                    for it in tcx.associated_items(d).in_definition_order() {
                        items.push(J::A(vec![s(it.opt_name().map_or(String::new(), |x| x.to_string())), s(cx.id(it.def_id))]));
                    }
                    let mut v = vec![("id", s(cx.id(d))), ("self", cx.ty(tcx.type_of(d).skip_binder())), ("generics", cx.generics(d)), ("items", J::A(items)), ("sp", cx.span(tcx.def_span(d)))];
                    if let Some(t) = tcx.impl_opt_trait_ref(d) {
                        let t = t.skip_binder();
                        v.push(("trait", s(cx.pretty(t.def_id))));
                        v.push(("targs", cx.args(t.args)));
                        v.push(("unsafe_impl", J::B(tcx.impl_trait_header(d).safety.is_unsafe())));
                        v.push(("derived", J::B(tcx.is_automatically_derived(d))));
                    }
                    impls.push(J::O(v));
                }
                _ => {}
            }
        }
        let mut traits = vec![];
        for ld in tcx.hir_crate_items(()).definitions() {
            let d = ld.to_def_id();
            if tcx.def_kind(d) == DefKind::Trait {
                let mut items = vec![];
                for it in tcx.associated_items(d).in_definition_order() {
                    items.push(J::A(vec![s(it.opt_name().map_or(String::new(), |x| x.to_string())), s(cx.id(it.def_id)), J::B(it.defaultness(tcx).has_value())]));
                }
                traits.push(J::O(vec![("id", s(cx.id(d))), ("p", s(cx.pretty(d))), ("items", J::A(items))]));
            }
        }
        let root = J::O(vec![
            ("crate", s(tcx.crate_name(rustc_hir::def_id::LOCAL_CRATE).to_string())),
            ("test", J::B(tcx.sess.is_test_crate())),
            ("overflow_checks", J::B(tcx.sess.overflow_checks())),
            ("fns", J::A(fns)),
            ("adts", J::A(adts)),
            ("impls", J::A(impls)),
            ("traits", J::A(traits)),
        ]);
        let mut o = String::new();
        root.w(&mut o);
        std::fs::write(&out, o).expect("write MIR dump");
        Compilation::Continue
    }
}

fn main() {
    let mut args: Vec<String> = std::env::args().collect();
    // RUSTC_WORKSPACE_WRAPPER passes the real rustc as argv[1]
    if args.len() > 1 && args[1].ends_with("rustc") {
        args.remove(1);
    }
    let is_target = args.windows(2).any(|w| w[0] == "--crate-name" && w[1] == "auto_palette");
    if is_target {
        args.push("-Zmir-opt-level=0".into());
        args.push("-Zinline-mir=no".into());
        args.push("-Coverflow-checks=on".into());
        args.push("-Zmir-enable-passes=-CheckAlignment,-CheckNull".into());
        args.push("-Awarnings".into());
    }
    struct Nop;
    impl Callbacks for Nop {}
    if is_target {
        rustc_driver::compiler_entrypoint(&args, &mut Cb);
    } else {
        rustc_driver::compiler_entrypoint(&args, &mut Nop);
    }
}

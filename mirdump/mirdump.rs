// MIR exporter: a rustc driver that writes the MIR of every body of the crate being compiled
// as JSON.  The MIR is the compiler's own (query `mir_promoted`: after type checking, match
// lowering and promotion, before borrow checking, drop elaboration and any optimisation).
#![feature(rustc_private)]
extern crate rustc_abi;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_span;

use rustc_driver::{Callbacks, Compilation};
use rustc_hir::def::DefKind;
use rustc_hir::def_id::{DefId, LOCAL_CRATE};
use rustc_interface::interface::Compiler;
use rustc_middle::mir::interpret::{AllocRange, GlobalAlloc, Scalar};
use rustc_middle::mir::*;
use rustc_middle::ty::{self, GenericArgKind, Instance, Ty, TyCtxt, TyKind, TypingEnv};
use std::collections::{BTreeMap, BTreeSet};
use std::fmt::Write as _;

enum J {
    Null,
    B(bool),
    I(i128),
    S(String),
    A(Vec<J>),
    O(Vec<(&'static str, J)>),
}
fn esc(s: &str, o: &mut String) {
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            c if (c as u32) < 0x20 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
}
impl J {
    fn w(&self, o: &mut String) {
        match self {
            J::Null => o.push_str("null"),
            J::B(b) => o.push_str(if *b { "true" } else { "false" }),
            J::I(i) => {
                let _ = write!(o, "{i}");
            }
            J::S(s) => esc(s, o),
            J::A(v) => {
                o.push('[');
                for (i, x) in v.iter().enumerate() {
                    if i > 0 {
                        o.push(',');
                    }
                    x.w(o);
                }
                o.push(']');
            }
            J::O(v) => {
                o.push('{');
                for (i, (k, x)) in v.iter().enumerate() {
                    if i > 0 {
                        o.push(',');
                    }
                    esc(k, o);
                    o.push(':');
                    x.w(o);
                }
                o.push('}');
            }
        }
    }
}
fn s(x: impl Into<String>) -> J {
    J::S(x.into())
}
fn i(x: impl TryInto<i128>) -> J {
    J::I(x.try_into().ok().unwrap())
}

struct D<'tcx> {
    tcx: TyCtxt<'tcx>,
    adts: BTreeMap<String, DefId>,
    adts_done: BTreeSet<String>,
    env: TypingEnv<'tcx>,
    body_id: DefId,
}

impl<'tcx> D<'tcx> {
    fn path(&self, d: DefId) -> String {
        self.tcx.def_path_str(d)
    }
    fn key(&self, d: DefId) -> String {
        // crate name :: def path with disambiguators (unique, no types)
        format!("{}{}", self.tcx.crate_name(d.krate), self.tcx.def_path(d).to_string_no_crate_verbose())
    }
    fn args(&mut self, a: ty::GenericArgsRef<'tcx>) -> J {
        let mut v = vec![];
        for x in a.iter() {
            match x.kind() {
                GenericArgKind::Type(t) => v.push(self.ty(t)),
                GenericArgKind::Const(c) => v.push(self.cst(c)),
                GenericArgKind::Lifetime(_) => {}
                _ => {}
            }
        }
        J::A(v)
    }
    fn cst(&mut self, c: ty::Const<'tcx>) -> J {
        match c.try_to_target_usize(self.tcx) {
            Some(n) => J::O(vec![("k", s("const")), ("v", i(n))]),
            None => J::O(vec![("k", s("const")), ("s", s(format!("{c:?}")))]),
        }
    }
    fn ty(&mut self, t: Ty<'tcx>) -> J {
        let tcx = self.tcx;
        match *t.kind() {
            TyKind::Bool => J::O(vec![("k", s("bool"))]),
            TyKind::Char => J::O(vec![("k", s("char"))]),
            TyKind::Str => J::O(vec![("k", s("str"))]),
            TyKind::Never => J::O(vec![("k", s("never"))]),
            TyKind::Int(x) => J::O(vec![("k", s("int")), ("n", s(x.name_str()))]),
            TyKind::Uint(x) => J::O(vec![("k", s("int")), ("n", s(x.name_str()))]),
            TyKind::Float(x) => J::O(vec![("k", s("float")), ("n", s(x.name_str()))]),
            TyKind::Adt(d, a) => {
                let p = self.path(d.did());
                self.adts.insert(p.clone(), d.did());
                J::O(vec![("k", s("adt")), ("p", s(p)), ("a", self.args(a))])
            }
            TyKind::Array(t, n) => {
                let n = self.cst(n);
                J::O(vec![("k", s("array")), ("t", self.ty(t)), ("len", n)])
            }
            TyKind::Slice(t) => J::O(vec![("k", s("slice")), ("t", self.ty(t))]),
            TyKind::RawPtr(t, m) => J::O(vec![("k", s("ptr")), ("t", self.ty(t)), ("m", J::B(m.is_mut()))]),
            TyKind::Ref(_, t, m) => J::O(vec![("k", s("ref")), ("t", self.ty(t)), ("m", J::B(m.is_mut()))]),
            TyKind::Tuple(ts) => {
                let v = ts.iter().map(|t| self.ty(t)).collect();
                J::O(vec![("k", s("tuple")), ("a", J::A(v))])
            }
            TyKind::Param(p) => J::O(vec![("k", s("param")), ("n", s(p.name.as_str()))]),
            TyKind::Closure(d, a) => {
                let up = a.as_closure().tupled_upvars_ty();
                let key = self.key(d);
                let upj = self.ty(up);
                J::O(vec![("k", s("closure")), ("key", s(key)), ("up", upj)])
            }
            TyKind::FnDef(d, a) => {
                let a = a.skip_binder();
                J::O(vec![("k", s("fndef")), ("f", self.callee(d.into(), a))])
            }
            TyKind::Dynamic(..) => J::O(vec![("k", s("dyn")), ("s", s(format!("{t}")))]),
            TyKind::Alias(..) => {
                let n = tcx.try_normalize_erasing_regions(self.env, ty::Unnormalized::new_wip(t));
                if let Ok(n) = n {
                    if n != t && !matches!(n.kind(), TyKind::Alias(..)) {
                        return self.ty(n);
                    }
                }
                J::O(vec![("k", s("alias")), ("s", s(format!("{t}")))])
            }
            _ => J::O(vec![("k", s("other")), ("s", s(format!("{t}")))]),
        }
    }
    fn callee(&mut self, d: DefId, a: ty::GenericArgsRef<'tcx>) -> J {
        let tcx = self.tcx;
        let mut o = vec![("p", s(self.path(d))), ("key", s(self.key(d)))];
        o.push(("a", self.args(a)));
        o.push(("local", J::B(d.is_local())));
        if let Some(tr) = tcx.trait_of_assoc(d) {
            o.push(("trait", s(self.path(tr))));
        } else if let Some(im) = tcx.impl_of_assoc(d) {
            let st = tcx.type_of(im).instantiate_identity().skip_norm_wip();
            let _ = im;
            let sj = self.ty(st);
            o.push(("implself", sj));
        }
        o.push(("name", s(tcx.opt_item_name(d).map(|x| x.to_string()).unwrap_or_default())));
        if matches!(tcx.def_kind(d), DefKind::Fn | DefKind::AssocFn) {
            if let Ok(Some(inst)) = Instance::try_resolve(tcx, self.env, d, a) {
                let rd = inst.def_id();
                let mut r = vec![("p", s(self.path(rd))), ("key", s(self.key(rd))), ("local", J::B(rd.is_local()))];
                r.push(("a", self.args(inst.args)));
                r.push(("virt", J::B(matches!(inst.def, ty::InstanceKind::Virtual(..)))));
                r.push(("item", J::B(matches!(inst.def, ty::InstanceKind::Item(..)))));
                o.push(("r", J::O(r)));
            }
        }
        J::O(o)
    }
    fn bytes(&self, alloc: rustc_middle::mir::interpret::AllocId, off: u64, len: u64) -> Option<Vec<u8>> {
        let GlobalAlloc::Memory(m) = self.tcx.global_alloc(alloc) else { return None };
        let r = AllocRange { start: rustc_abi::Size::from_bytes(off), size: rustc_abi::Size::from_bytes(len) };
        m.inner().get_bytes_strip_provenance(&self.tcx, r).ok().map(|b| b.to_vec())
    }
    fn cval(&mut self, v: ConstValue, t: Ty<'tcx>, o: &mut Vec<(&'static str, J)>) {
        let tcx = self.tcx;
        match v {
            ConstValue::ZeroSized => o.push(("zst", J::B(true))),
            ConstValue::Scalar(Scalar::Int(n)) => {
                let bits = n.to_bits(n.size());
                match *t.kind() {
                    TyKind::Int(_) => o.push(("int", J::I(n.size().sign_extend(bits)))),
                    TyKind::Bool => o.push(("bool", J::B(bits != 0))),
                    TyKind::Float(ty::FloatTy::F64) => {
                        o.push(("f64", s(format!("{:?}", f64::from_bits(bits as u64)))));
                        o.push(("bits", s(format!("{bits}"))));
                    }
                    _ => o.push(("int", if bits <= i128::MAX as u128 { J::I(bits as i128) } else { J::Null })),
                }
            }
            ConstValue::Scalar(Scalar::Ptr(p, _)) => {
                let (prov, off) = p.into_raw_parts();
                let id = prov.alloc_id();
                // reference to an array of bytes (b"..")
                if let TyKind::Ref(_, inner, _) = *t.kind() {
                    if let TyKind::Array(e, n) = *inner.kind() {
                        if *e.kind() == TyKind::Uint(ty::UintTy::U8) {
                            if let Some(n) = n.try_to_target_usize(tcx) {
                                if let Some(b) = self.bytes(id, off.bytes(), n) {
                                    o.push(("bytes", J::A(b.iter().map(|x| i(*x)).collect())));
                                }
                            }
                        }
                    }
                }
                if let GlobalAlloc::Static(d) = tcx.global_alloc(id) {
                    o.push(("static", s(self.key(d))));
                }
            }
            ConstValue::Slice { alloc_id, meta } => {
                if let Some(b) = self.bytes(alloc_id, 0, meta) {
                    if let TyKind::Ref(_, inner, _) = *t.kind() {
                        if inner.is_str() {
                            o.push(("str", s(String::from_utf8_lossy(&b).to_string())));
                        } else if matches!(*inner.kind(), TyKind::Slice(e) if *e.kind() == TyKind::Uint(ty::UintTy::U8)) {
                            o.push(("bytes", J::A(b.iter().map(|x| i(*x)).collect())));
                        } else if meta == 0 {
                            o.push(("emptyslice", J::B(true)));
                        }
                    }
                } else if meta == 0 {
                    o.push(("emptyslice", J::B(true)));
                }
            }
            ConstValue::Indirect { .. } => {
                o.push(("indirect", J::B(true)));
            }
        }
    }
    fn constant(&mut self, c: &ConstOperand<'tcx>) -> J {
        let t = c.const_.ty();
        let mut o = vec![("ty", self.ty(t))];
        match c.const_ {
            Const::Unevaluated(u, _) => {
                if let Some(p) = u.promoted {
                    o.push(("promoted", i(p.as_u32())));
                    let k = self.key(u.def);
                    o.push(("of", s(k)));
                    return J::O(o);
                }
                o.push(("item", s(self.path(u.def))));
                let k = self.key(u.def);
                o.push(("itemkey", s(k)));
            }
            Const::Ty(_, c) => {
                if let Some(n) = c.try_to_target_usize(self.tcx) {
                    o.push(("int", i(n)));
                    return J::O(o);
                }
                o.push(("tyconst", s(format!("{c:?}"))));
                return J::O(o);
            }
            _ => {}
        }
        if matches!(t.kind(), TyKind::FnDef(..)) {
            return J::O(o);
        }
        let generic = match c.const_ {
            Const::Unevaluated(u, _) => {
                use rustc_middle::ty::TypeVisitableExt;
                u.args.has_param()
            }
            _ => false,
        };
        if !generic {
            if let Ok(v) = c.const_.eval(self.tcx, self.env, c.span) {
                self.cval(v, t, &mut o);
            }
        } else if let Ok(v) = c.const_.eval(self.tcx, self.env, c.span) {
            self.cval(v, t, &mut o);
        }
        J::O(o)
    }
    fn place(&mut self, p: &Place<'tcx>) -> J {
        let mut v = vec![i(p.local.as_u32())];
        for e in p.projection.iter() {
            v.push(match e {
                ProjectionElem::Deref => s("*"),
                ProjectionElem::Field(f, t) => J::A(vec![s("f"), i(f.as_u32()), self.ty(t)]),
                ProjectionElem::Index(l) => J::A(vec![s("i"), i(l.as_u32())]),
                ProjectionElem::ConstantIndex { offset, min_length, from_end } => {
                    J::A(vec![s("ci"), i(offset), i(min_length), J::B(from_end)])
                }
                ProjectionElem::Subslice { from, to, from_end } => J::A(vec![s("ss"), i(from), i(to), J::B(from_end)]),
                ProjectionElem::Downcast(_, x) => J::A(vec![s("d"), i(x.as_u32())]),
                ProjectionElem::OpaqueCast(_) => J::A(vec![s("oc")]),
                _ => J::A(vec![s("?")]),
            });
        }
        J::A(v)
    }
    fn op(&mut self, o: &Operand<'tcx>) -> J {
        match o {
            Operand::Copy(p) => J::O(vec![("c", self.place(p))]),
            Operand::Move(p) => J::O(vec![("m", self.place(p))]),
            Operand::Constant(c) => J::O(vec![("k", self.constant(c))]),
            Operand::RuntimeChecks(r) => J::O(vec![("rc", s(format!("{r:?}")))]),
        }
    }
    fn rv(&mut self, r: &Rvalue<'tcx>) -> J {
        match r {
            Rvalue::Use(o, _) => J::A(vec![s("use"), self.op(o)]),
            Rvalue::Repeat(o, n) => J::A(vec![s("repeat"), self.op(o), self.cst(*n)]),
            Rvalue::Ref(_, bk, p) => {
                let m = match bk {
                    BorrowKind::Shared => "shared",
                    BorrowKind::Fake(_) => "fake",
                    BorrowKind::Mut { .. } => "mut",
                };
                J::A(vec![s("ref"), s(m), self.place(p)])
            }
            Rvalue::ThreadLocalRef(d) => J::A(vec![s("tls"), s(self.key(*d))]),
            Rvalue::RawPtr(k, p) => J::A(vec![s("raw"), s(format!("{k:?}")), self.place(p)]),
            Rvalue::Cast(k, o, t) => J::A(vec![s("cast"), s(format!("{k:?}")), self.op(o), self.ty(*t)]),
            Rvalue::BinaryOp(b, x) => J::A(vec![s("bin"), s(format!("{b:?}")), self.op(&x.0), self.op(&x.1)]),
            Rvalue::UnaryOp(u, x) => J::A(vec![s("un"), s(format!("{u:?}")), self.op(x)]),
            Rvalue::Discriminant(p) => J::A(vec![s("discr"), self.place(p)]),
            Rvalue::Aggregate(k, ops) => {
                let kj = match &**k {
                    AggregateKind::Array(t) => J::O(vec![("k", s("array")), ("t", self.ty(*t))]),
                    AggregateKind::Tuple => J::O(vec![("k", s("tuple"))]),
                    AggregateKind::Adt(d, v, a, _, f) => {
                        let p = self.path(*d);
                        self.adts.insert(p.clone(), *d);
                        J::O(vec![
                            ("k", s("adt")),
                            ("p", s(p)),
                            ("v", i(v.as_u32())),
                            ("a", self.args(a)),
                            ("uf", f.map(|f| i(f.as_u32())).unwrap_or(J::Null)),
                        ])
                    }
                    AggregateKind::Closure(d, _) => J::O(vec![("k", s("closure")), ("key", s(self.key(*d)))]),
                    AggregateKind::RawPtr(..) => J::O(vec![("k", s("rawptr"))]),
                    _ => J::O(vec![("k", s("other"))]),
                };
                let ops = ops.iter().map(|o| self.op(o)).collect();
                J::A(vec![s("agg"), kj, J::A(ops)])
            }
            Rvalue::CopyForDeref(p) => J::A(vec![s("use"), J::O(vec![("c", self.place(p))])]),
            Rvalue::Reborrow(_, m, p) => J::A(vec![s("ref"), s(if m.is_mut() { "mut" } else { "shared" }), self.place(p)]),
            Rvalue::WrapUnsafeBinder(..) => J::A(vec![s("unsupported")]),
        }
    }
    fn body(&mut self, b: &Body<'tcx>) -> J {
        let tcx = self.tcx;
        let locals = b.local_decls.iter().map(|l| self.ty(l.ty)).collect();
        let mut dbg = vec![];
        for v in &b.var_debug_info {
            let val = match &v.value {
                VarDebugInfoContents::Place(p) => self.place(p),
                VarDebugInfoContents::Const(c) => J::O(vec![("k", self.constant(c))]),
            };
            dbg.push(J::O(vec![
                ("n", s(v.name.as_str())),
                ("v", val),
                ("arg", v.argument_index.map(|x| i(x)).unwrap_or(J::Null)),
            ]));
        }
        let mut bbs = vec![];
        for bb in b.basic_blocks.iter() {
            let mut st = vec![];
            for x in &bb.statements {
                match &x.kind {
                    StatementKind::Assign(a) => {
                        let (p, r) = &**a;
                        st.push(J::A(vec![s("="), self.place(p), self.rv(r)]));
                    }
                    StatementKind::SetDiscriminant { place, variant_index } => {
                        st.push(J::A(vec![s("setd"), self.place(place), i(variant_index.as_u32())]));
                    }
                    StatementKind::StorageDead(l) => st.push(J::A(vec![s("dead"), i(l.as_u32())])),
                    StatementKind::Intrinsic(x) => match &**x {
                        NonDivergingIntrinsic::Assume(_) => {}
                        NonDivergingIntrinsic::CopyNonOverlapping(c) => {
                            st.push(J::A(vec![s("copyno"), self.op(&c.src), self.op(&c.dst), self.op(&c.count)]));
                        }
                    },
                    _ => {}
                }
            }
            let t = bb.terminator();
            let line = tcx.sess.source_map().lookup_char_pos(t.source_info.span.lo()).line;
            let tj = match &t.kind {
                TerminatorKind::Goto { target, .. } => J::A(vec![s("goto"), i(target.as_u32())]),
                TerminatorKind::FalseEdge { real_target, .. } => J::A(vec![s("goto"), i(real_target.as_u32())]),
                TerminatorKind::FalseUnwind { real_target, .. } => J::A(vec![s("goto"), i(real_target.as_u32())]),
                TerminatorKind::SwitchInt { discr, targets } => {
                    let ts = targets.iter().map(|(v, t)| J::A(vec![s(format!("{v}")), i(t.as_u32())])).collect();
                    let dty = discr.ty(&b.local_decls, tcx);
                    J::A(vec![s("switch"), self.op(discr), J::A(ts), i(targets.otherwise().as_u32()), self.ty(dty)])
                }
                TerminatorKind::Return => J::A(vec![s("return")]),
                TerminatorKind::Unreachable => J::A(vec![s("unreachable")]),
                TerminatorKind::UnwindResume | TerminatorKind::UnwindTerminate(_) => J::A(vec![s("resume")]),
                TerminatorKind::Drop { place, target, .. } => J::A(vec![s("drop"), self.place(place), i(target.as_u32())]),
                TerminatorKind::Call { func, args, destination, target, .. } => {
                    let f = match func {
                        Operand::Constant(c) if matches!(c.const_.ty().kind(), TyKind::FnDef(..)) => {
                            let TyKind::FnDef(d, a) = *c.const_.ty().kind() else { unreachable!() };
                            self.callee(d.into(), a.skip_binder())
                        }
                        o => J::O(vec![("dynop", self.op(o))]),
                    };
                    let a = args.iter().map(|a| self.op(&a.node)).collect();
                    J::A(vec![
                        s("call"),
                        f,
                        J::A(a),
                        self.place(destination),
                        target.map(|t| i(t.as_u32())).unwrap_or(J::Null),
                        i(line as i128),
                    ])
                }
                TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                    let (m, ops): (String, Vec<&Operand<'tcx>>) = match &**msg {
                        AssertKind::BoundsCheck { len, index } => ("bounds".into(), vec![len, index]),
                        AssertKind::Overflow(b, x, y) => (format!("overflow {b:?}"), vec![x, y]),
                        AssertKind::OverflowNeg(x) => ("overflow Neg".into(), vec![x]),
                        AssertKind::DivisionByZero(x) => ("div by zero".into(), vec![x]),
                        AssertKind::RemainderByZero(x) => ("rem by zero".into(), vec![x]),
                        _ => ("other".into(), vec![]),
                    };
                    let ops = ops.into_iter().map(|o| self.op(o)).collect();
                    J::A(vec![
                        s("assert"),
                        self.op(cond),
                        J::B(*expected),
                        s(m),
                        J::A(ops),
                        i(target.as_u32()),
                        i(line as i128),
                    ])
                }
                _ => J::A(vec![s("unsupported")]),
            };
            bbs.push(J::O(vec![("s", J::A(st)), ("t", tj), ("cleanup", J::B(bb.is_cleanup))]));
        }
        J::O(vec![
            ("argc", i(b.arg_count)),
            ("locals", J::A(locals)),
            ("debug", J::A(dbg)),
            ("blocks", J::A(bbs)),
        ])
    }
}

struct Cb {
    out: String,
}
impl Callbacks for Cb {
    fn after_expansion<'tcx>(&mut self, _c: &Compiler, tcx: TyCtxt<'tcx>) -> Compilation {
        let mut bodies = vec![];
        for did in tcx.mir_keys(()) {
            let did = *did;
            let kind = tcx.def_kind(did);
            if !matches!(
                kind,
                DefKind::Fn | DefKind::AssocFn | DefKind::Closure | DefKind::Const { .. } | DefKind::AssocConst { .. } | DefKind::Static { .. } | DefKind::AnonConst
            ) {
                continue;
            }
            let (b, p) = tcx.mir_promoted(did);
            let (b2, p2) = if b.is_stolen() || p.is_stolen() {
                // a constant that was already evaluated during type checking
                eprintln!("mirdump: stolen {}", tcx.def_path_str(did));
                if matches!(kind, DefKind::Fn | DefKind::AssocFn | DefKind::Closure) && !tcx.is_const_fn(did.to_def_id()) {
                    (tcx.optimized_mir(did).clone(), tcx.promoted_mir(did).clone())
                } else {
                    (tcx.mir_for_ctfe(did).clone(), tcx.promoted_mir(did).clone())
                }
            } else {
                (b.borrow().clone(), p.borrow().clone())
            };
            bodies.push((did, kind, b2, p2));
        }
        let mut d = D {
            tcx,
            adts: BTreeMap::new(),
            adts_done: BTreeSet::new(),
            env: TypingEnv::fully_monomorphized(),
            body_id: rustc_hir::def_id::CRATE_DEF_ID.to_def_id(),
        };
        let mut out = String::new();
        out.push_str("{\"crate\":");
        s(tcx.crate_name(LOCAL_CRATE).as_str()).w(&mut out);
        out.push_str(",\"bodies\":[\n");
        let mut first = true;
        for (did, kind, b, proms) in &bodies {
            d.env = TypingEnv::post_analysis(tcx, did.to_def_id());
            d.body_id = did.to_def_id();
            let mut gens = vec![];
            let mut g = Some(tcx.generics_of(did.to_def_id()));
            while let Some(gg) = g {
                for p in gg.own_params.iter().rev() {
                    if !matches!(p.kind, ty::GenericParamDefKind::Lifetime) {
                        gens.push(s(p.name.as_str()));
                    }
                }
                g = gg.parent.map(|x| tcx.generics_of(x));
            }
            gens.reverse();
            let sp = tcx.def_span(did.to_def_id());
            let lo = tcx.sess.source_map().lookup_char_pos(sp.lo());
            let file = format!("{}", lo.file.name.prefer_local_unconditionally());
            let mut o = vec![
                ("path", s(d.path(did.to_def_id()))),
                ("key", s(d.key(did.to_def_id()))),
                ("kind", s(format!("{kind:?}"))),
                ("gens", J::A(gens)),
                ("file", s(file)),
                ("line", i(lo.line)),
            ];
            if let Some(im) = tcx.impl_of_assoc(did.to_def_id()) {
                let st = tcx.type_of(im).instantiate_identity().skip_norm_wip();
                o.push(("derived", J::B(tcx.is_automatically_derived(im))));
                let sj = d.ty(st);
                o.push(("implself", sj));
                if let Some(tr) = tcx.impl_opt_trait_ref(im) {
                    let tr = tr.instantiate_identity().skip_norm_wip();
                    let pp = d.path(tr.def_id);
                    o.push(("trait", s(pp)));
                    o.push(("traitargs", d.args(tr.args)));
                }
            }
            if let Some(n) = tcx.opt_item_name(did.to_def_id()) {
                o.push(("name", s(n.as_str())));
            }
            o.push(("body", d.body(b)));
            let pj = proms.iter().map(|p| d.body(p)).collect();
            o.push(("promoted", J::A(pj)));
            if !first {
                out.push_str(",\n");
            }
            first = false;
            J::O(o).w(&mut out);
        }
        out.push_str("\n],\"adts\":{\n");
        // ADT definitions, closed under field types
        let mut first = true;
        loop {
            let todo: Vec<_> =
                d.adts.iter().filter(|(k, _)| !d.adts_done.contains(*k)).map(|(k, v)| (k.clone(), *v)).collect();
            if todo.is_empty() {
                break;
            }
            for (p, did) in todo {
                d.adts_done.insert(p.clone());
                let def = tcx.adt_def(did);
                d.env = TypingEnv::post_analysis(tcx, did);
                let mut vs = vec![];
                for (vi, v) in def.variants().iter_enumerated() {
                    let mut fs = vec![];
                    for f in &v.fields {
                        let ft = tcx.type_of(f.did).instantiate_identity().skip_norm_wip();
                        let local_or_std = did.is_local();
                        let fj = if local_or_std || def.is_struct() && v.fields.len() <= 8 || def.is_enum() { d.ty(ft) } else { J::Null };
                        fs.push(J::O(vec![("n", s(f.name.as_str())), ("t", fj)]));
                    }
                    let discr = if def.is_enum() { def.discriminant_for_variant(tcx, vi).val as i128 } else { 0 };
                    vs.push(J::O(vec![("n", s(v.name.as_str())), ("d", J::I(discr)), ("f", J::A(fs))]));
                }
                let gens = tcx
                    .generics_of(did)
                    .own_params
                    .iter()
                    .filter(|p| !matches!(p.kind, ty::GenericParamDefKind::Lifetime))
                    .map(|p| s(p.name.as_str()))
                    .collect();
                let o = J::O(vec![
                    ("kind", s(if def.is_enum() { "enum" } else if def.is_union() { "union" } else { "struct" })),
                    ("local", J::B(did.is_local())),
                    ("gens", J::A(gens)),
                    ("variants", J::A(vs)),
                ]);
                if !first {
                    out.push_str(",\n");
                }
                first = false;
                esc(&p, &mut out);
                out.push(':');
                o.w(&mut out);
            }
        }
        out.push_str("\n}}\n");
        std::fs::create_dir_all(&self.out).unwrap();
        let kind = if tcx.crate_types().iter().any(|t| format!("{t:?}") == "Executable") { "bin" } else { "lib" };
        let f = format!("{}/{}-{}.json", self.out, kind, tcx.crate_name(LOCAL_CRATE));
        let tmp = format!("{f}.tmp{}", std::process::id());
        std::fs::write(&tmp, out).unwrap();
        std::fs::rename(&tmp, &f).unwrap();
        Compilation::Continue
    }
}

fn main() -> std::process::ExitCode {
    // invoked as RUSTC_WORKSPACE_WRAPPER: argv[1] is the path of rustc
    let mut args: Vec<String> = std::env::args().collect();
    if args.len() > 1 && (args[1].ends_with("rustc") || args[1].ends_with("clippy-driver")) {
        args.remove(1);
    }
    let out = std::env::var("MIRDUMP_OUT").ok();
    let prim = std::env::var("CARGO_PRIMARY_PACKAGE").is_ok();
    let is_build = args.iter().any(|a| a.contains("build_script"));
    match out {
        Some(out) if prim && !is_build => rustc_driver::catch_with_exit_code(|| rustc_driver::compiler_entrypoint(&args, &mut Cb { out })),
        _ => {
            struct N;
            impl Callbacks for N {}
            rustc_driver::catch_with_exit_code(|| rustc_driver::compiler_entrypoint(&args, &mut N))
        }
    }
}

// mirdump: a rustc driver that writes the type-checked program (MIR of every
// local body, ADT / trait / impl tables, resolved callees, evaluated constants)
// as one JSON file.  It is used as RUSTC_WORKSPACE_WRAPPER (argv[1] is rustc) or
// directly.  Nothing of the analysed crate is executed.
#![feature(rustc_private)]
extern crate rustc_abi;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_session;
extern crate rustc_span;

use rustc_driver::{Callbacks, Compilation};
use rustc_hir::def::DefKind;
use rustc_hir::def_id::DefId;
use rustc_middle::mir::{self, *};
use rustc_middle::ty::{self, GenericArgKind, GenericArgsRef, Instance, Ty, TyCtxt, TypingEnv};
use std::collections::{BTreeMap, BTreeSet, VecDeque};
use std::fmt::Write as _;

#[derive(Clone)]
enum J {
    Null,
    B(bool),
    I(i128),
    S(String),
    A(Vec<J>),
    O(Vec<(&'static str, J)>),
    M(Vec<(String, J)>),
}
fn s<T: Into<String>>(x: T) -> J {
    J::S(x.into())
}
impl J {
    fn w(&self, o: &mut String) {
        match self {
            J::Null => o.push_str("null"),
            J::B(b) => o.push_str(if *b { "true" } else { "false" }),
            J::I(i) => {
                let _ = write!(o, "{}", i);
            }
            J::S(t) => js(t, o),
            J::A(v) => {
                o.push('[');
                for (i, x) in v.iter().enumerate() {
                    if i > 0 {
                        o.push(',');
                    }
                    x.w(o);
                }
                o.push(']');
            }
            J::O(v) => {
                o.push('{');
                for (i, (k, x)) in v.iter().enumerate() {
                    if i > 0 {
                        o.push(',');
                    }
                    js(k, o);
                    o.push(':');
                    x.w(o);
                }
                o.push('}');
            }
            J::M(v) => {
                o.push('{');
                for (i, (k, x)) in v.iter().enumerate() {
                    if i > 0 {
                        o.push(',');
                    }
                    js(k, o);
                    o.push(':');
                    x.w(o);
                }
                o.push('}');
            }
        }
    }
}
fn js(t: &str, o: &mut String) {
    o.push('"');
    for c in t.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 0x20 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
}

struct Dump<'tcx> {
    tcx: TyCtxt<'tcx>,
    adts: BTreeMap<String, DefId>,
    adt_queue: VecDeque<DefId>,
    ext_fns: BTreeMap<String, DefId>,
    ext_queue: VecDeque<(DefId, usize)>,
    depth: usize,
}

impl<'tcx> Dump<'tcx> {
    fn path(&self, d: DefId) -> String {
        rustc_middle::ty::print::with_no_trimmed_paths!(
            rustc_middle::ty::print::with_no_visible_paths!(self.tcx.def_path_str(d))
        )
    }
    fn args(&mut self, a: GenericArgsRef<'tcx>) -> J {
        let mut v = vec![];
        for g in a.iter() {
            match g.kind() {
                GenericArgKind::Type(t) => {
                    let t = self.ty(t);
                    v.push(t)
                }
                GenericArgKind::Const(c) => {
                    let t = self.tyconst(c);
                    v.push(J::O(vec![("k", s("const")), ("v", t)]))
                }
                GenericArgKind::Lifetime(_) => v.push(J::O(vec![("k", s("lt"))])),
                #[allow(unreachable_patterns)]
                _ => v.push(J::Null),
            }
        }
        J::A(v)
    }
    fn tyconst(&mut self, c: ty::Const<'tcx>) -> J {
        match c.try_to_target_usize(self.tcx) {
            Some(u) => J::I(u as i128),
            None => s(format!("{}", c)),
        }
    }
    fn adt(&mut self, d: DefId) -> String {
        let p = self.path(d);
        if !self.adts.contains_key(&p) {
            self.adts.insert(p.clone(), d);
            self.adt_queue.push_back(d);
        }
        p
    }
    fn ty(&mut self, t: Ty<'tcx>) -> J {
        match *t.kind() {
            ty::Bool | ty::Char | ty::Int(_) | ty::Uint(_) | ty::Float(_) | ty::Str => {
                J::O(vec![("k", s("prim")), ("n", s(format!("{}", t)))])
            }
            ty::Never => J::O(vec![("k", s("never"))]),
            ty::Adt(def, args) => {
                let p = self.adt(def.did());
                let a = self.args(args);
                J::O(vec![("k", s("adt")), ("p", s(p)), ("a", a)])
            }
            ty::Array(e, c) => {
                let e = self.ty(e);
                let c = self.tyconst(c);
                J::O(vec![("k", s("array")), ("t", e), ("n", c)])
            }
            ty::Slice(e) => {
                let e = self.ty(e);
                J::O(vec![("k", s("slice")), ("t", e)])
            }
            ty::RawPtr(e, m) => {
                let e = self.ty(e);
                J::O(vec![("k", s("rawptr")), ("t", e), ("m", J::B(m.is_mut()))])
            }
            ty::Ref(_, e, m) => {
                let e = self.ty(e);
                J::O(vec![("k", s("ref")), ("t", e), ("m", J::B(m.is_mut()))])
            }
            ty::FnDef(d, a) => self.fndef(d.into(), a.skip_binder()),
            ty::FnPtr(..) => J::O(vec![("k", s("fnptr"))]),
            ty::Dynamic(p, _) => {
                let n = p.principal_def_id().map(|d| self.path(d)).unwrap_or_default();
                J::O(vec![("k", s("dyn")), ("p", s(n))])
            }
            ty::Closure(d, a) => {
                let d: DefId = d.into();
                let p = self.path(d);
                let a = self.args(a);
                J::O(vec![("k", s("closure")), ("p", s(p)), ("a", a)])
            }
            ty::Tuple(ts) => {
                let mut v = vec![];
                for t in ts.iter() {
                    let j = self.ty(t);
                    v.push(j)
                }
                J::O(vec![("k", s("tuple")), ("a", J::A(v))])
            }
            ty::Alias(_, al) => {
                let (kind, d): (&str, DefId) = match al.kind {
                    ty::AliasTyKind::Projection { def_id } => ("proj", def_id.into()),
                    ty::AliasTyKind::Inherent { def_id } => ("inh", def_id.into()),
                    ty::AliasTyKind::Opaque { def_id } => ("opaque", def_id.into()),
                    ty::AliasTyKind::Free { def_id } => ("free", def_id.into()),
                };
                let p = self.path(d);
                let a = self.args(al.args);
                let (tr, nm) = if kind == "proj" {
                    let tr = self.tcx.parent(d);
                    (s(self.path(tr)), s(self.tcx.item_name(d).to_string()))
                } else {
                    (J::Null, J::Null)
                };
                J::O(vec![("k", s("alias")), ("ak", s(kind)), ("p", s(p)), ("a", a), ("trait", tr), ("name", nm)])
            }
            ty::Param(p) => J::O(vec![("k", s("param")), ("i", J::I(p.index as i128)), ("n", s(p.name.to_string()))]),
            _ => J::O(vec![("k", s("other")), ("n", s(format!("{:?}", t)))]),
        }
    }
    fn fndef(&mut self, d: DefId, a: GenericArgsRef<'tcx>) -> J {
        let tcx = self.tcx;
        let p = self.path(d);
        let mut tr = J::Null;
        let mut ntr = 0i128;
        if let Some(t) = tcx.trait_of_assoc(d) {
            tr = s(self.path(t));
            ntr = tcx.generics_of(t).count() as i128;
        }
        let mut imp = J::Null;
        if let Some(i) = tcx.impl_of_assoc(d) {
            let st = tcx.type_of(i).instantiate_identity().skip_norm_wip();
            imp = self.ty(st);
        }
        let name = tcx.opt_item_name(d).map(|x| x.to_string()).unwrap_or_default();
        if !d.is_local() && self.depth < 3 && tr_is_null(&tr) && tcx.is_mir_available(d) {
            let k = p.clone();
            if !self.ext_fns.contains_key(&k) && self.ext_fns.len() < 600 {
                self.ext_fns.insert(k, d);
                self.ext_queue.push_back((d, self.depth + 1));
            }
        }
        let aj = self.args(a);
        let is_ctor = matches!(tcx.def_kind(d), DefKind::Ctor(..));
        let ctor = if is_ctor { s(self.path(tcx.parent(d))) } else { J::Null };
        J::O(vec![
            ("k", s("fndef")),
            ("p", s(p)),
            ("a", aj),
            ("local", J::B(d.is_local())),
            ("trait", tr),
            ("ntr", J::I(ntr)),
            ("impl_self", imp),
            ("name", s(name)),
            ("ctor", ctor),
            ("unsafe", J::B(matches!(tcx.def_kind(d), DefKind::Fn | DefKind::AssocFn) && tcx.fn_sig(d).skip_binder().safety().is_unsafe())),
        ])
    }
    fn span(&self, sp: rustc_span::Span) -> J {
        let sm = self.tcx.sess.source_map();
        let sp = sp.source_callsite();
        let lo = sm.lookup_char_pos(sp.lo());
        s(format!("{}:{}", lo.file.name.prefer_local_unconditionally(), lo.line))
    }
    fn place(&mut self, p: &Place<'tcx>) -> J {
        let mut v = vec![];
        for e in p.projection.iter() {
            v.push(match e {
                ProjectionElem::Deref => J::A(vec![s("deref")]),
                ProjectionElem::Field(f, t) => {
                    let t = self.ty(t);
                    J::A(vec![s("field"), J::I(f.as_usize() as i128), t])
                }
                ProjectionElem::Index(l) => J::A(vec![s("index"), J::I(l.as_usize() as i128)]),
                ProjectionElem::ConstantIndex { offset, min_length, from_end } => J::A(vec![
                    s("cindex"),
                    J::I(offset as i128),
                    J::I(min_length as i128),
                    J::B(from_end),
                ]),
                ProjectionElem::Subslice { from, to, from_end } => {
                    J::A(vec![s("subslice"), J::I(from as i128), J::I(to as i128), J::B(from_end)])
                }
                ProjectionElem::Downcast(_, v) => J::A(vec![s("downcast"), J::I(v.as_usize() as i128)]),
                _ => J::A(vec![s("other")]),
            });
        }
        J::O(vec![("l", J::I(p.local.as_usize() as i128)), ("p", J::A(v))])
    }
    fn operand(&mut self, body: &Body<'tcx>, o: &Operand<'tcx>) -> J {
        match o {
            Operand::Copy(p) => {
                let p = self.place(p);
                J::A(vec![s("copy"), p])
            }
            Operand::Move(p) => {
                let p = self.place(p);
                J::A(vec![s("move"), p])
            }
            Operand::Constant(c) => {
                let c = self.konst(body, &c.const_);
                J::A(vec![s("const"), c])
            }
            _ => J::A(vec![s("rtcheck")]),
        }
    }
    fn scalar_of(&mut self, t: Ty<'tcx>, i: ty::ScalarInt) -> J {
        let bits = i.to_bits(i.size());
        match t.kind() {
            ty::Bool => J::O(vec![("c", s("bool")), ("v", J::B(bits != 0))]),
            ty::Int(_) => {
                let sz = i.size();
                J::O(vec![("c", s("int")), ("v", J::I(sz.sign_extend(bits)))])
            }
            ty::Uint(_) | ty::Char => J::O(vec![("c", s("int")), ("v", J::I(bits as i128))]),
            ty::Float(_) => {
                let f = if i.size().bytes() == 8 { f64::from_bits(bits as u64) } else { f32::from_bits(bits as u32) as f64 };
                J::O(vec![("c", s("float")), ("v", s(format!("{:e}", f))), ("bits", s(format!("{:x}", f.to_bits())))])
            }
            _ => J::O(vec![("c", s("bits")), ("v", J::I(bits as i128))]),
        }
    }
    fn konst(&mut self, body: &Body<'tcx>, c: &mir::Const<'tcx>) -> J {
        let t = c.ty();
        let tj = self.ty(t);
        let mut out = vec![("ty", tj)];
        if let ty::FnDef(..) = t.kind() {
            out.push(("c", s("fn")));
            return J::O(out);
        }
        if let mir::Const::Unevaluated(uv, _) = c {
            if let Some(p) = uv.promoted {
                out.push(("c", s("promoted")));
                out.push(("of", s(self.path(uv.def))));
                out.push(("i", J::I(p.as_usize() as i128)));
                return J::O(out);
            }
            out.push(("def", s(self.path(uv.def))));
        }
        let te = TypingEnv::post_analysis(self.tcx, body.source.def_id());
        match c.eval(self.tcx, te, rustc_span::DUMMY_SP) {
            Ok(ConstValue::Scalar(rustc_middle::mir::interpret::Scalar::Int(i))) => {
                let j = self.scalar_of(t, i);
                out.push(("c", s("val")));
                out.push(("v", j));
            }
            Ok(ConstValue::ZeroSized) => out.push(("c", s("zst"))),
            Ok(v @ ConstValue::Slice { .. }) => {
                out.push(("c", s("str")));
                let b = v.try_get_slice_bytes_for_diagnostics(self.tcx);
                let st = b.map(|b| String::from_utf8_lossy(b).to_string()).unwrap_or_default();
                out.push(("v", s(st)));
            }
            Ok(ConstValue::Scalar(rustc_middle::mir::interpret::Scalar::Ptr(p, _))) => {
                out.push(("c", s("ptr")));
                let (prov, _) = p.into_raw_parts();
                if let rustc_middle::mir::interpret::GlobalAlloc::Static(d) =
                    self.tcx.global_alloc(prov.alloc_id())
                {
                    out.push(("static", s(self.path(d))));
                }
            }
            Ok(_) => {
                let d = self.destructure(t, c, body);
                match d {
                    Some(d) => {
                        out.push(("c", s("agg")));
                        out.push(("v", d));
                    }
                    None => out.push(("c", s("opaque"))),
                }
            }
            Err(_) => {
                out.push(("c", s("uneval")));
                if let mir::Const::Ty(_, tc) = c {
                    out.push(("v", s(format!("{}", tc))));
                }
            }
        }
        J::O(out)
    }
    fn destructure(&mut self, _t: Ty<'tcx>, _c: &mir::Const<'tcx>, _b: &Body<'tcx>) -> Option<J> {
        None
    }
    fn rvalue(&mut self, body: &Body<'tcx>, r: &Rvalue<'tcx>) -> J {
        match r {
            Rvalue::Use(o, ..) => {
                let o = self.operand(body, o);
                J::A(vec![s("use"), o])
            }
            Rvalue::Repeat(o, c) => {
                let o = self.operand(body, o);
                let c = self.tyconst(*c);
                J::A(vec![s("repeat"), o, c])
            }
            Rvalue::Ref(_, k, p) => {
                let p = self.place(p);
                J::A(vec![s("ref"), J::B(matches!(k, BorrowKind::Mut { .. })), p])
            }
            Rvalue::RawPtr(k, p) => {
                let p = self.place(p);
                J::A(vec![s("rawptr"), s(format!("{:?}", k)), p])
            }
            Rvalue::Cast(k, o, t) => {
                let from = o.ty(&body.local_decls, self.tcx);
                let o = self.operand(body, o);
                let from = self.ty(from);
                let t = self.ty(*t);
                J::A(vec![s("cast"), s(format!("{:?}", k)), o, from, t])
            }
            Rvalue::BinaryOp(b, ops) => {
                let t = ops.0.ty(&body.local_decls, self.tcx);
                let t = self.ty(t);
                let l = self.operand(body, &ops.0);
                let r = self.operand(body, &ops.1);
                J::A(vec![s("bin"), s(format!("{:?}", b)), l, r, t])
            }
            Rvalue::UnaryOp(u, o) => {
                let t = o.ty(&body.local_decls, self.tcx);
                let t = self.ty(t);
                let o = self.operand(body, o);
                J::A(vec![s("un"), s(format!("{:?}", u)), o, t])
            }
            Rvalue::Discriminant(p) => {
                let t = p.ty(&body.local_decls, self.tcx).ty;
                let t = self.ty(t);
                let p = self.place(p);
                J::A(vec![s("discr"), p, t])
            }
            Rvalue::Aggregate(k, fs) => {
                let mut v = vec![];
                for f in fs.iter() {
                    let j = self.operand(body, f);
                    v.push(j)
                }
                let k = match **k {
                    AggregateKind::Array(t) => {
                        let t = self.ty(t);
                        J::A(vec![s("array"), t])
                    }
                    AggregateKind::Tuple => J::A(vec![s("tuple")]),
                    AggregateKind::Adt(d, vi, a, _, active) => {
                        let p = self.adt(d);
                        let a = self.args(a);
                        J::A(vec![s("adt"), s(p), J::I(vi.as_usize() as i128), a, J::B(active.is_some())])
                    }
                    AggregateKind::Closure(d, a) => {
                        let p = self.path(d);
                        let a = self.args(a);
                        J::A(vec![s("closure"), s(p), a])
                    }
                    _ => J::A(vec![s("other")]),
                };
                J::A(vec![s("agg"), k, J::A(v)])
            }
            Rvalue::CopyForDeref(p) => {
                let p = self.place(p);
                J::A(vec![s("use"), J::A(vec![s("copy"), p])])
            }
            Rvalue::ThreadLocalRef(d) => J::A(vec![s("tls"), s(self.path(*d))]),
            Rvalue::Reborrow(_, m, p) => {
                let p = self.place(p);
                J::A(vec![s("ref"), J::B(m.is_mut()), p])
            }
            _ => J::A(vec![s("other"), s(format!("{:?}", r))]),
        }
    }
    fn body(&mut self, d: DefId, body: &Body<'tcx>) -> J {
        let tcx = self.tcx;
        let mut locals = vec![];
        for l in body.local_decls.iter() {
            let j = self.ty(l.ty);
            locals.push(j);
        }
        let mut names = vec![];
        for v in &body.var_debug_info {
            if let VarDebugInfoContents::Place(p) = &v.value {
                let p = self.place(p);
                names.push(J::A(vec![s(v.name.to_string()), p]));
            }
        }
        let mut blocks = vec![];
        for (_, bb) in body.basic_blocks.iter_enumerated() {
            let mut st = vec![];
            for x in &bb.statements {
                let j = match &x.kind {
                    StatementKind::Assign(a) => {
                        let p = self.place(&a.0);
                        let r = self.rvalue(body, &a.1);
                        J::A(vec![s("assign"), p, r, self.span(x.source_info.span)])
                    }
                    StatementKind::SetDiscriminant { place, variant_index } => {
                        let p = self.place(place);
                        J::A(vec![s("setdiscr"), p, J::I(variant_index.as_usize() as i128)])
                    }
                    StatementKind::StorageLive(l) => J::A(vec![s("live"), J::I(l.as_usize() as i128)]),
                    StatementKind::StorageDead(l) => J::A(vec![s("dead"), J::I(l.as_usize() as i128)]),
                    StatementKind::Intrinsic(i) => J::A(vec![s("intrinsic"), s(format!("{:?}", i))]),
                    _ => continue,
                };
                st.push(j);
            }
            let t = bb.terminator();
            let sp = self.span(t.source_info.span);
            let tj = match &t.kind {
                TerminatorKind::Goto { target, .. } => J::O(vec![("t", s("goto")), ("to", J::I(target.as_usize() as i128))]),
                TerminatorKind::SwitchInt { discr, targets } => {
                    let ty_ = discr.ty(&body.local_decls, tcx);
                    let o = self.operand(body, discr);
                    let mut v = vec![];
                    for (val, b) in targets.iter() {
                        let val: i128 = match ty_.kind() {
                            ty::Int(it) => {
                                let bits = it.bit_width().unwrap_or(64);
                                if bits < 128 && (val >> (bits - 1)) & 1 == 1 {
                                    val as i128 - (1i128 << bits)
                                } else {
                                    val as i128
                                }
                            }
                            _ => val as i128,
                        };
                        v.push(J::A(vec![J::I(val), J::I(b.as_usize() as i128)]));
                    }
                    let tj = self.ty(ty_);
                    J::O(vec![
                        ("t", s("switch")),
                        ("o", o),
                        ("ty", tj),
                        ("arms", J::A(v)),
                        ("other", J::I(targets.otherwise().as_usize() as i128)),
                    ])
                }
                TerminatorKind::Return => J::O(vec![("t", s("return"))]),
                TerminatorKind::Unreachable => J::O(vec![("t", s("unreachable"))]),
                TerminatorKind::UnwindResume | TerminatorKind::UnwindTerminate(_) => J::O(vec![("t", s("resume"))]),
                TerminatorKind::Drop { place, target, .. } => {
                    let dt = place.ty(&body.local_decls, tcx).ty;
                    let dt = self.ty(dt);
                    let p = self.place(place);
                    J::O(vec![("t", s("drop")), ("p", p), ("ty", dt), ("to", J::I(target.as_usize() as i128))])
                }
                TerminatorKind::Call { func, args, destination, target, .. } => {
                    let f = self.operand(body, func);
                    let fty = func.ty(&body.local_decls, tcx);
                    let mut resolved = J::Null;
                    if let ty::FnDef(fd, fa) = fty.kind() {
                        let te = TypingEnv::post_analysis(tcx, body.source.def_id());
                        let fa = fa.skip_binder();
                        if let Ok(Some(inst)) = Instance::try_resolve(tcx, te, (*fd).into(), fa) {
                            let rd = inst.def_id();
                            if rd != (*fd).into() {
                                resolved = self.fndef(rd, inst.args);
                            }
                        }
                    }
                    let mut v = vec![];
                    for a in args.iter() {
                        let j = self.operand(body, &a.node);
                        v.push(j)
                    }
                    let mut at = vec![];
                    for a in args.iter() {
                        let t = a.node.ty(&body.local_decls, tcx);
                        let j = self.ty(t);
                        at.push(j)
                    }
                    let dty = destination.ty(&body.local_decls, tcx).ty;
                    let dty = self.ty(dty);
                    let dst = self.place(destination);
                    J::O(vec![
                        ("t", s("call")),
                        ("f", f),
                        ("resolved", resolved),
                        ("args", J::A(v)),
                        ("aty", J::A(at)),
                        ("dst", dst),
                        ("dty", dty),
                        ("to", target.map(|t| J::I(t.as_usize() as i128)).unwrap_or(J::Null)),
                    ])
                }
                TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                    let o = self.operand(body, cond);
                    let k = format!("{:?}", msg);
                    J::O(vec![
                        ("t", s("assert")),
                        ("o", o),
                        ("exp", J::B(*expected)),
                        ("msg", s(k)),
                        ("to", J::I(target.as_usize() as i128)),
                    ])
                }
                TerminatorKind::FalseEdge { real_target, .. } => J::O(vec![("t", s("goto")), ("to", J::I(real_target.as_usize() as i128))]),
                TerminatorKind::FalseUnwind { real_target, .. } => J::O(vec![("t", s("goto")), ("to", J::I(real_target.as_usize() as i128))]),
                k => J::O(vec![("t", s("other")), ("d", s(format!("{:?}", k)))]),
            };
            blocks.push(J::O(vec![("s", J::A(st)), ("t", tj), ("sp", sp), ("cleanup", J::B(bb.is_cleanup))]));
        }
        let _ = d;
        J::O(vec![
            ("nargs", J::I(body.arg_count as i128)),
            ("locals", J::A(locals)),
            ("names", J::A(names)),
            ("spread", body.spread_arg.map(|l| J::I(l.as_usize() as i128)).unwrap_or(J::Null)),
            ("blocks", J::A(blocks)),
        ])
    }
    fn generics(&self, d: DefId) -> J {
        let mut v = vec![];
        let g = self.tcx.generics_of(d);
        let mut stack = vec![g];
        let mut cur = g;
        while let Some(p) = cur.parent {
            cur = self.tcx.generics_of(p);
            stack.push(cur);
        }
        for g in stack.iter().rev() {
            for p in &g.own_params {
                let k = match p.kind {
                    ty::GenericParamDefKind::Lifetime => "lt",
                    ty::GenericParamDefKind::Type { .. } => "ty",
                    ty::GenericParamDefKind::Const { .. } => "const",
                };
                v.push(J::A(vec![s(p.name.to_string()), J::I(p.index as i128), s(k)]));
            }
        }
        J::A(v)
    }
    fn preds(&mut self, d: DefId) -> J {
        let mut v = vec![];
        let preds = self.tcx.clauses_of(d).instantiate_identity(self.tcx);
        for p in preds.clauses.iter() {
            let p = p.clone().skip_norm_wip();
            match p.kind().skip_binder() {
                ty::ClauseKind::Trait(t) => {
                    let tr = self.path(t.trait_ref.def_id.into());
                    let a = self.args(t.trait_ref.args);
                    v.push(J::A(vec![s("trait"), s(tr), a]));
                }
                ty::ClauseKind::Projection(pp) => {
                    let p = format!("{:?}", pp);
                    v.push(J::A(vec![s("proj"), s(p)]));
                }
                _ => {}
            }
        }
        J::A(v)
    }
    fn fn_entry(&mut self, d: DefId, is_const: bool) -> J {
        let tcx = self.tcx;
        let body: &Body<'tcx> = if is_const { tcx.mir_for_ctfe(d) } else { tcx.optimized_mir(d) };
        let b = self.body(d, body);
        let mut proms = vec![];
        let pm = tcx.promoted_mir(d);
        for p in pm.iter() {
            let j = self.body(d, p);
            proms.push(j);
        }
        let kind = tcx.def_kind(d);
        let vis = if matches!(kind, DefKind::Closure) || !d.is_local() { "closure".to_string() } else { format!("{:?}", tcx.visibility(d)) };
        let mut extra_unsafe = false;
        if matches!(kind, DefKind::Fn | DefKind::AssocFn) {
            extra_unsafe = tcx.fn_sig(d).skip_binder().safety().is_unsafe();
        }
        let mut tr = J::Null;
        let mut imp = J::Null;
        if !matches!(kind, DefKind::Closure) {
            if let Some(t) = tcx.trait_of_assoc(d) {
                tr = s(self.path(t));
            }
            if let Some(i) = tcx.impl_of_assoc(d) {
                let st = tcx.type_of(i).instantiate_identity().skip_norm_wip();
                imp = self.ty(st);
            }
        }
        let g = self.generics(d);
        let preds = self.preds(d);
        J::O(vec![
            ("path", s(self.path(d))),
            ("kind", s(format!("{:?}", kind))),
            ("vis", s(vis)),
            ("unsafe", J::B(extra_unsafe)),
            ("span", self.span(tcx.def_span(d))),
            ("local", J::B(d.is_local())),
            ("generics", g),
            ("preds", preds),
            ("trait", tr),
            ("impl_self", imp),
            ("body", b),
            ("promoted", J::A(proms)),
        ])
    }
    fn run(&mut self) -> J {
        let tcx = self.tcx;
        let mut fns = vec![];
        let mut statics = vec![];
        let keys: Vec<_> = tcx.mir_keys(()).iter().copied().collect();
        for k in keys {
            let d = k.to_def_id();
            match tcx.def_kind(d) {
                DefKind::Fn | DefKind::AssocFn | DefKind::Closure => {
                    let j = self.fn_entry(d, false);
                    fns.push((self.path(d), j));
                }
                DefKind::Const { .. } | DefKind::AssocConst { .. } => {
                    let j = self.fn_entry(d, true);
                    fns.push((self.path(d), j));
                }
                DefKind::Static { mutability, .. } => {
                    let t = tcx.type_of(d).instantiate_identity().skip_norm_wip();
                    let t = self.ty(t);
                    statics.push(J::A(vec![s(self.path(d)), self.span(tcx.def_span(d)), J::B(mutability.is_mut()), t]));
                    let j = self.fn_entry(d, true);
                    fns.push((self.path(d), j));
                }
                _ => {}
            }
        }
        let mut traits = vec![];
        let mut impls = vec![];
        let mut uses = BTreeSet::new();
        for id in tcx.hir_crate_items(()).definitions() {
            let d = id.to_def_id();
            match tcx.def_kind(d) {
                DefKind::Trait => {
                    let mut items = vec![];
                    for it in tcx.associated_items(d).in_definition_order() {
                        items.push(J::A(vec![
                            s(it.name().to_string()),
                            s(format!("{:?}", tcx.def_kind(it.def_id))),
                            J::B(it.defaultness(tcx).has_value()),
                            s(self.path(it.def_id)),
                        ]));
                    }
                    let g = self.generics(d);
                    traits.push((self.path(d), J::O(vec![("items", J::A(items)), ("generics", g)])));
                }
                DefKind::Impl { of_trait } => {
                    let st = tcx.type_of(d).instantiate_identity().skip_norm_wip();
                    let st = self.ty(st);
                    let (tr, ta) = if of_trait {
                        let r = tcx.impl_trait_ref(d).instantiate_identity().skip_norm_wip();
                        let p = self.path(r.def_id.into());
                        (s(p), self.args(r.args))
                    } else {
                        (J::Null, J::Null)
                    };
                    let mut items = vec![];
                    let mut tys = vec![];
                    for it in tcx.associated_items(d).in_definition_order() {
                        match tcx.def_kind(it.def_id) {
                            DefKind::AssocTy => {
                                let t = tcx.type_of(it.def_id).instantiate_identity().skip_norm_wip();
                                let t = self.ty(t);
                                tys.push((it.name().to_string(), t));
                            }
                            _ => items.push((it.name().to_string(), s(self.path(it.def_id)))),
                        }
                    }
                    let g = self.generics(d);
                    let pr = self.preds(d);
                    impls.push(J::O(vec![
                        ("trait", tr),
                        ("targs", ta),
                        ("self", st),
                        ("generics", g),
                        ("preds", pr),
                        ("items", J::M(items)),
                        ("types", J::M(tys)),
                        ("span", self.span(tcx.def_span(d))),
                    ]));
                }
                DefKind::Mod => {
                    uses.insert(self.path(d));
                }
                DefKind::Struct | DefKind::Enum | DefKind::Union => {
                    self.adt(d);
                }
                _ => {}
            }
        }
        // external bodies reachable from local code (bounded), for inlining of small std helpers
        let mut ext = vec![];
        while let Some((d, dep)) = self.ext_queue.pop_front() {
            self.depth = dep;
            let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| self.fn_entry(d, false)));
            if let Ok(j) = r {
                ext.push((self.path(d), j));
            }
        }
        self.depth = 99;
        let mut adts = vec![];
        while let Some(d) = self.adt_queue.pop_front() {
            let def = tcx.adt_def(d);
            let mut vs = vec![];
            let discrs: Vec<i128> = if def.is_enum() {
                def.discriminants(tcx).map(|(_, x)| x.val as i128).collect()
            } else {
                vec![0]
            };
            for (vi, v) in def.variants().iter().enumerate() {
                let mut fs = vec![];
                for f in v.fields.iter() {
                    let t = tcx.type_of(f.did).instantiate_identity().skip_norm_wip();
                    let t = self.ty(t);
                    fs.push(J::A(vec![s(f.name.to_string()), t, J::B(f.vis.is_public())]));
                }
                vs.push(J::O(vec![("name", s(v.name.to_string())), ("discr", J::I(*discrs.get(vi).unwrap_or(&0))), ("fields", J::A(fs))]));
            }
            let g = self.generics(d);
            adts.push((
                self.path(d),
                J::O(vec![
                    ("kind", s(if def.is_enum() { "enum" } else if def.is_union() { "union" } else { "struct" })),
                    ("variants", J::A(vs)),
                    ("generics", g),
                    ("local", J::B(d.is_local())),
                    ("hasdrop", J::B(tcx.adt_destructor(d).is_some())),
                    ("vis", s(format!("{:?}", tcx.visibility(d)))),
                ]),
            ));
        }
        J::O(vec![
            ("crate", s(tcx.crate_name(rustc_span::def_id::LOCAL_CRATE).to_string())),
            ("fns", J::M(fns)),
            ("ext", J::M(ext)),
            ("adts", J::M(adts)),
            ("traits", J::M(traits)),
            ("impls", J::A(impls)),
            ("statics", J::A(statics)),
            ("mods", J::A(uses.into_iter().map(|x| s(x)).collect())),
        ])
    }
}
fn tr_is_null(j: &J) -> bool {
    matches!(j, J::Null)
}

struct Cb;
impl Callbacks for Cb {
    fn after_analysis<'tcx>(&mut self, _c: &rustc_interface::interface::Compiler, tcx: TyCtxt<'tcx>) -> Compilation {
        if let Ok(dir) = std::env::var("MIRDUMP_OUT") {
            let mut d = Dump {
                tcx,
                adts: BTreeMap::new(),
                adt_queue: VecDeque::new(),
                ext_fns: BTreeMap::new(),
                ext_queue: VecDeque::new(),
                depth: 0,
            };
            let j = d.run();
            let mut o = String::new();
            j.w(&mut o);
            let name = tcx.crate_name(rustc_span::def_id::LOCAL_CRATE).to_string();
            let kind = if tcx.sess.opts.test { "test" } else { "" };
            let ct: Vec<String> = tcx.crate_types().iter().map(|c| format!("{:?}", c)).collect();
            let f = format!("{}/{}-{}{}.json", dir, name, ct.join("_"), kind);
            std::fs::write(&f, o).unwrap();
        }
        Compilation::Continue
    }
}

fn main() {
    let mut args: Vec<String> = std::env::args().collect();
    if args.len() > 1 && args[1].ends_with("rustc") {
        args.remove(1);
    }
    if std::env::var("MIRDUMP_OUT").is_ok() && args.iter().any(|a| a == "--crate-name") {
        args.push("-Zmir-opt-level=0".into());
        args.push("-Coverflow-checks=off".into());
        let on = std::env::var("MIRDUMP_DEBUG").is_ok();
        args.push(format!("-Cdebug-assertions={}", if on { "on" } else { "off" }));
        args.push("-Zalways-encode-mir".into());
        args.push("-Zub-checks=no".into());
        args.push("-Zmir-enable-passes=-CheckAlignment,-CheckNull,-CheckEnums".into());
    }
    rustc_driver::compiler_entrypoint(&args, &mut Cb);
}

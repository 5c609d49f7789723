//! vp-mir: a rustc driver that dumps the MIR of the crate being compiled as JSON.
//!
//! Used as RUSTC_WORKSPACE_WRAPPER under `cargo +nightly check`, or directly as `rustc`.
//! It writes $VP_OUT/<crate>.json and otherwise behaves like rustc.
#![feature(rustc_private)]
extern crate rustc_abi;
extern crate rustc_data_structures;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_span;

use rustc_driver::{Callbacks, Compilation};
use rustc_hir::def::DefKind;
use rustc_hir::def_id::{DefId, LocalDefId};
use rustc_middle::mir;
use rustc_middle::mir::interpret::GlobalAlloc;
use rustc_middle::ty::print::{with_no_trimmed_paths, with_no_visible_paths};
use rustc_middle::ty::{self, Ty, TyCtxt};
use rustc_span::Span;
use std::collections::HashMap;
use std::fmt::Write as _;

mod json;
use json::J;

struct Cb;

struct Dump<'tcx> {
    tcx: TyCtxt<'tcx>,
    types: Vec<J>,
    type_ids: HashMap<Ty<'tcx>, usize>,
    adts: HashMap<DefId, J>,
}

fn s(x: impl Into<String>) -> J {
    J::Str(x.into())
}
fn n(x: usize) -> J {
    J::Num(x as i128)
}

impl<'tcx> Dump<'tcx> {
    fn path(&self, d: DefId) -> String {
        with_no_visible_paths!(with_no_trimmed_paths!(self.tcx.def_path_str(d)))
    }

    fn span(&self, sp: Span) -> J {
        let sp = sp.source_callsite();
        let loc = self.tcx.sess.source_map().lookup_char_pos(sp.lo());
        let f = format!("{}", loc.file.name.prefer_remapped_unconditionally());
        s(format!("{}:{}", f, loc.line))
    }

    fn ty(&mut self, t: Ty<'tcx>) -> J {
        let t = self.tcx.erase_and_anonymize_regions(t);
        if let Some(i) = self.type_ids.get(&t) {
            return n(*i);
        }
        let i = self.types.len();
        self.types.push(J::Null);
        self.type_ids.insert(t, i);
        let mut o: Vec<(&'static str, J)> = vec![];
        let txt = with_no_trimmed_paths!(format!("{}", t));
        o.push(("s", s(txt)));
        match t.kind() {
            ty::Adt(def, args) => {
                o.push(("k", s("adt")));
                o.push(("path", s(self.path(def.did()))));
                let a: Vec<J> = args.types().map(|x| self.ty(x)).collect();
                o.push(("args", J::Arr(a)));
                self.adt(def.did());
            }
            ty::Ref(_, inner, m) => {
                o.push(("k", s("ref")));
                o.push(("mut", J::Bool(m.is_mut())));
                o.push(("t", self.ty(*inner)));
            }
            ty::RawPtr(inner, _) => {
                o.push(("k", s("ptr")));
                o.push(("t", self.ty(*inner)));
            }
            ty::Slice(inner) => {
                o.push(("k", s("slice")));
                o.push(("t", self.ty(*inner)));
            }
            ty::Array(inner, len) => {
                o.push(("k", s("array")));
                o.push(("t", self.ty(*inner)));
                o.push(("len", s(format!("{}", len))));
            }
            ty::Tuple(ts) => {
                o.push(("k", s("tuple")));
                let a: Vec<J> = ts.iter().map(|x| self.ty(x)).collect();
                o.push(("args", J::Arr(a)));
            }
            ty::FnDef(d, args) => {
                o.push(("k", s("fndef")));
                o.push(("path", s(self.path(*d))));
                let a: Vec<J> = args.skip_binder().types().map(|x| self.ty(x)).collect();
                o.push(("args", J::Arr(a)));
            }
            ty::Closure(d, _) => {
                o.push(("k", s("closure")));
                o.push(("path", s(self.path(*d))));
            }
            ty::Int(_) | ty::Uint(_) | ty::Bool | ty::Char | ty::Str | ty::Float(_) => {
                o.push(("k", s("prim")))
            }
            ty::Param(_) => o.push(("k", s("param"))),
            ty::Never => o.push(("k", s("never"))),
            _ => o.push(("k", s("other"))),
        }
        self.types[i] = J::Obj(o);
        n(i)
    }

    fn adt(&mut self, d: DefId) {
        if self.adts.contains_key(&d) {
            return;
        }
        self.adts.insert(d, J::Null);
        let def = self.tcx.adt_def(d);
        let mut vs = vec![];
        for (vi, v) in def.variants().iter_enumerated() {
            let discr = if def.is_enum() {
                def.discriminant_for_variant(self.tcx, vi).val as i128
            } else {
                0
            };
            let fields: Vec<J> = v
                .fields
                .iter()
                .map(|f| {
                    let fty = self.tcx.type_of(f.did).instantiate_identity().skip_norm_wip();
                    J::Obj(vec![("name", s(f.name.to_string())), ("ty", self.ty(fty))])
                })
                .collect();
            vs.push(J::Obj(vec![
                ("name", s(v.name.to_string())),
                ("discr", J::Num(discr)),
                ("fields", J::Arr(fields)),
            ]));
        }
        let o = J::Obj(vec![
            ("path", s(self.path(d))),
            ("local", J::Bool(d.is_local())),
            ("enum", J::Bool(def.is_enum())),
            ("variants", J::Arr(vs)),
        ]);
        self.adts.insert(d, o);
    }

    fn bytes_of_alloc(&self, id: mir::interpret::AllocId, off: usize, len: usize) -> Option<Vec<u8>> {
        match self.tcx.global_alloc(id) {
            GlobalAlloc::Memory(m) => {
                let a = m.inner();
                let r = off..off + len;
                Some(a.inspect_with_uninit_and_ptr_outside_interpreter(r).to_vec())
            }
            _ => None,
        }
    }

    fn konst(&mut self, c: &mir::ConstOperand<'tcx>, env: ty::TypingEnv<'tcx>) -> J {
        let tcx = self.tcx;
        let cty = c.const_.ty();
        let mut o: Vec<(&'static str, J)> = vec![("ty", self.ty(cty))];
        if let ty::FnDef(d, args) = cty.kind() {
            o.push(("fn", self.callee(*d, args.skip_binder(), env)));
            return J::Obj(vec![("const", J::Obj(o))]);
        }
        match c.const_ {
            mir::Const::Unevaluated(u, _) => {
                o.push(("item", s(self.path(u.def))));
                if let Some(p) = u.promoted {
                    o.push(("promoted", n(p.as_usize())));
                }
            }
            mir::Const::Val(v, ty) => {
                self.const_val(v, ty, &mut o);
            }
            mir::Const::Ty(ty, ct) => {
                if let Some(v) = ct.try_to_value() {
                    let cv = tcx.valtree_to_const_val(v);
                    self.const_val(cv, ty, &mut o);
                } else {
                    o.push(("opaque", s(format!("{}", ct))));
                }
            }
        }
        J::Obj(vec![("const", J::Obj(o))])
    }

    fn const_val(&mut self, v: mir::ConstValue, ty: Ty<'tcx>, o: &mut Vec<(&'static str, J)>) {
        let tcx = self.tcx;
        match v {
            mir::ConstValue::ZeroSized => o.push(("zst", J::Bool(true))),
            mir::ConstValue::Scalar(mir::interpret::Scalar::Int(i)) => {
                let bits = i.to_bits_unchecked();
                match ty.kind() {
                    ty::Bool => o.push(("bool", J::Bool(bits != 0))),
                    ty::Char => o.push(("char", J::Num(bits as i128))),
                    ty::Int(_) => {
                        let size = i.size();
                        o.push(("int", J::Num(size.sign_extend(bits))))
                    }
                    _ => o.push(("int", J::Num(bits as i128))),
                }
            }
            mir::ConstValue::Scalar(mir::interpret::Scalar::Ptr(p, _)) => {
                let (prov, off) = p.prov_and_relative_offset();
                let aid = prov.alloc_id();
                match tcx.global_alloc(aid) {
                    GlobalAlloc::Static(d) => o.push(("static", s(self.path(d)))),
                    GlobalAlloc::Function { instance, .. } => {
                        o.push(("fnptr", s(self.path(instance.def_id()))))
                    }
                    GlobalAlloc::Memory(m) => {
                        let len = m.inner().len();
                        if let Some(b) = self.bytes_of_alloc(aid, off.bytes_usize(), len - off.bytes_usize()) {
                            o.push(("bytes", J::Arr(b.iter().map(|x| n(*x as usize)).collect())));
                        }
                    }
                    _ => o.push(("opaque", s("ptr"))),
                }
            }
            mir::ConstValue::Slice { alloc_id, meta } => {
                if let Some(b) = self.bytes_of_alloc(alloc_id, 0, meta as usize) {
                    let is_str = matches!(ty.kind(), ty::Ref(_, t, _) if t.is_str());
                    if is_str {
                        o.push(("str", s(String::from_utf8_lossy(&b).to_string())));
                    } else {
                        o.push(("bytes", J::Arr(b.iter().map(|x| n(*x as usize)).collect())));
                    }
                }
            }
            mir::ConstValue::Indirect { .. } => o.push(("opaque", s("indirect"))),
        }
    }

    fn callee(&mut self, d: DefId, args: ty::GenericArgsRef<'tcx>, env: ty::TypingEnv<'tcx>) -> J {
        let tcx = self.tcx;
        let mut o: Vec<(&'static str, J)> = vec![("path", s(self.path(d)))];
        let a: Vec<J> = args.types().map(|x| self.ty(x)).collect();
        o.push(("args", J::Arr(a)));
        o.push(("local", J::Bool(d.is_local())));
        if let Some(tr) = tcx.trait_of_assoc(d) {
            o.push(("trait", s(self.path(tr))));
        }
        let kind = tcx.def_kind(d);
        match kind {
            DefKind::Ctor(..) => {
                let parent = tcx.parent(d);
                // variant or struct
                let (adt, variant) = match tcx.def_kind(parent) {
                    DefKind::Variant => (tcx.parent(parent), tcx.item_name(parent).to_string()),
                    _ => (parent, tcx.item_name(parent).to_string()),
                };
                self.adt(adt);
                o.push(("ctor", s(self.path(adt))));
                o.push(("variant", s(variant)));
            }
            DefKind::Fn | DefKind::AssocFn => {
                let args2 = tcx.erase_and_anonymize_regions(args);
                if let Ok(Some(inst)) = ty::Instance::try_resolve(tcx, env, d, args2) {
                    let rd = inst.def_id();
                    if rd != d {
                        o.push(("resolved", s(self.path(rd))));
                        o.push(("resolved_local", J::Bool(rd.is_local())));
                        if rd.is_local() {
                            o.push(("resolved_key", s(self.key(rd))));
                        }
                        let ra: Vec<J> = inst.args.types().map(|x| self.ty(x)).collect();
                        o.push(("resolved_args", J::Arr(ra)));
                    }
                }
                if d.is_local() {
                    o.push(("key", s(self.key(d))));
                }
                let sig = tcx.fn_sig(d).instantiate_identity().skip_norm_wip().skip_binder();
                let safe = sig.safety().is_safe();
                if !safe {
                    o.push(("unsafe", J::Bool(true)));
                }
            }
            _ => {}
        }
        J::Obj(o)
    }

    fn key(&self, d: DefId) -> String {
        let p = self.tcx.def_path(d).to_string_no_crate_verbose();
        p.trim_start_matches("::").to_string()
    }

    fn place(&mut self, body: &mir::Body<'tcx>, p: &mir::Place<'tcx>) -> J {
        let tcx = self.tcx;
        let mut out = vec![n(p.local.as_usize())];
        let mut pty = mir::PlaceTy::from_ty(body.local_decls[p.local].ty);
        for e in p.projection.iter() {
            let j = match e {
                mir::ProjectionElem::Deref => match pty.ty.kind() {
                    ty::Ref(_, _, m) if m.is_mut() => s("*m"),
                    ty::Ref(..) => s("*"),
                    ty::RawPtr(..) => s("*r"),
                    _ => s("*b"),
                },
                mir::ProjectionElem::Field(f, _) => {
                    let name = match pty.ty.kind() {
                        ty::Adt(def, _) => {
                            let vi = pty.variant_index.unwrap_or(rustc_abi::FIRST_VARIANT);
                            self.adt(def.did());
                            Some(def.variant(vi).fields[f].name.to_string())
                        }
                        _ => None,
                    };
                    let mut o = vec![("f", n(f.as_usize()))];
                    if let Some(nm) = name {
                        o.push(("n", s(nm)));
                    }
                    if let ty::Adt(def, _) = pty.ty.kind() {
                        o.push(("a", s(self.path(def.did()))));
                    }
                    let fty = pty.projection_ty(tcx, e).ty;
                    o.push(("t", self.ty(fty)));
                    J::Obj(o)
                }
                mir::ProjectionElem::Index(l) => J::Obj(vec![("i", n(l.as_usize()))]),
                mir::ProjectionElem::ConstantIndex { offset, from_end, .. } => J::Obj(vec![
                    ("ci", n(offset as usize)),
                    ("end", J::Bool(from_end)),
                ]),
                mir::ProjectionElem::Subslice { from, to, from_end } => J::Obj(vec![
                    ("sub", n(from as usize)),
                    ("to", n(to as usize)),
                    ("end", J::Bool(from_end)),
                ]),
                mir::ProjectionElem::Downcast(_, vi) => {
                    let nm = match pty.ty.kind() {
                        ty::Adt(def, _) => def.variant(vi).name.to_string(),
                        _ => format!("{}", vi.as_usize()),
                    };
                    J::Obj(vec![("v", s(nm))])
                }
                _ => s("?"),
            };
            out.push(j);
            pty = pty.projection_ty(tcx, e);
        }
        J::Arr(out)
    }

    fn operand(&mut self, body: &mir::Body<'tcx>, o: &mir::Operand<'tcx>, env: ty::TypingEnv<'tcx>) -> J {
        match o {
            mir::Operand::Copy(p) => J::Obj(vec![("copy", self.place(body, p))]),
            mir::Operand::Move(p) => J::Obj(vec![("move", self.place(body, p))]),
            mir::Operand::Constant(c) => self.konst(c, env),
            _ => J::Obj(vec![("rtcheck", J::Bool(true))]),
        }
    }

    fn rvalue(&mut self, body: &mir::Body<'tcx>, r: &mir::Rvalue<'tcx>, env: ty::TypingEnv<'tcx>) -> J {
        let tcx = self.tcx;
        match r {
            mir::Rvalue::Use(o, ..) => J::Obj(vec![("r", s("use")), ("o", self.operand(body, o, env))]),
            mir::Rvalue::Repeat(o, c) => J::Obj(vec![
                ("r", s("repeat")),
                ("o", self.operand(body, o, env)),
                ("n", s(format!("{}", c))),
            ]),
            mir::Rvalue::Ref(_, bk, p) => J::Obj(vec![
                ("r", s("ref")),
                ("mut", J::Bool(matches!(bk, mir::BorrowKind::Mut { .. }))),
                ("p", self.place(body, p)),
            ]),
            mir::Rvalue::RawPtr(_, p) => J::Obj(vec![
                ("r", s("rawptr")),
                ("p", self.place(body, p)),
            ]),
            mir::Rvalue::Reborrow(_, m, p) => J::Obj(vec![
                ("r", s("ref")),
                ("mut", J::Bool(m.is_mut())),
                ("p", self.place(body, p)),
            ]),
            mir::Rvalue::ThreadLocalRef(d) => J::Obj(vec![("r", s("tls")), ("d", s(self.path(*d)))]),
            mir::Rvalue::Cast(k, o, t) => {
                let from = o.ty(&body.local_decls, tcx);
                J::Obj(vec![
                    ("r", s("cast")),
                    ("k", s(format!("{:?}", k).split('(').next().unwrap().to_string())),
                    ("kk", s(format!("{:?}", k))),
                    ("o", self.operand(body, o, env)),
                    ("from", self.ty(from)),
                    ("to", self.ty(*t)),
                ])
            }
            mir::Rvalue::BinaryOp(op, b) => J::Obj(vec![
                ("r", s("bin")),
                ("op", s(format!("{:?}", op))),
                ("a", self.operand(body, &b.0, env)),
                ("b", self.operand(body, &b.1, env)),
            ]),
            mir::Rvalue::UnaryOp(op, o) => J::Obj(vec![
                ("r", s("un")),
                ("op", s(format!("{:?}", op))),
                ("a", self.operand(body, o, env)),
            ]),
            mir::Rvalue::Discriminant(p) => {
                let t = p.ty(&body.local_decls, tcx).ty;
                let adt = match t.kind() {
                    ty::Adt(d, _) => {
                        self.adt(d.did());
                        s(self.path(d.did()))
                    }
                    _ => J::Null,
                };
                J::Obj(vec![("r", s("discr")), ("p", self.place(body, p)), ("adt", adt)])
            }
            mir::Rvalue::Aggregate(k, ops) => {
                let mut o: Vec<(&'static str, J)> = vec![("r", s("agg"))];
                match &**k {
                    mir::AggregateKind::Array(_) => o.push(("k", s("array"))),
                    mir::AggregateKind::Tuple => o.push(("k", s("tuple"))),
                    mir::AggregateKind::Adt(d, vi, _, _, active) => {
                        self.adt(*d);
                        let def = tcx.adt_def(*d);
                        let v = def.variant(*vi);
                        o.push(("k", s("adt")));
                        o.push(("path", s(self.path(*d))));
                        o.push(("variant", s(v.name.to_string())));
                        let _ = active;
                        o.push((
                            "fields",
                            J::Arr(v.fields.iter().map(|f| s(f.name.to_string())).collect()),
                        ));
                    }
                    mir::AggregateKind::Closure(d, _) => {
                        o.push(("k", s("closure")));
                        o.push(("key", s(self.key(*d))));
                    }
                    _ => o.push(("k", s("other"))),
                }
                let a: Vec<J> = ops.iter().map(|x| self.operand(body, x, env)).collect();
                o.push(("ops", J::Arr(a)));
                J::Obj(o)
            }
            mir::Rvalue::CopyForDeref(p) => {
                let pj = self.place(body, p);
                J::Obj(vec![("r", s("use")), ("o", J::Obj(vec![("copy", pj)]))])
            }
            _ => J::Obj(vec![("r", s("other"))]),
        }
    }

    fn body(&mut self, d: LocalDefId, body: &mir::Body<'tcx>) -> J {
        let tcx = self.tcx;
        let env = ty::TypingEnv::post_analysis(tcx, d.to_def_id());
        let mut names: HashMap<usize, String> = HashMap::new();
        for v in &body.var_debug_info {
            if let mir::VarDebugInfoContents::Place(p) = &v.value {
                if let Some(l) = p.as_local() {
                    names.insert(l.as_usize(), v.name.to_string());
                }
            }
        }
        let locals: Vec<J> = body
            .local_decls
            .iter_enumerated()
            .map(|(l, decl)| {
                let mut o = vec![("ty", self.ty(decl.ty))];
                if let Some(nm) = names.get(&l.as_usize()) {
                    o.push(("name", s(nm.clone())));
                }
                if decl.mutability.is_mut() {
                    o.push(("mut", J::Bool(true)));
                }
                J::Obj(o)
            })
            .collect();
        let mut blocks = vec![];
        for (_, bb) in body.basic_blocks.iter_enumerated() {
            let mut stmts = vec![];
            for st in &bb.statements {
                match &st.kind {
                    mir::StatementKind::Assign(b) => {
                        let (p, r) = &**b;
                        stmts.push(J::Obj(vec![
                            ("k", s("=")),
                            ("p", self.place(body, p)),
                            ("v", self.rvalue(body, r, env)),
                            ("sp", self.span(st.source_info.span)),
                        ]));
                    }
                    mir::StatementKind::StorageDead(l) => {
                        stmts.push(J::Obj(vec![("k", s("dead")), ("l", n(l.as_usize()))]))
                    }
                    mir::StatementKind::StorageLive(l) => {
                        stmts.push(J::Obj(vec![("k", s("live")), ("l", n(l.as_usize()))]))
                    }
                    mir::StatementKind::SetDiscriminant { .. } => {
                        stmts.push(J::Obj(vec![("k", s("setdiscr"))]))
                    }
                    _ => {}
                }
            }
            let t = bb.terminator();
            let sp = self.span(t.source_info.span);
            let mut o: Vec<(&'static str, J)> = vec![];
            match &t.kind {
                mir::TerminatorKind::Goto { target, .. } => {
                    o.push(("k", s("goto")));
                    o.push(("t", n(target.as_usize())));
                }
                mir::TerminatorKind::SwitchInt { discr, targets } => {
                    o.push(("k", s("switch")));
                    o.push(("o", self.operand(body, discr, env)));
                    let dty = discr.ty(&body.local_decls, tcx);
                    o.push(("ty", self.ty(dty)));
                    let arms: Vec<J> = targets
                        .iter()
                        .map(|(v, b)| J::Arr(vec![J::Num(v as i128), n(b.as_usize())]))
                        .collect();
                    o.push(("arms", J::Arr(arms)));
                    o.push(("else", n(targets.otherwise().as_usize())));
                }
                mir::TerminatorKind::Return => o.push(("k", s("return"))),
                mir::TerminatorKind::Unreachable => o.push(("k", s("unreachable"))),
                mir::TerminatorKind::Drop { place, target, .. } => {
                    o.push(("k", s("drop")));
                    o.push(("p", self.place(body, place)));
                    o.push(("t", n(target.as_usize())));
                }
                mir::TerminatorKind::Call { func, args, destination, target, .. } => {
                    o.push(("k", s("call")));
                    o.push(("f", self.operand(body, func, env)));
                    let a: Vec<J> = args.iter().map(|x| self.operand(body, &x.node, env)).collect();
                    o.push(("args", J::Arr(a)));
                    o.push(("d", self.place(body, destination)));
                    let dty = destination.ty(&body.local_decls, tcx).ty;
                    o.push(("dty", self.ty(dty)));
                    if let Some(t) = target {
                        o.push(("t", n(t.as_usize())));
                    }
                }
                mir::TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                    o.push(("k", s("assert")));
                    o.push(("o", self.operand(body, cond, env)));
                    o.push(("expected", J::Bool(*expected)));
                    let mut m = String::new();
                    let _ = write!(m, "{:?}", msg);
                    o.push(("msg", s(m)));
                    o.push(("t", n(target.as_usize())));
                }
                mir::TerminatorKind::FalseEdge { real_target, .. } => {
                    o.push(("k", s("goto")));
                    o.push(("t", n(real_target.as_usize())));
                }
                mir::TerminatorKind::FalseUnwind { real_target, .. } => {
                    o.push(("k", s("goto")));
                    o.push(("t", n(real_target.as_usize())));
                }
                _ => o.push(("k", s("other"))),
            }
            o.push(("sp", sp));
            blocks.push(J::Obj(vec![
                ("s", J::Arr(stmts)),
                ("t", J::Obj(o)),
                ("cleanup", J::Bool(bb.is_cleanup)),
            ]));
        }
        let did = d.to_def_id();
        let kind = format!("{:?}", tcx.def_kind(did));
        let mut o = vec![
            ("key", s(self.key(did))),
            ("path", s(self.path(did))),
            ("kind", s(kind.split('(').next().unwrap().split(' ').next().unwrap().to_string())),
            ("defkind", s(kind)),
            ("span", self.span(body.span)),
            ("argc", n(body.arg_count)),
            ("locals", J::Arr(locals)),
            ("blocks", J::Arr(blocks)),
        ];
        if let Some(sp) = body.spread_arg {
            o.push(("spread", n(sp.as_usize())));
        }
        J::Obj(o)
    }
}

impl Callbacks for Cb {
    fn after_expansion<'tcx>(&mut self, _c: &rustc_interface::interface::Compiler, tcx: TyCtxt<'tcx>) -> Compilation {
        let out = match std::env::var("VP_OUT") {
            Ok(o) => o,
            Err(_) => return Compilation::Continue,
        };
        let krate = tcx.crate_name(rustc_hir::def_id::LOCAL_CRATE).to_string();
        if krate == "build_script_build" {
            return Compilation::Continue;
        }
        let mut bodies: Vec<(LocalDefId, mir::Body<'tcx>)> = vec![];
        let mut failed = vec![];
        for d in tcx.hir_body_owners() {
            let kind = tcx.def_kind(d.to_def_id());
            if matches!(kind, DefKind::AnonConst) {
                continue;
            }
            let tc = tcx.typeck(d);
            if tc.tainted_by_errors.is_some() {
                failed.push(d);
                continue;
            }
            let st = tcx.mir_built(d);
            bodies.push((d, st.borrow().clone()));
        }
        let mut dump = Dump { tcx, types: vec![], type_ids: HashMap::new(), adts: HashMap::new() };
        let mut bj = vec![];
        for (d, b) in &bodies {
            bj.push(dump.body(*d, b));
        }
        // trait impls
        let mut impls = vec![];
        for id in tcx.hir_crate_items(()).definitions() {
            if let DefKind::Impl { of_trait } = tcx.def_kind(id) {
                let self_ty = tcx.type_of(id).instantiate_identity().skip_norm_wip();
                let mut o = vec![("self", dump.ty(self_ty)), ("span", dump.span(tcx.def_span(id)))];
                if of_trait {
                    let tr = tcx.impl_trait_ref(id).instantiate_identity().skip_norm_wip();
                    o.push(("trait", s(dump.path(tr.def_id))));
                }
                let derived = tcx.is_automatically_derived(id.to_def_id());
                o.push(("derived", J::Bool(derived)));
                let ms: Vec<J> = tcx
                    .associated_item_def_ids(id.to_def_id())
                    .iter()
                    .map(|m| {
                        J::Arr(vec![s(tcx.item_name(*m).to_string()), s(dump.key(*m))])
                    })
                    .collect();
                o.push(("methods", J::Arr(ms)));
                impls.push(J::Obj(o));
            }
        }
        // items: statics, fns and their visibility/unsafety
        let mut items = vec![];
        for id in tcx.hir_crate_items(()).definitions() {
            let k = tcx.def_kind(id);
            match k {
                DefKind::Static { mutability, .. } => {
                    let t = tcx.type_of(id).instantiate_identity().skip_norm_wip();
                    let freeze = t.is_freeze(tcx, ty::TypingEnv::post_analysis(tcx, id.to_def_id()));
                    let tls = tcx.is_thread_local_static(id.to_def_id());
                    items.push(J::Obj(vec![
                        ("kind", s("static")),
                        ("path", s(dump.path(id.to_def_id()))),
                        ("mut", J::Bool(mutability.is_mut())),
                        ("freeze", J::Bool(freeze)),
                        ("tls", J::Bool(tls)),
                        ("ty", dump.ty(t)),
                        ("span", dump.span(tcx.def_span(id))),
                    ]));
                }
                DefKind::Struct | DefKind::Enum | DefKind::Union => {
                    dump.adt(id.to_def_id());
                }
                _ => {}
            }
        }
        let adts: Vec<J> = {
            // adt() may discover more while printing
            let mut v: Vec<_> = dump.adts.iter().map(|(d, j)| (dump.path(*d), j.clone())).collect();
            v.sort_by(|a, b| a.0.cmp(&b.0));
            v.into_iter().map(|x| x.1).collect()
        };
        let failed: Vec<J> = failed.iter().map(|d| s(dump.path(d.to_def_id()))).collect();
        let j = J::Obj(vec![
            ("crate", s(krate.clone())),
            ("types", J::Arr(dump.types)),
            ("adts", J::Arr(adts)),
            ("bodies", J::Arr(bj)),
            ("impls", J::Arr(impls)),
            ("items", J::Arr(items)),
            ("failed", J::Arr(failed)),
        ]);
        let mut txt = String::new();
        j.write(&mut txt);
        std::fs::create_dir_all(&out).unwrap();
        std::fs::write(format!("{}/{}.json", out, krate), txt).unwrap();
        if std::env::var("VP_STOP").is_ok() {
            return Compilation::Stop;
        }
        Compilation::Continue
    }
}

fn main() {
    let mut args: Vec<String> = std::env::args().collect();
    // As a wrapper: argv[1] is the real rustc.
    if args.len() > 1 && std::path::Path::new(&args[1]).file_stem().map_or(false, |f| f == "rustc") {
        args.remove(1);
    }
    rustc_driver::compiler_entrypoint(&args, &mut Cb);
}

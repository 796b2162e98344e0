use crate::json::J;
use rustc_hir::def::DefKind;
use rustc_middle::mir;
use rustc_middle::ty::{self, Ty, TyCtxt};
use rustc_span::def_id::{DefId, LocalDefId};
use std::collections::HashMap;

struct Cx<'tcx> {
    tcx: TyCtxt<'tcx>,
    ty_ix: HashMap<Ty<'tcx>, usize>,
    tys: Vec<J>,
}

fn key(tcx: TyCtxt<'_>, d: DefId) -> String {
    let p = tcx.def_path(d);
    format!("{}{}", tcx.crate_name(d.krate), p.to_string_no_crate_verbose())
}

impl<'tcx> Cx<'tcx> {
    fn path(&self, d: DefId) -> String {
        ty::print::with_no_trimmed_paths!(self.tcx.def_path_str(d))
    }

    fn args(&mut self, args: ty::GenericArgsRef<'tcx>) -> J {
        let v: Vec<J> = args
            .iter()
            .map(|a| match a.kind() {
                ty::GenericArgKind::Type(t) => J::n(self.ty(t)),
                ty::GenericArgKind::Lifetime(_) => J::Null,
                ty::GenericArgKind::Const(c) => J::s(format!("{:?}", c)),
                #[allow(unreachable_patterns)]
                _ => J::s("?"),
            })
            .collect();
        J::Arr(v)
    }

    fn ty(&mut self, t: Ty<'tcx>) -> usize {
        if let Some(i) = self.ty_ix.get(&t) {
            return *i;
        }
        let i = self.tys.len();
        self.ty_ix.insert(t, i);
        self.tys.push(J::Null);
        let s = ty::print::with_no_trimmed_paths!(t.to_string());
        let mut o: Vec<(&'static str, J)> = vec![("s", J::Str(s))];
        match t.kind() {
            ty::Adt(d, a) => {
                o.push(("k", J::s("adt")));
                o.push(("def", J::Str(key(self.tcx, d.did()))));
                o.push(("path", J::Str(self.path(d.did()))));
                let a = self.args(a);
                o.push(("args", a));
            }
            ty::Ref(_, x, m) => {
                o.push(("k", J::s("ref")));
                o.push(("mut", J::Bool(m.is_mut())));
                let x = self.ty(*x);
                o.push(("ty", J::n(x)));
            }
            ty::RawPtr(x, m) => {
                o.push(("k", J::s("ptr")));
                o.push(("mut", J::Bool(m.is_mut())));
                let x = self.ty(*x);
                o.push(("ty", J::n(x)));
            }
            ty::Tuple(ts) => {
                o.push(("k", J::s("tuple")));
                let v = ts.iter().map(|x| J::n(self.ty(x))).collect();
                o.push(("tys", J::Arr(v)));
            }
            ty::Array(x, n) => {
                o.push(("k", J::s("array")));
                let x = self.ty(*x);
                o.push(("ty", J::n(x)));
                o.push(("len", J::s(format!("{:?}", n))));
            }
            ty::Slice(x) => {
                o.push(("k", J::s("slice")));
                let x = self.ty(*x);
                o.push(("ty", J::n(x)));
            }
            ty::Param(p) => {
                o.push(("k", J::s("param")));
                o.push(("name", J::s(p.name)));
            }
            ty::Alias(_, a) => {
                o.push(("k", J::s("alias")));
                let d: DefId = match a.kind {
                    ty::AliasTyKind::Projection { def_id } => def_id.into(),
                    ty::AliasTyKind::Inherent { def_id } => def_id.into(),
                    ty::AliasTyKind::Opaque { def_id } => def_id.into(),
                    ty::AliasTyKind::Free { def_id } => def_id.into(),
                };
                o.push(("def", J::Str(key(self.tcx, d))));
                let a = self.args(a.args);
                o.push(("args", a));
            }
            ty::Closure(d, a) => {
                o.push(("k", J::s("closure")));
                o.push(("def", J::Str(key(self.tcx, (*d).into()))));
                let up: Vec<J> = a.as_closure().upvar_tys().iter().map(|x| J::n(self.ty(x))).collect();
                o.push(("upvars", J::Arr(up)));
            }
            ty::FnDef(d, a) => {
                o.push(("k", J::s("fndef")));
                o.push(("def", J::Str(key(self.tcx, (*d).into()))));
                o.push(("path", J::Str(self.path((*d).into()))));
                let a = self.args(a.skip_binder());
                o.push(("args", a));
            }
            ty::Bool => o.push(("k", J::s("bool"))),
            ty::Int(_) | ty::Uint(_) => o.push(("k", J::s("int"))),
            ty::Never => o.push(("k", J::s("never"))),
            ty::Str => o.push(("k", J::s("str"))),
            ty::FnPtr(..) => o.push(("k", J::s("fnptr"))),
            ty::Dynamic(..) => o.push(("k", J::s("dyn"))),
            _ => o.push(("k", J::s("other"))),
        }
        self.tys[i] = J::Obj(o);
        i
    }

    fn span(&self, sp: rustc_span::Span) -> J {
        let exp = sp.from_expansion();
        let mac = if exp {
            // outermost macro name
            let mut s = sp;
            let mut name = String::new();
            while s.from_expansion() {
                let d = s.ctxt().outer_expn_data();
                name = match d.kind {
                    rustc_span::ExpnKind::Macro(_, n) => n.to_string(),
                    rustc_span::ExpnKind::Desugaring(k) => format!("#{:?}", k),
                    _ => "#".to_string(),
                };
                s = d.call_site;
            }
            name
        } else {
            String::new()
        };
        let root = sp.source_callsite();
        let lo = self.tcx.sess.source_map().lookup_char_pos(root.lo());
        let f = format!("{}", lo.file.name.prefer_local_unconditionally());
        J::s(format!("{}:{}|{}", f, lo.line, mac))
    }

    fn place(&mut self, p: &mir::Place<'tcx>) -> J {
        let mut v = vec![J::n(p.local.as_usize())];
        for e in p.projection.iter() {
            v.push(match e {
                mir::ProjectionElem::Deref => J::s("*"),
                mir::ProjectionElem::Field(f, t) => {
                    let t = self.ty(t);
                    J::Arr(vec![J::s("f"), J::n(f.as_usize()), J::n(t)])
                }
                mir::ProjectionElem::Index(l) => J::Arr(vec![J::s("i"), J::n(l.as_usize())]),
                mir::ProjectionElem::ConstantIndex { offset, min_length, from_end } => J::Arr(vec![
                    J::s("ci"),
                    J::n(offset as usize),
                    J::n(min_length as usize),
                    J::Bool(from_end),
                ]),
                mir::ProjectionElem::Subslice { from, to, from_end } => J::Arr(vec![
                    J::s("ss"),
                    J::n(from as usize),
                    J::n(to as usize),
                    J::Bool(from_end),
                ]),
                mir::ProjectionElem::Downcast(_, i) => J::Arr(vec![J::s("d"), J::n(i.as_usize())]),
                _ => J::Arr(vec![J::s("?")]),
            });
        }
        J::Arr(v)
    }

    fn operand(&mut self, o: &mir::Operand<'tcx>, env: ty::TypingEnv<'tcx>) -> J {
        match o {
            mir::Operand::Copy(p) => J::Arr(vec![J::s("copy"), self.place(p)]),
            mir::Operand::Move(p) => J::Arr(vec![J::s("move"), self.place(p)]),
            mir::Operand::Constant(c) => J::Arr(vec![J::s("const"), self.constant(c, env)]),
            _ => J::Arr(vec![J::s("rtcheck")]),
        }
    }

    fn constant(&mut self, c: &mir::ConstOperand<'tcx>, env: ty::TypingEnv<'tcx>) -> J {
        let t = c.const_.ty();
        let ti = self.ty(t);
        let mut o: Vec<(&'static str, J)> = vec![("ty", J::n(ti))];
        if let ty::FnDef(d, a) = t.kind() {
            let a = a.skip_binder();
            let d: DefId = (*d).into();
            let f = self.fnref(d, a, env);
            o.push(("fn", f));
        } else if t.is_integral() || t.is_bool() || t.is_char() {
            if let Some(b) = c.const_.try_eval_bits(self.tcx, env) {
                o.push(("v", J::Int(b as i128)));
            }
        }
        if let mir::Const::Unevaluated(u, _) = c.const_ {
            o.push(("def", J::Str(key(self.tcx, u.def))));
            if let Some(p) = u.promoted {
                o.push(("promoted", J::n(p.as_usize())));
            }
        }
        o.push(("s", J::s(format!("{}", c.const_))));
        J::Obj(o)
    }

    fn fnref(&mut self, d: DefId, a: ty::GenericArgsRef<'tcx>, env: ty::TypingEnv<'tcx>) -> J {
        let tcx = self.tcx;
        let mut o: Vec<(&'static str, J)> = vec![
            ("key", J::Str(key(tcx, d))),
            ("path", J::Str(self.path(d))),
            ("local", J::Bool(d.is_local())),
        ];
        let args = self.args(a);
        o.push(("args", args));
        if let Some(tr) = tcx.trait_of_assoc(d) {
            o.push(("trait", J::Str(self.path(tr))));
            o.push(("name", J::s(tcx.item_name(d))));
            if let Some(st) = a.types().next() {
                let s = self.ty(st);
                o.push(("self", J::n(s)));
            }
            // Resolution where the trait reference is already concrete enough.
            if let Ok(Some(inst)) = ty::Instance::try_resolve(tcx, env, d, a) {
                let rd = inst.def_id();
                if rd != d {
                    o.push(("res", J::Str(key(tcx, rd))));
                    o.push(("res_path", J::Str(self.path(rd))));
                    o.push(("res_local", J::Bool(rd.is_local())));
                }
            }
        }
        o.push(("unsafe", J::Bool(
            matches!(tcx.def_kind(d), DefKind::Fn | DefKind::AssocFn)
                && tcx.fn_sig(d).skip_binder().safety() == rustc_hir::Safety::Unsafe)));
        J::Obj(o)
    }

    fn rvalue(&mut self, r: &mir::Rvalue<'tcx>, env: ty::TypingEnv<'tcx>) -> J {
        match r {
            mir::Rvalue::Use(o, ..) => J::Arr(vec![J::s("use"), self.operand(o, env)]),
            mir::Rvalue::Repeat(o, n) => {
                J::Arr(vec![J::s("repeat"), self.operand(o, env), J::s(format!("{:?}", n))])
            }
            mir::Rvalue::Ref(_, bk, p) => {
                let k = match bk {
                    mir::BorrowKind::Shared => "shared",
                    mir::BorrowKind::Fake(_) => "fake",
                    mir::BorrowKind::Mut { .. } => "mut",
                };
                J::Arr(vec![J::s("ref"), J::s(k), self.place(p)])
            }
            mir::Rvalue::Reborrow(_, m, p) => {
                let k = if m.is_mut() { "mut" } else { "shared" };
                J::Arr(vec![J::s("ref"), J::s(k), self.place(p)])
            }
            mir::Rvalue::RawPtr(k, p) => {
                J::Arr(vec![J::s("rawptr"), J::s(format!("{:?}", k)), self.place(p)])
            }
            mir::Rvalue::Cast(k, o, t) => {
                let t = self.ty(*t);
                J::Arr(vec![J::s("cast"), J::s(format!("{:?}", k)), self.operand(o, env), J::n(t)])
            }
            mir::Rvalue::BinaryOp(op, b) => J::Arr(vec![
                J::s("bin"),
                J::s(format!("{:?}", op)),
                self.operand(&b.0, env),
                self.operand(&b.1, env),
            ]),
            mir::Rvalue::UnaryOp(op, a) => {
                J::Arr(vec![J::s("un"), J::s(format!("{:?}", op)), self.operand(a, env)])
            }
            mir::Rvalue::Discriminant(p) => J::Arr(vec![J::s("discr"), self.place(p)]),
            mir::Rvalue::CopyForDeref(p) => {
                let p = self.place(p);
                J::Arr(vec![J::s("use"), J::Arr(vec![J::s("copy"), p])])
            }
            mir::Rvalue::Aggregate(k, ops) => {
                let ops: Vec<J> = ops.iter().map(|o| self.operand(o, env)).collect();
                let kk = match &**k {
                    mir::AggregateKind::Array(_) => J::Arr(vec![J::s("array")]),
                    mir::AggregateKind::Tuple => J::Arr(vec![J::s("tuple")]),
                    mir::AggregateKind::Adt(d, v, a, _, f) => {
                        let a = self.args(a);
                        let vn = self.tcx.adt_def(*d).variant(*v).name.to_string();
                        J::Arr(vec![
                            J::s("adt"),
                            J::Str(key(self.tcx, *d)),
                            J::n(v.as_usize()),
                            J::Str(vn),
                            match f {
                                Some(f) => J::n(f.as_usize()),
                                None => J::Null,
                            },
                            a,
                        ])
                    }
                    mir::AggregateKind::Closure(d, _) => {
                        J::Arr(vec![J::s("closure"), J::Str(key(self.tcx, *d))])
                    }
                    mir::AggregateKind::RawPtr(..) => J::Arr(vec![J::s("rawptr")]),
                    _ => J::Arr(vec![J::s("?")]),
                };
                J::Arr(vec![J::s("agg"), kk, J::Arr(ops)])
            }
            mir::Rvalue::ThreadLocalRef(d) => J::Arr(vec![J::s("tls"), J::Str(key(self.tcx, *d))]),
            #[allow(unreachable_patterns)]
            _ => J::Arr(vec![J::s("?"), J::s(format!("{:?}", r))]),
        }
    }

    fn body(&mut self, def: DefId, body: &mir::Body<'tcx>) -> Vec<(&'static str, J)> {
        let tcx = self.tcx;
        let env = ty::TypingEnv::post_analysis(tcx, def);
        let mut names: HashMap<usize, String> = HashMap::new();
        let mut upv: Vec<J> = vec![];
        for v in &body.var_debug_info {
            if let mir::VarDebugInfoContents::Place(p) = &v.value {
                if p.projection.is_empty() {
                    names.entry(p.local.as_usize()).or_insert(v.name.to_string());
                } else {
                    let pl = self.place(p);
                    upv.push(J::Arr(vec![J::s(v.name), pl]));
                }
            }
        }
        let locals: Vec<J> = body
            .local_decls
            .iter_enumerated()
            .map(|(l, d)| {
                let t = self.ty(d.ty);
                J::Arr(vec![
                    J::n(t),
                    match names.get(&l.as_usize()) {
                        Some(n) => J::s(n),
                        None => J::Null,
                    },
                    J::Bool(d.mutability.is_mut()),
                ])
            })
            .collect();
        let mut blocks = vec![];
        for (_bb, data) in body.basic_blocks.iter_enumerated() {
            let mut st = vec![];
            for s in &data.statements {
                let sp = self.span(s.source_info.span);
                match &s.kind {
                    mir::StatementKind::Assign(b) => {
                        let p = self.place(&b.0);
                        let r = self.rvalue(&b.1, env);
                        st.push(J::Arr(vec![J::s("="), p, r, sp]));
                    }
                    mir::StatementKind::SetDiscriminant { place, variant_index } => {
                        let p = self.place(place);
                        st.push(J::Arr(vec![J::s("setdiscr"), p, J::n(variant_index.as_usize()), sp]));
                    }
                    mir::StatementKind::StorageDead(l) => {
                        st.push(J::Arr(vec![J::s("dead"), J::n(l.as_usize())]));
                    }
                    mir::StatementKind::StorageLive(l) => {
                        st.push(J::Arr(vec![J::s("live"), J::n(l.as_usize())]));
                    }
                    mir::StatementKind::Intrinsic(i) => {
                        st.push(J::Arr(vec![J::s("intrinsic"), J::s(format!("{:?}", i)), sp]));
                    }
                    _ => {}
                }
            }
            let t = data.terminator();
            let sp = self.span(t.source_info.span);
            let uw = |u: &mir::UnwindAction| match u {
                mir::UnwindAction::Cleanup(b) => J::n(b.as_usize()),
                _ => J::Null,
            };
            let term = match &t.kind {
                mir::TerminatorKind::Goto { target, .. } => J::Arr(vec![J::s("goto"), J::n(target.as_usize())]),
                mir::TerminatorKind::SwitchInt { discr, targets } => {
                    let vs: Vec<J> = targets
                        .iter()
                        .map(|(v, b)| J::Arr(vec![J::Int(v as i128), J::n(b.as_usize())]))
                        .collect();
                    let d = self.operand(discr, env);
                    let dt = discr.ty(&body.local_decls, tcx);
                    let dt = self.ty(dt);
                    J::Arr(vec![J::s("switch"), d, J::Arr(vs), J::n(targets.otherwise().as_usize()), J::n(dt), sp])
                }
                mir::TerminatorKind::Return => J::Arr(vec![J::s("return")]),
                mir::TerminatorKind::Unreachable => J::Arr(vec![J::s("unreachable")]),
                mir::TerminatorKind::UnwindResume => J::Arr(vec![J::s("resume")]),
                mir::TerminatorKind::UnwindTerminate(_) => J::Arr(vec![J::s("abort")]),
                mir::TerminatorKind::Drop { place, target, unwind, .. } => {
                    let pt = place.ty(&body.local_decls, tcx).ty;
                    let needs = pt.needs_drop(tcx, env);
                    let pt = self.ty(pt);
                    J::Arr(vec![
                        J::s("drop"),
                        self.place(place),
                        J::n(target.as_usize()),
                        uw(unwind),
                        J::n(pt),
                        J::Bool(needs),
                        sp,
                    ])
                }
                mir::TerminatorKind::Call { func, args, destination, target, unwind, .. } => {
                    let f = self.operand(func, env);
                    let a: Vec<J> = args.iter().map(|x| self.operand(&x.node, env)).collect();
                    let d = self.place(destination);
                    J::Arr(vec![
                        J::s("call"),
                        f,
                        J::Arr(a),
                        d,
                        match target {
                            Some(b) => J::n(b.as_usize()),
                            None => J::Null,
                        },
                        uw(unwind),
                        sp,
                    ])
                }
                mir::TerminatorKind::Assert { cond, expected, target, unwind, msg } => {
                    let c = self.operand(cond, env);
                    J::Arr(vec![
                        J::s("assert"),
                        c,
                        J::Bool(*expected),
                        J::n(target.as_usize()),
                        uw(unwind),
                        J::s(format!("{:?}", msg)),
                        sp,
                    ])
                }
                other => J::Arr(vec![J::s("?"), J::s(format!("{:?}", other))]),
            };
            blocks.push(J::Obj(vec![
                ("s", J::Arr(st)),
                ("t", term),
                ("cleanup", J::Bool(data.is_cleanup)),
            ]));
        }
        vec![
            ("argc", J::n(body.arg_count)),
            ("locals", J::Arr(locals)),
            ("upvars", J::Arr(upv)),
            ("blocks", J::Arr(blocks)),
        ]
    }
}

pub fn dump_crate<'tcx>(tcx: TyCtxt<'tcx>, name: &str) -> String {
    let mut cx = Cx { tcx, ty_ix: HashMap::new(), tys: vec![] };
    let eff = tcx.effective_visibilities(());
    let mut bodies: Vec<(String, J)> = vec![];
    let mut keys: Vec<LocalDefId> = tcx.mir_keys(()).iter().copied().collect();
    keys.sort_by_key(|d| key(tcx, d.to_def_id()));
    for ld in keys {
        let d = ld.to_def_id();
        let dk = tcx.def_kind(d);
        let is_fn = matches!(dk, DefKind::Fn | DefKind::AssocFn | DefKind::Closure);
        if !is_fn {
            continue;
        }
        let body = tcx.optimized_mir(d);
        let mut o: Vec<(&'static str, J)> = vec![
            ("path", J::Str(cx.path(d))),
            ("kind", J::s(format!("{:?}", dk))),
            ("span", cx.span(tcx.def_span(d))),
            ("reach", J::Bool(eff.is_reachable(ld))),
            ("exported", J::Bool(eff.is_exported(ld))),
        ];
        if matches!(dk, DefKind::Fn | DefKind::AssocFn) {
            let vis = tcx.visibility(d);
            o.push(("vis", J::s(format!("{:?}", vis))));
            let sig = tcx.fn_sig(d).instantiate_identity().skip_norm_wip().skip_binder();
            let ins: Vec<J> = sig.inputs().iter().map(|t| J::n(cx.ty(*t))).collect();
            let out = cx.ty(sig.output());
            o.push(("inputs", J::Arr(ins)));
            o.push(("output", J::n(out)));
            o.push(("sig", J::s(format!("{}", sig))));
            o.push(("unsafe", J::Bool(sig.safety() == rustc_hir::Safety::Unsafe)));
            o.push(("name", J::s(tcx.item_name(d))));
            if let Some(im) = tcx.impl_of_assoc(d) {
                o.push(("impl", J::Str(key(tcx, im))));
                let st = cx.ty(tcx.type_of(im).instantiate_identity().skip_norm_wip());
                o.push(("self_ty", J::n(st)));
                if tcx.def_kind(im) == (DefKind::Impl { of_trait: true }) {
                    if let Some(ti) = tcx.associated_item(d).trait_item_def_id() {
                        o.push(("implements", J::Str(key(tcx, ti))));
                        o.push(("implements_path", J::Str(cx.path(ti))));
                    }
                }
            }
            if let Some(tr) = tcx.trait_of_assoc(d) {
                o.push(("in_trait", J::Str(cx.path(tr))));
            }
            let preds: Vec<J> = tcx
                .clauses_of(d)
                .instantiate_identity(tcx)
                .clauses
                .iter()
                .map(|p| J::s(format!("{:?}", p)))
                .collect();
            o.push(("preds", J::Arr(preds)));
        } else {
            o.push(("parent", J::Str(key(tcx, tcx.parent(d)))));
        }
        let b = cx.body(d, body);
        o.extend(b);
        let mut proms = vec![];
        for p in tcx.promoted_mir(d).iter() {
            let pb = cx.body(d, p);
            proms.push(J::Obj(pb));
        }
        o.push(("promoted", J::Arr(proms)));
        bodies.push((key(tcx, d), J::Obj(o)));
    }
    // ADTs, impls, statics
    let mut adts: Vec<(String, J)> = vec![];
    let mut impls: Vec<(String, J)> = vec![];
    let mut statics: Vec<J> = vec![];
    let mut consts: Vec<(String, J)> = vec![];
    for ld in tcx.hir_crate_items(()).definitions() {
        let d = ld.to_def_id();
        match tcx.def_kind(d) {
            DefKind::Struct | DefKind::Enum | DefKind::Union => {
                let ad = tcx.adt_def(d);
                let mut vs = vec![];
                for v in ad.variants() {
                    let mut fs = vec![];
                    for f in &v.fields {
                        let ft = tcx.type_of(f.did).instantiate_identity().skip_norm_wip();
                        let t = cx.ty(ft);
                        fs.push(J::Obj(vec![
                            ("name", J::s(f.name)),
                            ("ty", J::n(t)),
                            ("vis", J::s(format!("{:?}", f.vis))),
                            ("pub", J::Bool(f.vis.is_public())),
                        ]));
                    }
                    vs.push(J::Obj(vec![("name", J::s(v.name)), ("fields", J::Arr(fs))]));
                }
                adts.push((
                    key(tcx, d),
                    J::Obj(vec![
                        ("path", J::Str(cx.path(d))),
                        ("enum", J::Bool(ad.is_enum())),
                        ("reach", J::Bool(eff.is_reachable(ld))),
                        ("exported", J::Bool(eff.is_exported(ld))),
                        ("span", cx.span(tcx.def_span(d))),
                        ("variants", J::Arr(vs)),
                        ("has_drop", J::Bool(tcx.adt_destructor(d).is_some())),
                    ]),
                ));
            }
            DefKind::Impl { of_trait } => {
                let st = cx.ty(tcx.type_of(d).instantiate_identity().skip_norm_wip());
                let mut o: Vec<(&'static str, J)> = vec![("self", J::n(st)), ("span", cx.span(tcx.def_span(d)))];
                if of_trait {
                    let h = tcx.impl_trait_header(d);
                    let tr = h.trait_ref.instantiate_identity().skip_norm_wip();
                    o.push(("trait", J::Str(cx.path(tr.def_id))));
                    o.push(("trait_ref", J::Str(ty::print::with_no_trimmed_paths!(format!("{}", tr)))));
                    o.push(("unsafe", J::Bool(h.safety == rustc_hir::Safety::Unsafe)));
                    o.push(("polarity", J::s(format!("{:?}", h.polarity))));
                }
                let preds: Vec<J> = tcx
                    .clauses_of(d)
                    .instantiate_identity(tcx)
                    .clauses
                    .iter()
                    .map(|p| J::s(format!("{:?}", p)))
                    .collect();
                o.push(("preds", J::Arr(preds)));
                let derived = tcx.is_builtin_derived(d);
                o.push(("derived", J::Bool(derived)));
                let ms: Vec<J> = tcx
                    .associated_item_def_ids(d)
                    .iter()
                    .map(|m| J::Arr(vec![J::Str(key(tcx, *m)), J::s(tcx.item_name(*m))]))
                    .collect();
                o.push(("items", J::Arr(ms)));
                let mut assoc: Vec<J> = vec![];
                for m in tcx.associated_item_def_ids(d).iter() {
                    if matches!(tcx.def_kind(*m), DefKind::AssocTy) {
                        let t = tcx.type_of(*m).instantiate_identity().skip_norm_wip();
                        let ti = cx.ty(t);
                        assoc.push(J::Arr(vec![J::s(tcx.item_name(*m)), J::n(ti)]));
                    }
                }
                o.push(("assoc", J::Arr(assoc)));
                impls.push((key(tcx, d), J::Obj(o)));
            }
            DefKind::Static { mutability, .. } => {
                let raw = tcx.type_of(d).instantiate_identity().skip_norm_wip();
                let interior = !raw.is_freeze(tcx, ty::TypingEnv::post_analysis(tcx, d));
                let t = cx.ty(raw);
                statics.push(J::Obj(vec![("key", J::Str(key(tcx, d))), ("mut", J::Bool(mutability == rustc_hir::Mutability::Mut || interior)), ("ty", J::n(t)), ("span", cx.span(tcx.def_span(d)))]));
            }
            DefKind::Const { .. } => {
                let t = tcx.type_of(d).instantiate_identity().skip_norm_wip();
                if t.is_integral() && tcx.generics_of(d).is_empty() {
                    if let Ok(v) = tcx.const_eval_poly(d) {
                        if let Some(b) = v.try_to_bits_for_ty(tcx, ty::TypingEnv::post_analysis(tcx, d), t) {
                            consts.push((key(tcx, d), J::Int(b as i128)));
                        }
                    }
                }
            }
            _ => {}
        }
    }
    let tys = std::mem::take(&mut cx.tys);
    let j = J::Obj(vec![
        ("crate", J::s(name)),
        ("debug_assertions", J::Bool(tcx.sess.opts.debug_assertions)),
        ("types", J::Arr(tys)),
        ("bodies", J::Map(bodies)),
        ("adts", J::Map(adts)),
        ("impls", J::Map(impls)),
        ("statics", J::Arr(statics)),
        ("consts", J::Map(consts)),
    ]);
    let mut s = String::new();
    j.write(&mut s);
    s
}

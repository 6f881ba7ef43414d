//! Facts about one crate: where unsafe code is, which statics exist, what every body calls, its
//! literals, and a compact form of its (generic) MIR for control and data dependence.
use crate::dump::{raw_path, span_str};
use crate::json::{n, s, J};
use rustc_hir as hir;
use rustc_hir::def::DefKind;
use rustc_hir::def_id::{DefId, LocalDefId, LOCAL_CRATE};
use rustc_hir::intravisit::{self, Visitor};
use rustc_middle::hir::nested_filter;
use rustc_middle::mir::{self, *};
use rustc_middle::ty::print::with_no_trimmed_paths;
use rustc_middle::ty::{self, Ty, TyCtxt, TypingEnv};

struct V<'tcx> {
    tcx: TyCtxt<'tcx>,
    unsafes: Vec<J>,
}

impl<'tcx> V<'tcx> {
    fn hit(&mut self, what: &str, sp: rustc_span::Span) {
        if sp.allows_unsafe() {
            return;
        }
        self.unsafes.push(J::O(vec![
            ("what", s(what)),
            ("at", s(span_str(self.tcx, sp))),
            ("expanded", J::B(sp.from_expansion())),
        ]));
    }
}

impl<'tcx> Visitor<'tcx> for V<'tcx> {
    type NestedFilter = nested_filter::All;
    fn maybe_tcx(&mut self) -> TyCtxt<'tcx> {
        self.tcx
    }
    fn visit_block(&mut self, b: &'tcx hir::Block<'tcx>) {
        if let hir::BlockCheckMode::UnsafeBlock(hir::UnsafeSource::UserProvided) = b.rules {
            self.hit("unsafe block", b.span);
        }
        intravisit::walk_block(self, b);
    }
    fn visit_item(&mut self, i: &'tcx hir::Item<'tcx>) {
        match &i.kind {
            hir::ItemKind::ForeignMod { .. } => self.hit("extern block", i.span),
            hir::ItemKind::GlobalAsm { .. } => self.hit("global_asm", i.span),
            hir::ItemKind::Static(m, ..) if m.is_mut() => self.hit("static mut", i.span),
            _ => (),
        }
        intravisit::walk_item(self, i);
    }
    fn visit_expr(&mut self, e: &'tcx hir::Expr<'tcx>) {
        if let hir::ExprKind::InlineAsm(_) = e.kind {
            self.hit("asm", e.span);
        }
        intravisit::walk_expr(self, e);
    }
}

fn ty_s(t: Ty<'_>) -> String {
    with_no_trimmed_paths!(format!("{}", t))
}

fn fn_def(tcx: TyCtxt<'_>, t: Ty<'_>) -> Option<J> {
    if let ty::FnDef(d, args) = *t.kind() {
        let mut o = vec![
            ("path", s(raw_path(tcx, d))),
            ("nice", s(with_no_trimmed_paths!(tcx.def_path_str(d)))),
            (
                "args",
                J::A(args.skip_binder().types().map(|x| s(ty_s(x))).collect()),
            ),
            ("local", J::B(d.is_local())),
        ];
        if let Some(tr) = tcx.trait_of_assoc(d) {
            o.push(("trait", s(raw_path(tcx, tr))));
            o.push(("method", s(tcx.item_name(d).to_string())));
        }
        return Some(J::O(o));
    }
    None
}

struct M<'tcx> {
    tcx: TyCtxt<'tcx>,
    body: &'tcx mir::Body<'tcx>,
}

impl<'tcx> M<'tcx> {
    fn place(&self, p: &Place<'tcx>) -> J {
        // [local, field path as "type.field" strings]
        let mut out = vec![n(p.local.as_usize())];
        let mut pt = mir::PlaceTy::from_ty(self.body.local_decls[p.local].ty);
        for e in p.projection {
            match e {
                ProjectionElem::Field(f, _) => {
                    let mut name = format!("{}", f.as_usize());
                    if let ty::Adt(a, _) = pt.ty.kind() {
                        let v = pt.variant_index.unwrap_or(rustc_abi::FIRST_VARIANT);
                        name = format!("{}:{}.{}", raw_path(self.tcx, a.did()), v.as_usize(), f.as_usize());
                    }
                    out.push(s(name));
                }
                ProjectionElem::Index(l) => out.push(J::A(vec![n(l.as_usize())])),
                _ => (),
            }
            pt = pt.projection_ty(self.tcx, e);
        }
        J::A(out)
    }
    fn operand(&self, o: &Operand<'tcx>) -> J {
        match o {
            Operand::Copy(p) | Operand::Move(p) => J::O(vec![("p", self.place(p))]),
            Operand::Constant(c) => {
                let t = c.const_.ty();
                if let Some(f) = fn_def(self.tcx, t) {
                    return J::O(vec![("fn", f)]);
                }
                let mut o = vec![("k", s(with_no_trimmed_paths!(format!("{}", c.const_)))), ("ty", s(ty_s(t)))];
                if let Some(d) = c.check_static_ptr(self.tcx) {
                    o.push(("static", s(raw_path(self.tcx, d))));
                }
                if let mir::Const::Unevaluated(u, _) = c.const_ {
                    if u.promoted.is_none() {
                        o.push(("const", s(raw_path(self.tcx, u.def))));
                    } else {
                        let pm = &self.tcx.promoted_mir(u.def)[u.promoted.unwrap()];
                        let m = M { tcx: self.tcx, body: pm };
                        o.push(("promoted", m.stmts_of_all()));
                    }
                }
                J::O(o)
            }
            #[allow(unreachable_patterns)]
            _ => J::O(vec![]),
        }
    }
    fn stmts_of_all(&self) -> J {
        let mut v = vec![];
        for b in self.body.basic_blocks.iter() {
            for st in &b.statements {
                if let Some(x) = self.stmt(st) {
                    v.push(x);
                }
            }
        }
        J::A(v)
    }
    fn stmt(&self, st: &Statement<'tcx>) -> Option<J> {
        if let StatementKind::Assign(b) = &st.kind {
            let (p, r) = &**b;
            let mut kind = String::new();
            let mut ops: Vec<J> = vec![];
            let mut extra = J::Null;
            match r {
                Rvalue::Use(o, ..) => {
                    kind.push_str("use");
                    ops.push(self.operand(o));
                }
                Rvalue::Repeat(o, _) => {
                    kind.push_str("repeat");
                    ops.push(self.operand(o));
                }
                Rvalue::Ref(_, _, p) => {
                    kind.push_str("ref");
                    ops.push(J::O(vec![("p", self.place(p))]));
                }
                Rvalue::RawPtr(_, p) => {
                    kind.push_str("rawptr");
                    ops.push(J::O(vec![("p", self.place(p))]));
                }
                Rvalue::Cast(k, o, t) => {
                    kind.push_str("cast");
                    ops.push(self.operand(o));
                    extra = J::A(vec![s(format!("{:?}", k)), s(ty_s(*t))]);
                }
                Rvalue::BinaryOp(k, b) => {
                    kind.push_str("bin");
                    ops.push(self.operand(&b.0));
                    ops.push(self.operand(&b.1));
                    extra = s(format!("{:?}", k));
                }
                Rvalue::UnaryOp(k, o) => {
                    kind.push_str("un");
                    ops.push(self.operand(o));
                    extra = s(format!("{:?}", k));
                }
                Rvalue::Discriminant(p) => {
                    kind.push_str("discr");
                    ops.push(J::O(vec![("p", self.place(p))]));
                    let t = p.ty(&self.body.local_decls, self.tcx).ty;
                    if let ty::Adt(a, _) = t.kind() {
                        if a.is_enum() {
                            let tab: Vec<J> = a
                                .discriminants(self.tcx)
                                .map(|(i, d)| J::A(vec![s(a.variant(i).name.to_string()), s(d.val.to_string())]))
                                .collect();
                            extra = J::A(vec![s(raw_path(self.tcx, a.did())), J::A(tab)]);
                        }
                    }
                }
                Rvalue::Aggregate(k, os) => {
                    kind.push_str("agg");
                    ops.extend(os.iter().map(|o| self.operand(o)));
                    extra = match &**k {
                        AggregateKind::Adt(d, v, ..) => {
                            let a = self.tcx.adt_def(*d);
                            J::A(vec![s("adt"), s(raw_path(self.tcx, *d)), n(v.as_usize()), s(a.variant(*v).name.to_string())])
                        }
                        AggregateKind::Closure(d, _) => J::A(vec![s("closure"), s(raw_path(self.tcx, *d))]),
                        _ => J::A(vec![s("other")]),
                    };
                }
                Rvalue::CopyForDeref(p) => {
                    kind.push_str("use");
                    ops.push(J::O(vec![("p", self.place(p))]));
                }
                Rvalue::ThreadLocalRef(d) => {
                    kind.push_str("tls");
                    extra = s(raw_path(self.tcx, *d));
                }
                _ => kind.push_str("other"),
            }
            return Some(J::O(vec![
                ("d", self.place(p)),
                ("r", s(kind)),
                ("o", J::A(ops)),
                ("x", extra),
                ("at", s(span_str(self.tcx, st.source_info.span))),
            ]));
        }
        None
    }
    fn blocks(&self) -> J {
        let mut out = vec![];
        for b in self.body.basic_blocks.iter() {
            let sts: Vec<J> = b.statements.iter().filter_map(|x| self.stmt(x)).collect();
            let t = b.terminator();
            let at = s(span_str(self.tcx, t.source_info.span));
            let tj = match &t.kind {
                TerminatorKind::Call { func, args, destination, target, .. } => J::O(vec![
                    ("t", s("call")),
                    ("f", self.operand(func)),
                    ("a", J::A(args.iter().map(|x| self.operand(&x.node)).collect())),
                    ("d", self.place(destination)),
                    ("to", J::A(target.iter().map(|x| n(x.as_usize())).collect())),
                    ("at", at),
                ]),
                TerminatorKind::SwitchInt { discr, targets } => J::O(vec![
                    ("t", s("switch")),
                    ("o", self.operand(discr)),
                    ("vals", J::A(targets.iter().map(|(v, b)| J::A(vec![s(v.to_string()), n(b.as_usize())])).collect())),
                    ("else", n(targets.otherwise().as_usize())),
                    ("to", J::A(targets.all_targets().iter().map(|x| n(x.as_usize())).collect())),
                    ("at", at),
                ]),
                k => J::O(vec![
                    ("t", s("other")),
                    (
                        "to",
                        J::A(match k {
                            TerminatorKind::Goto { target, .. } | TerminatorKind::Drop { target, .. } | TerminatorKind::Assert { target, .. } => vec![n(target.as_usize())],
                            TerminatorKind::FalseEdge { real_target, .. } | TerminatorKind::FalseUnwind { real_target, .. } => vec![n(real_target.as_usize())],
                            _ => vec![],
                        }),
                    ),
                    ("at", at),
                ]),
            };
            out.push(J::O(vec![("s", J::A(sts)), ("t", tj), ("cleanup", J::B(b.is_cleanup))]));
        }
        J::A(out)
    }
}

fn body_facts(tcx: TyCtxt<'_>, d: LocalDefId, with_mir: bool) -> Option<J> {
    let did: DefId = d.to_def_id();
    let kind = tcx.def_kind(d);
    let body: &mir::Body<'_> = match kind {
        DefKind::Fn | DefKind::AssocFn | DefKind::Closure => tcx.optimized_mir(d),
        DefKind::Static { .. } | DefKind::Const { .. } | DefKind::AssocConst { .. } => tcx.mir_for_ctfe(d),
        _ => return None,
    };
    let m = M { tcx, body };
    let mut o = vec![
        ("path", s(raw_path(tcx, did))),
        ("kind", s(format!("{:?}", kind))),
        ("at", s(span_str(tcx, tcx.def_span(d)))),
        ("derived", J::B(tcx.def_span(d).from_expansion() || in_derived(tcx, did))),
    ];
    let base = tcx.typeck_root_def_id(did);
    if base != did {
        o.push(("root", s(raw_path(tcx, base))));
    }
    if let Some(i) = tcx.impl_of_assoc(did) {
        if let Some(tr) = tcx.impl_opt_trait_ref(i) {
            o.push(("impl_trait", s(raw_path(tcx, tr.skip_binder().def_id))));
            o.push(("method", s(tcx.item_name(did).to_string())));
            o.push(("self_ty", s(ty_s(tr.skip_binder().self_ty()))));
        }
    }
    if with_mir {
        o.push(("argc", n(body.arg_count)));
        o.push(("locals", J::A(body.local_decls.iter().map(|l| s(ty_s(l.ty))).collect())));
        o.push(("blocks", m.blocks()));
    }
    Some(J::O(o))
}

fn in_derived(tcx: TyCtxt<'_>, d: DefId) -> bool {
    let base = tcx.typeck_root_def_id(d);
    tcx.impl_of_assoc(base).map(|i| tcx.is_builtin_derived(i)).unwrap_or(false)
}

pub fn facts(tcx: TyCtxt<'_>) {
    let name = tcx.crate_name(LOCAL_CRATE).to_string();
    let mut v = V { tcx, unsafes: vec![] };
    tcx.hir_walk_toplevel_module(&mut v);
    let mut unsafes = std::mem::take(&mut v.unsafes);
    let mut hit = |what: &str, d: LocalDefId| {
        let sp = tcx.def_span(d);
        unsafes.push(J::O(vec![
            ("what", s(what)),
            ("at", s(span_str(tcx, sp))),
            ("expanded", J::B(sp.from_expansion())),
            ("path", s(raw_path(tcx, d.to_def_id()))),
        ]));
    };
    let mut statics = vec![];
    let env = TypingEnv::fully_monomorphized();
    for d in tcx.hir_crate_items(()).definitions() {
        let did = d.to_def_id();
        match tcx.def_kind(d) {
            DefKind::Fn | DefKind::AssocFn => {
                if tcx.fn_sig(did).skip_binder().safety() == hir::Safety::Unsafe {
                    hit("unsafe fn", d);
                }
                use rustc_middle::middle::codegen_fn_attrs::CodegenFnAttrFlags as F;
                if tcx.codegen_fn_attrs(did).flags.contains(F::NO_MANGLE) {
                    hit("no_mangle", d);
                }
            }
            DefKind::Trait => {
                if tcx.trait_def(did).safety == hir::Safety::Unsafe {
                    hit("unsafe trait", d);
                }
            }
            DefKind::Impl { of_trait: true } => {
                // the compiler's own derives (derive(Clone, Copy)) contain an unsafe marker impl
                if tcx.impl_trait_header(did).safety == hir::Safety::Unsafe && !tcx.is_builtin_derived(did) {
                    hit("unsafe impl", d);
                }
            }
            DefKind::Static { mutability, .. } => {
                let t = tcx.type_of(did).instantiate_identity().skip_norm_wip();
                statics.push(J::O(vec![
                    ("path", s(raw_path(tcx, did))),
                    ("at", s(span_str(tcx, tcx.def_span(d)))),
                    ("ty", s(ty_s(t))),
                    ("mutable", J::B(mutability.is_mut())),
                    ("freeze", J::B(t.is_freeze(tcx, env))),
                    ("tls", J::B(tcx.is_thread_local_static(did))),
                ]));
            }
            DefKind::Const { .. } => {
                let t = tcx.type_of(did).instantiate_identity().skip_norm_wip();
                if ty_s(t).contains("LocalKey") {
                    statics.push(J::O(vec![
                        ("path", s(raw_path(tcx, did))),
                        ("at", s(span_str(tcx, tcx.def_span(d)))),
                        ("ty", s(ty_s(t))),
                        ("mutable", J::B(false)),
                        ("freeze", J::B(false)),
                        ("tls", J::B(true)),
                    ]));
                }
            }
            _ => (),
        }
    }
    let with_mir = std::env::var("ND_FACTS_MIR").is_ok();
    let mut bodies = vec![];
    for d in tcx.hir_body_owners() {
        if let Some(b) = body_facts(tcx, d, with_mir) {
            bodies.push(b);
        }
    }
    let externs: Vec<J> = tcx.crates(()).iter().map(|c| s(tcx.crate_name(*c).to_string())).collect();
    let envs: Vec<J> = tcx
        .sess
        .env_depinfo
        .borrow()
        .iter()
        .map(|(k, _)| s(k.to_string()))
        .collect();
    let files: Vec<J> = tcx.sess.file_depinfo.borrow().iter().map(|k| s(k.to_string())).collect();
    let o = J::O(vec![
        ("crate", s(name.clone())),
        ("externs", J::A(externs)),
        ("env", J::A(envs)),
        ("files", J::A(files)),
        ("unsafe", J::A(unsafes)),
        ("statics", J::A(statics)),
        ("bodies", J::A(bodies)),
    ]);
    let mut t = String::new();
    o.write(&mut t);
    let dir = std::env::var("ND_OUT").unwrap_or_else(|_| ".".into());
    let _ = std::fs::write(format!("{dir}/facts_{name}.json"), t);
}

use crate::json::{n, s, J};
use rustc_data_structures::fx::FxHashMap;
use rustc_hir::def::DefKind;
use rustc_hir::def_id::DefId;
use rustc_middle::mir::interpret::{GlobalAlloc, Scalar};
use rustc_middle::mir::{self, *};
use rustc_middle::ty::print::with_no_trimmed_paths;
use rustc_middle::ty::{self, EarlyBinder, GenericArgsRef, Instance, InstanceKind, Ty, TyCtxt, TypingEnv};
use rustc_span::Span;

#[derive(Clone, Copy, PartialEq, Eq, Hash)]
enum Key<'tcx> {
    Inst(Instance<'tcx>),
    Promoted(DefId, GenericArgsRef<'tcx>, mir::Promoted),
    CtfeConst(DefId, GenericArgsRef<'tcx>),
}

struct Cx<'tcx> {
    tcx: TyCtxt<'tcx>,
    env: TypingEnv<'tcx>,
    ids: FxHashMap<Key<'tcx>, usize>,
    work: Vec<(usize, Key<'tcx>)>,
    out: Vec<J>,
}

pub fn span_str(tcx: TyCtxt<'_>, sp: Span) -> String {
    let loc = tcx.sess.source_map().lookup_char_pos(sp.source_callsite().lo());
    let f = format!("{}", loc.file.name.prefer_local_unconditionally());
    format!("{}:{}", f, loc.line)
}

fn ty_has_param<'tcx>(t: Ty<'tcx>) -> bool {
    use rustc_middle::ty::TypeVisitableExt;
    t.has_param()
}

fn ty_s<'tcx>(t: Ty<'tcx>) -> String {
    with_no_trimmed_paths!(format!("{}", t))
}

fn args_s<'tcx>(args: GenericArgsRef<'tcx>) -> J {
    J::A(
        args.iter()
            .filter(|a| a.as_region().is_none())
            .map(|a| s(with_no_trimmed_paths!(format!("{}", a))))
            .collect(),
    )
}

/// crate::module::{impl#0}::name
pub fn raw_path(tcx: TyCtxt<'_>, d: DefId) -> String {
    let p = tcx.def_path(d);
    format!("{}{}", tcx.crate_name(d.krate), p.to_string_no_crate_verbose())
}

fn nice_path(tcx: TyCtxt<'_>, d: DefId) -> String {
    with_no_trimmed_paths!(tcx.def_path_str(d))
}

fn descend(tcx: TyCtxt<'_>, raw: &str, d: DefId) -> bool {
    if d.is_local() {
        return !raw.contains("::opq::");
    }
    let c = tcx.crate_name(d.krate);
    let c = c.as_str();
    match c {
        "nom_derive" => true,
        "nom" => {
            let last = raw.rsplit("::").next().unwrap_or("");
            let num = raw.starts_with("nom::number::streaming::") || raw.starts_with("nom::number::complete::");
            !((num && (last.starts_with("be_u") || last.starts_with("le_u")))
                || raw.contains("hex")
                || raw.contains("::fmt"))
        }
        "core" => {
            const OK: &[&str] = &[
                "core::option::", "core::result::", "core::ops::", "core::convert::", "core::cmp::",
                "core::clone::", "core::borrow::", "core::bool::", "core::tuple::", "core::default::",
                "core::array::", "core::mem::replace", "core::mem::take", "core::mem::swap",
                "core::iter::range", "core::num::", "core::slice::index::", "core::slice::{impl",
                "core::slice::iter", "core::iter::", "core::ptr::const_ptr::", "core::ptr::mut_ptr::",
                "core::str::{impl", "core::hint::",
            ];
            OK.iter().any(|p| raw.starts_with(p)) && !raw.contains("::fmt") && !raw.contains("panick")
        }
        _ => false,
    }
}

impl<'tcx> Cx<'tcx> {
    fn id(&mut self, k: Key<'tcx>) -> usize {
        if let Some(i) = self.ids.get(&k) {
            return *i;
        }
        let i = self.ids.len();
        self.ids.insert(k, i);
        self.work.push((i, k));
        i
    }

    /// reference to a function given as (def, args): names, resolution, body id
    fn fn_ref(&mut self, def: DefId, args: GenericArgsRef<'tcx>) -> J {
        let tcx = self.tcx;
        let mut v: Vec<(&'static str, J)> = vec![
            ("name", s(nice_path(tcx, def))),
            ("raw", s(raw_path(tcx, def))),
            ("gargs", args_s(args)),
        ];
        v.push(("full", s(with_no_trimmed_paths!(tcx.def_path_str_with_args(def, args)))));
        if let Some(intr) = tcx.intrinsic(def) {
            v.push(("intrinsic", s(intr.name.as_str())));
            if let Some(t) = args.types().next() {
                v.push(("etab", self.enum_tab(t)));
            }
            return J::O(v);
        }
        if matches!(tcx.def_kind(def), DefKind::Fn | DefKind::AssocFn) {
            let sig = tcx.fn_sig(def).instantiate(tcx, args).skip_norm_wip().skip_binder();
            let m: Vec<J> = sig
                .inputs()
                .iter()
                .enumerate()
                .filter(|(_, t)| matches!(t.kind(), ty::Ref(_, _, m) if m.is_mut()))
                .map(|(k, _)| n(k))
                .collect();
            if !m.is_empty() {
                v.push(("muts", J::A(m)));
            }
        }
        if let DefKind::Ctor(of, _) = tcx.def_kind(def) {
            let vdef = tcx.parent(def);
            use rustc_hir::def::CtorOf;
            let (adt_def, vidx) = match of {
                CtorOf::Struct => (tcx.adt_def(vdef), rustc_abi::FIRST_VARIANT),
                CtorOf::Variant => {
                    let a = tcx.adt_def(tcx.parent(vdef));
                    (a, a.variant_index_with_id(vdef))
                }
            };
            v.push((
                "ctor",
                J::A(vec![
                    s(nice_path(tcx, adt_def.did())),
                    n(vidx.as_usize()),
                    s(adt_def.variant(vidx).name.as_str()),
                    J::B(adt_def.is_enum()),
                ]),
            ));
            return J::O(v);
        }
        let trait_m = tcx.trait_of_assoc(def);
        if let Some(t) = trait_m {
            v.push(("trait", s(nice_path(tcx, t))));
            v.push(("method", s(tcx.item_name(def).as_str())));
            let self_ty = args.type_at(0);
            v.push(("self_ty", s(ty_s(self_ty))));
            if matches!(
                tcx.lang_items().fn_trait(),
                Some(x) if x == t
            ) || tcx.lang_items().fn_mut_trait() == Some(t)
                || tcx.lang_items().fn_once_trait() == Some(t)
            {
                // resolve the callable statically
                let mut peel = 0;
                let mut ty = self_ty;
                while let ty::Ref(_, inner, _) = *ty.kind() {
                    ty = inner;
                    peel += 1;
                }
                match *ty.kind() {
                    ty::FnDef(d, a) => {
                        let a = a.no_bound_vars().unwrap();
                        let f = self.fn_ref(d, a);
                        v.push(("callable", J::A(vec![s("fndef"), n(peel), f])));
                        return J::O(v);
                    }
                    ty::Closure(d, a) => {
                        let f = self.closure_ref(d, a);
                        v.push(("callable", J::A(vec![s("closure"), n(peel), f])));
                        return J::O(v);
                    }
                    ty::FnPtr(..) => {
                        v.push(("callable", J::A(vec![s("fnptr"), n(peel)])));
                        return J::O(v);
                    }
                    _ => return J::O(v),
                }
            }
        }
        match Instance::try_resolve(tcx, self.env, def, args) {
            Ok(Some(inst)) => {
                v.push(("kind", s(kind_s(&inst.def))));
                if let InstanceKind::Item(d) = inst.def {
                    let raw = raw_path(tcx, d);
                    v.push(("rraw", s(raw.clone())));
                    v.push(("rname", s(nice_path(tcx, d))));
                    v.push(("rfull", s(with_no_trimmed_paths!(tcx.def_path_str_with_args(d, inst.args)))));
                    if let Some(intr) = tcx.intrinsic(d) {
                        v.push(("intrinsic", s(intr.name.as_str())));
                        return J::O(v);
                    }
                    if descend(tcx, &raw, d) && tcx.is_mir_available(d) {
                        let i = self.id(Key::Inst(inst));
                        v.push(("id", n(i)));
                    }
                } else if let InstanceKind::Shim(sh) = inst.def {
                    let dbg = format!("{:?}", sh);
                    if dbg.starts_with("Clone") {
                        v.push(("shim", s("clone")));
                    } else {
                        v.push(("shim", s(dbg)));
                    }
                }
            }
            Ok(None) => {
                v.push(("unresolved", J::B(true)));
            }
            Err(_) => {
                v.push(("unresolved", J::B(true)));
            }
        }
        J::O(v)
    }

    fn closure_ref(&mut self, d: DefId, a: GenericArgsRef<'tcx>) -> J {
        let tcx = self.tcx;
        let inst = Instance::new_raw(d, a);
        let raw = raw_path(tcx, d);
        let mut v: Vec<(&'static str, J)> = vec![
            ("name", s(nice_path(tcx, d))),
            ("raw", s(raw.clone())),
            ("closure", J::B(true)),
            ("span", s(span_str(tcx, tcx.def_span(d)))),
        ];
        if (d.is_local() || descend(tcx, &raw, d)) && tcx.is_mir_available(d) {
            let i = self.id(Key::Inst(inst));
            v.push(("id", n(i)));
        }
        J::O(v)
    }

    fn enum_tab(&self, t: Ty<'tcx>) -> J {
        if let ty::Adt(adt, _) = t.kind() {
            if adt.is_enum() {
                return J::A(
                    adt.discriminants(self.tcx)
                        .map(|(vi, d)| {
                            let bits = d.val;
                            J::A(vec![
                                s(adt.variant(vi).name.as_str()),
                                s(signed(bits, d.ty, self.tcx)),
                            ])
                        })
                        .collect(),
                );
            }
        }
        J::Null
    }

    fn place(&mut self, body: &Body<'tcx>, p: Place<'tcx>) -> J {
        let mut v = vec![n(p.local.as_usize())];
        for (base, e) in p.iter_projections() {
            v.push(match e {
                ProjectionElem::Deref => s("*"),
                ProjectionElem::Field(f, _) => {
                    let mut nm = J::Null;
                    let pt = base.ty(&body.local_decls, self.tcx);
                    if let ty::Adt(adt, _) = pt.ty.kind() {
                        let vi = pt.variant_index.unwrap_or(rustc_abi::FIRST_VARIANT);
                        if vi.as_usize() < adt.variants().len() {
                            nm = s(adt.variant(vi).fields[f].name.as_str());
                        }
                    }
                    J::A(vec![s("f"), n(f.as_usize()), nm])
                }
                ProjectionElem::Index(l) => J::A(vec![s("i"), n(l.as_usize())]),
                ProjectionElem::ConstantIndex { offset, from_end, min_length } => {
                    J::A(vec![s("ci"), n(offset), J::B(from_end), n(min_length)])
                }
                ProjectionElem::Subslice { from, to, from_end } => {
                    J::A(vec![s("ss"), n(from), n(to), J::B(from_end)])
                }
                ProjectionElem::Downcast(nm, vi) => {
                    let pt = base.ty(&body.local_decls, self.tcx);
                    let name = match nm {
                        Some(x) => x.to_string(),
                        None => match pt.ty.kind() {
                            ty::Adt(adt, _) => adt.variant(vi).name.to_string(),
                            _ => String::new(),
                        },
                    };
                    J::A(vec![s("v"), n(vi.as_usize()), s(name)])
                }
                _ => s("cast"),
            });
        }
        J::A(v)
    }

    fn constant(&mut self, c: &ConstOperand<'tcx>) -> J {
        let tcx = self.tcx;
        let t = c.const_.ty();
        let t = tcx.normalize_erasing_regions(self.env, ty::Unnormalized::new_wip(t));
        if let ty::FnDef(d, a) = *t.kind() {
            let a = a.no_bound_vars().unwrap();
            let f = self.fn_ref(d, a);
            return J::A(vec![s("fn"), f]);
        }
        // promoted and named constants
        if let Const::Unevaluated(u, _) = c.const_ {
            if let Some(p) = u.promoted {
                let i = self.id(Key::Promoted(u.def, u.args, p));
                return J::A(vec![s("body"), n(i)]);
            }
            if c.const_.eval(tcx, self.env, c.span).is_err() {
                let inst = Instance::try_resolve(tcx, self.env, u.def, u.args);
                if let Ok(Some(inst)) = inst {
                    let d = inst.def_id();
                    if d.is_local() || tcx.is_mir_available(d) {
                        let i = self.id(Key::CtfeConst(d, inst.args));
                        return J::A(vec![s("body"), n(i)]);
                    }
                }
                return J::A(vec![s("sym"), s(with_no_trimmed_paths!(format!("{}", c.const_))), s(ty_s(t))]);
            }
        }
        if let Const::Ty(_, ct) = c.const_ {
            if let ty::ConstKind::Param(p) = ct.kind() {
                return J::A(vec![s("sym"), s(p.name.as_str()), s(ty_s(t))]);
            }
        }
        let val = match c.const_.eval(tcx, self.env, c.span) {
            Ok(v) => v,
            Err(_) => {
                return J::A(vec![s("sym"), s(with_no_trimmed_paths!(format!("{}", c.const_))), s(ty_s(t))])
            }
        };
        self.const_value(val, t)
    }

    fn const_value(&mut self, val: ConstValue, t: Ty<'tcx>) -> J {
        let tcx = self.tcx;
        match val {
            ConstValue::ZeroSized => {
                if let ty::Closure(d, a) = *t.kind() {
                    let f = self.closure_ref(d, a);
                    return J::A(vec![s("closure"), f]);
                }
                if let ty::Adt(adt, _) = t.kind() {
                    if adt.is_enum() && adt.variants().len() == 1 {
                        return J::A(vec![
                            s("adt"),
                            s(nice_path(tcx, adt.did())),
                            n(0),
                            s(adt.variants()[rustc_abi::FIRST_VARIANT].name.as_str()),
                        ]);
                    }
                }
                J::A(vec![s("zst"), s(ty_s(t))])
            }
            ConstValue::Scalar(Scalar::Int(i)) => {
                let bits = i.to_bits(i.size());
                match t.kind() {
                    ty::Bool => J::A(vec![s("bool"), J::B(bits != 0)]),
                    ty::Char => J::A(vec![s("int"), s(bits.to_string()), s("char")]),
                    ty::Int(_) | ty::Uint(_) => {
                        J::A(vec![s("int"), s(signed(bits, t, tcx)), s(ty_s(t))])
                    }
                    ty::Adt(adt, _) if adt.is_enum() => {
                        for (vi, d) in adt.discriminants(tcx) {
                            let sz = i.size();
                            if sz.truncate(d.val) == bits && adt.variant(vi).fields.is_empty() {
                                return J::A(vec![
                                    s("adt"),
                                    s(nice_path(tcx, adt.did())),
                                    n(vi.as_usize()),
                                    s(adt.variant(vi).name.as_str()),
                                ]);
                            }
                        }
                        J::A(vec![s("sym"), s(format!("{:?}", i)), s(ty_s(t))])
                    }
                    _ => J::A(vec![s("sym"), s(format!("{:?}", i)), s(ty_s(t))]),
                }
            }
            ConstValue::Scalar(Scalar::Ptr(p, _)) => {
                let (prov, off) = p.prov_and_relative_offset();
                let aid = prov.alloc_id();
                match tcx.global_alloc(aid) {
                    GlobalAlloc::Static(d) => J::A(vec![s("static"), s(raw_path(tcx, d))]),
                    GlobalAlloc::Memory(m) => {
                        if let ty::Ref(_, inner, _) = t.kind() {
                            if let ty::Array(el, _) = inner.kind() {
                                if *el == tcx.types.u8 {
                                    let a = m.inner();
                                    let start = off.bytes_usize();
                                    let b = a.inspect_with_uninit_and_ptr_outside_interpreter(start..a.len());
                                    return J::A(vec![s("bytes"), s(hex(b)), s("array")]);
                                }
                            }
                        }
                        J::A(vec![s("sym"), s(format!("ptr:{:?}", m.inner().inspect_with_uninit_and_ptr_outside_interpreter(0..m.inner().len()))), s(ty_s(t))])
                    }
                    GlobalAlloc::Function { instance } => {
                        let f = self.fn_ref(instance.def_id(), instance.args);
                        J::A(vec![s("fn"), f])
                    }
                    _ => J::A(vec![s("sym"), s("vtable"), s(ty_s(t))]),
                }
            }
            ConstValue::Slice { alloc_id, meta } => {
                let a = tcx.global_alloc(alloc_id).unwrap_memory();
                let a = a.inner();
                if let ty::Ref(_, inner, _) = t.kind() {
                    if inner.is_str() {
                        let b = a.inspect_with_uninit_and_ptr_outside_interpreter(0..meta as usize);
                        return J::A(vec![s("str"), s(String::from_utf8_lossy(b).to_string())]);
                    }
                    if let ty::Slice(el) = inner.kind() {
                        if *el == tcx.types.u8 {
                            let b = a.inspect_with_uninit_and_ptr_outside_interpreter(0..meta as usize);
                            return J::A(vec![s("bytes"), s(hex(b)), s("slice")]);
                        }
                    }
                }
                J::A(vec![s("sym"), s("slice-const"), s(ty_s(t))])
            }
            ConstValue::Indirect { .. } => {
                let ok = match t.kind() {
                    ty::Array(..) | ty::Tuple(_) => true,
                    ty::Adt(a, _) => !a.is_union(),
                    _ => false,
                };
                if ty_has_param(t) || !ok {
                    if let Some(j) = self.indirect_slice(val, t) {
                        return j;
                    }
                } else if let Some(dc) = tcx.try_destructure_mir_constant_for_user_output(val, t) {
                    let fields: Vec<J> = dc.fields.iter().map(|(v, ft)| self.const_value(*v, *ft)).collect();
                    match t.kind() {
                        ty::Adt(adt, _) => {
                            let vi = dc.variant.unwrap_or(rustc_abi::FIRST_VARIANT);
                            return J::A(vec![
                                s("adtv"),
                                s(nice_path(tcx, adt.did())),
                                n(vi.as_usize()),
                                s(adt.variant(vi).name.as_str()),
                                J::A(fields),
                                J::B(adt.is_enum()),
                            ]);
                        }
                        ty::Tuple(_) => return J::A(vec![s("tuplev"), J::A(fields)]),
                        ty::Array(..) => return J::A(vec![s("arrayv"), J::A(fields)]),
                        _ => {}
                    }
                }
                J::A(vec![s("sym"), s(with_no_trimmed_paths!(format!("{}", Const::Val(val, t)))), s(ty_s(t))])
            }
        }
    }

    /// a constant stored in memory whose type is `&[u8]` or `&str`: follow the fat pointer
    fn indirect_slice(&mut self, val: ConstValue, t: Ty<'tcx>) -> Option<J> {
        let tcx = self.tcx;
        let ConstValue::Indirect { alloc_id, offset } = val else { return None };
        let ty::Ref(_, inner, _) = *t.kind() else { return None };
        let str_ = inner.is_str();
        let u8s = matches!(inner.kind(), ty::Slice(el) if *el == tcx.types.u8);
        if !str_ && !u8s {
            return None;
        }
        let GlobalAlloc::Memory(m) = tcx.global_alloc(alloc_id) else { return None };
        let a = m.inner();
        let ps = tcx.data_layout.pointer_size();
        let p = a
            .read_scalar(&tcx, rustc_middle::mir::interpret::alloc_range(offset, ps), true)
            .ok()?;
        let l = a
            .read_scalar(&tcx, rustc_middle::mir::interpret::alloc_range(offset + ps, ps), false)
            .ok()?;
        let Scalar::Ptr(p, _) = p else { return None };
        let Scalar::Int(l) = l else { return None };
        let l = l.to_bits(l.size()) as usize;
        let (prov, off) = p.prov_and_relative_offset();
        let GlobalAlloc::Memory(m) = tcx.global_alloc(prov.alloc_id()) else { return None };
        let st = off.bytes_usize();
        let b = m.inner().inspect_with_uninit_and_ptr_outside_interpreter(st..st + l);
        if str_ {
            return Some(J::A(vec![s("str"), s(String::from_utf8_lossy(b).to_string())]));
        }
        Some(J::A(vec![s("bytes"), s(hex(b)), s("slice")]))
    }

    fn operand(&mut self, body: &Body<'tcx>, o: &Operand<'tcx>) -> J {
        match o {
            Operand::Copy(p) => J::A(vec![s("cp"), self.place(body, *p)]),
            Operand::Move(p) => J::A(vec![s("mv"), self.place(body, *p)]),
            Operand::Constant(c) => J::A(vec![s("k"), self.constant(c)]),
            Operand::RuntimeChecks(r) => {
                let b = match r {
                    RuntimeChecks::OverflowChecks => true,
                    _ => false,
                };
                J::A(vec![s("k"), J::A(vec![s("bool"), J::B(b)])])
            }
        }
    }

    fn rvalue(&mut self, body: &Body<'tcx>, r: &Rvalue<'tcx>) -> J {
        let tcx = self.tcx;
        match r {
            Rvalue::Use(o, _) => J::A(vec![s("use"), self.operand(body, o)]),
            Rvalue::Repeat(o, c) => {
                J::A(vec![s("repeat"), self.operand(body, o), s(with_no_trimmed_paths!(format!("{}", c)))])
            }
            Rvalue::Ref(_, k, p) => {
                let m = matches!(k, BorrowKind::Mut { .. });
                J::A(vec![s("ref"), J::B(m), self.place(body, *p)])
            }
            Rvalue::RawPtr(_, p) => J::A(vec![s("rawptr"), self.place(body, *p)]),
            Rvalue::Reborrow(_, m, p) => {
                J::A(vec![s("reborrow"), J::B(m.is_mut()), self.place(body, *p)])
            }
            Rvalue::ThreadLocalRef(d) => J::A(vec![s("tls"), s(raw_path(tcx, *d))]),
            Rvalue::Cast(k, o, t) => {
                let from = o.ty(&body.local_decls, tcx);
                let tab = self.enum_tab(from);
                J::A(vec![
                    s("cast"),
                    s(format!("{:?}", k)),
                    self.operand(body, o),
                    s(ty_s(from)),
                    s(ty_s(*t)),
                    tab,
                ])
            }
            Rvalue::BinaryOp(op, ab) => {
                let t = ab.0.ty(&body.local_decls, tcx);
                J::A(vec![
                    s("bin"),
                    s(format!("{:?}", op)),
                    self.operand(body, &ab.0),
                    self.operand(body, &ab.1),
                    s(ty_s(t)),
                ])
            }
            Rvalue::UnaryOp(op, a) => {
                let t = a.ty(&body.local_decls, tcx);
                J::A(vec![s("un"), s(format!("{:?}", op)), self.operand(body, a), s(ty_s(t))])
            }
            Rvalue::Discriminant(p) => {
                let t = p.ty(&body.local_decls, tcx).ty;
                J::A(vec![s("discr"), self.place(body, *p), self.enum_tab(t), s(ty_s(t))])
            }
            Rvalue::CopyForDeref(p) => J::A(vec![s("use"), J::A(vec![s("cp"), self.place(body, *p)])]),
            Rvalue::WrapUnsafeBinder(o, _) => J::A(vec![s("use"), self.operand(body, o)]),
            Rvalue::Aggregate(k, ops) => {
                let ops: Vec<J> = ops.iter().map(|o| self.operand(body, o)).collect();
                let ops = J::A(ops);
                match **k {
                    AggregateKind::Array(_) => J::A(vec![s("array"), ops]),
                    AggregateKind::Tuple => J::A(vec![s("tuple"), ops]),
                    AggregateKind::Adt(d, vi, _, _, active) => {
                        let adt = tcx.adt_def(d);
                        let names: Vec<J> =
                            adt.variant(vi).fields.iter().map(|f| s(f.name.as_str())).collect();
                        J::A(vec![
                            s("adt"),
                            s(nice_path(tcx, d)),
                            n(vi.as_usize()),
                            s(adt.variant(vi).name.as_str()),
                            J::B(adt.is_enum()),
                            ops,
                            J::A(names),
                            active.map(|f| n(f.as_usize())).unwrap_or(J::Null),
                        ])
                    }
                    AggregateKind::Closure(d, a) => {
                        let f = self.closure_ref(d, a);
                        J::A(vec![s("closure"), f, ops])
                    }
                    AggregateKind::RawPtr(..) => J::A(vec![s("rawptragg"), ops]),
                    _ => J::A(vec![s("unk"), s(format!("{:?}", k))]),
                }
            }
        }
    }

    fn body(&mut self, id: usize, key: Key<'tcx>) {
        let tcx = self.tcx;
        let (raw, name, def, body): (String, String, DefId, Body<'tcx>) = match key {
            Key::Inst(inst) => {
                let d = inst.def_id();
                let b = tcx.instance_mir(inst.def);
                let b = inst.instantiate_mir_and_normalize_erasing_regions(
                    tcx,
                    self.env,
                    EarlyBinder::bind(tcx, b.clone()),
                );
                let nm = if tcx.is_closure_like(d) {
                    nice_path(tcx, d)
                } else {
                    with_no_trimmed_paths!(tcx.def_path_str_with_args(d, inst.args))
                };
                (raw_path(tcx, d), nm, d, b)
            }
            Key::Promoted(d, a, p) => {
                let b = tcx.promoted_mir(d)[p].clone();
                let inst = Instance::new_raw(d, a);
                let b = inst.instantiate_mir_and_normalize_erasing_regions(
                    tcx,
                    self.env,
                    EarlyBinder::bind(tcx, b),
                );
                (format!("{}::promoted{}", raw_path(tcx, d), p.as_usize()), "promoted".into(), d, b)
            }
            Key::CtfeConst(d, a) => {
                let b = tcx.mir_for_ctfe(d).clone();
                let inst = Instance::new_raw(d, a);
                let b = inst.instantiate_mir_and_normalize_erasing_regions(
                    tcx,
                    self.env,
                    EarlyBinder::bind(tcx, b),
                );
                (raw_path(tcx, d), "const".into(), d, b)
            }
        };
        let locals: Vec<J> = body.local_decls.iter().map(|l| s(ty_s(l.ty))).collect();
        let mut blocks = vec![];
        for bb in body.basic_blocks.iter() {
            if bb.is_cleanup {
                blocks.push(J::Null);
                continue;
            }
            let mut st = vec![];
            for stmt in &bb.statements {
                match &stmt.kind {
                    StatementKind::Assign(pr) => {
                        let (p, r) = &**pr;
                        let rv = self.rvalue(&body, r);
                        st.push(J::A(vec![s("="), self.place(&body, *p), rv]));
                    }
                    StatementKind::SetDiscriminant { place, variant_index } => {
                        let t = place.ty(&body.local_decls, tcx).ty;
                        let nm = match t.kind() {
                            ty::Adt(a, _) => a.variant(*variant_index).name.to_string(),
                            _ => String::new(),
                        };
                        st.push(J::A(vec![s("sd"), self.place(&body, **place), n(variant_index.as_usize()), s(nm)]));
                    }
                    StatementKind::Intrinsic(i) => {
                        let i = format!("{:?}", i);
                        if !i.starts_with("assume") && !i.starts_with("Assume") {
                            st.push(J::A(vec![s("unk"), s(i)]));
                        }
                    }
                    _ => {}
                }
            }
            let term = bb.terminator();
            let sp = term.source_info.span;
            let t = match &term.kind {
                TerminatorKind::Goto { target, .. } => J::A(vec![s("goto"), n(target.as_usize())]),
                TerminatorKind::FalseEdge { real_target, .. }
                | TerminatorKind::FalseUnwind { real_target, .. } => {
                    J::A(vec![s("goto"), n(real_target.as_usize())])
                }
                TerminatorKind::Drop { place, target, .. } => {
                    let dt = place.ty(&body.local_decls, tcx).ty;
                    J::A(vec![s("drop"), n(target.as_usize()), self.place(&body, *place), s(ty_s(dt))])
                }
                TerminatorKind::Return => J::A(vec![s("ret")]),
                TerminatorKind::Unreachable => J::A(vec![s("unreachable")]),
                TerminatorKind::UnwindResume | TerminatorKind::UnwindTerminate(_) => {
                    J::A(vec![s("resume")])
                }
                TerminatorKind::SwitchInt { discr, targets } => {
                    let dt = discr.ty(&body.local_decls, tcx);
                    let arms: Vec<J> = targets
                        .iter()
                        .map(|(v, b)| J::A(vec![s(signed(v, dt, tcx)), n(b.as_usize())]))
                        .collect();
                    J::A(vec![
                        s("switch"),
                        self.operand(&body, discr),
                        J::A(arms),
                        n(targets.otherwise().as_usize()),
                        s(ty_s(dt)),
                    ])
                }
                TerminatorKind::Assert { cond, expected, msg, target, .. } => J::A(vec![
                    s("assert"),
                    self.operand(&body, cond),
                    J::B(*expected),
                    n(target.as_usize()),
                    s(assert_kind(msg)),
                    s(span_str(tcx, sp)),
                ]),
                TerminatorKind::Call { func, args, destination, target, .. } => {
                    let fty = func.ty(&body.local_decls, tcx);
                    let f = match *fty.kind() {
                        ty::FnDef(d, a) => {
                            let a = a.no_bound_vars().unwrap();
                            self.fn_ref(d, a)
                        }
                        _ => J::O(vec![("indirect", self.operand(&body, func))]),
                    };
                    let argv: Vec<J> = args.iter().map(|a| self.operand(&body, &a.node)).collect();
                    let dty = destination.ty(&body.local_decls, tcx).ty;
                    J::A(vec![
                        s("call"),
                        f,
                        J::A(argv),
                        self.place(&body, *destination),
                        target.map(|t| n(t.as_usize())).unwrap_or(J::Null),
                        s(span_str(tcx, sp)),
                        s(ty_s(dty)),
                        self.enum_tab(dty),
                    ])
                }
                other => J::A(vec![s("unk"), s(format!("{:?}", other))]),
            };
            blocks.push(J::A(vec![J::A(st), t]));
        }
        self.out.push(J::O(vec![
            ("id", n(id)),
            ("raw", s(raw)),
            ("name", s(name)),
            ("crate", s(tcx.crate_name(def.krate).as_str())),
            ("span", s(span_str(tcx, tcx.def_span(def)))),
            ("argc", n(body.arg_count)),
            ("spread", body.spread_arg.map(|l| n(l.as_usize())).unwrap_or(J::Null)),
            ("closure", J::B(matches!(key, Key::Inst(_)) && tcx.is_closure_like(def))),
            ("locals", J::A(locals)),
            ("blocks", J::A(blocks)),
        ]));
    }
}

fn assert_kind<'tcx>(m: &AssertMessage<'tcx>) -> String {
    match m {
        AssertKind::BoundsCheck { .. } => "bounds".into(),
        AssertKind::Overflow(op, ..) => format!("overflow-{:?}", op),
        AssertKind::OverflowNeg(_) => "overflow-Neg".into(),
        AssertKind::DivisionByZero(_) => "div-zero".into(),
        AssertKind::RemainderByZero(_) => "rem-zero".into(),
        _ => "other".into(),
    }
}

fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{:02x}", x)).collect()
}

fn signed<'tcx>(bits: u128, t: Ty<'tcx>, _tcx: TyCtxt<'tcx>) -> String {
    if let ty::Int(it) = t.kind() {
        let w = it.bit_width().unwrap_or(64) as u32;
        let sh = 128 - w;
        return (((bits << sh) as i128) >> sh).to_string();
    }
    if let ty::Uint(ut) = t.kind() {
        let w = ut.bit_width().unwrap_or(64) as u32;
        let sh = 128 - w;
        return ((bits << sh) >> sh).to_string();
    }
    bits.to_string()
}

fn kind_s(k: &InstanceKind<'_>) -> String {
    match k {
        InstanceKind::Item(_) => "item".into(),
        InstanceKind::Intrinsic(_) => "intrinsic".into(),
        InstanceKind::Virtual(..) => "virtual".into(),
        InstanceKind::Shim(_) => "shim".into(),
        _ => "other".into(),
    }
}

pub fn dump(tcx: TyCtxt<'_>) {
    let out = match std::env::var("ND_OUT") {
        Ok(o) => o,
        Err(_) => return,
    };
    if tcx.dcx().has_errors().is_some() {
        return;
    }
    let mut roots = vec![];
    let mut files = String::new();
    files.push_str("{\"groups\":[");
    for d in tcx.hir_body_owners() {
        if tcx.def_kind(d) != DefKind::Fn {
            continue;
        }
        let nm = tcx.item_name(d.to_def_id());
        let nm = nm.as_str();
        if nm.starts_with("im_") || nm.starts_with("rf_") {
            roots.push(d.to_def_id());
        }
    }
    // roots without type parameters share one context; generic roots get one each
    let (gen, mono): (Vec<_>, Vec<_>) = roots.into_iter().partition(|r| {
        let g = tcx.generics_of(*r);
        g.own_params.iter().any(|p| !matches!(p.kind, ty::GenericParamDefKind::Lifetime))
    });
    let mut groups: Vec<(Vec<DefId>, TypingEnv<'_>)> = vec![(mono, TypingEnv::fully_monomorphized())];
    for r in gen {
        groups.push((vec![r], TypingEnv::codegen(tcx, r)));
    }
    let mut first = true;
    for (rs, env) in groups {
        let mut cx = Cx { tcx, env, ids: Default::default(), work: vec![], out: vec![] };
        let mut rj = vec![];
        for r in rs {
            let args = ty::GenericArgs::identity_for_item(tcx, r);
            let args = tcx.erase_and_anonymize_regions(args);
            let id = cx.id(Key::Inst(Instance::new_raw(r, args)));
            rj.push(J::A(vec![
                s(tcx.item_name(r).as_str()),
                s(raw_path(tcx, r)),
                n(id),
                s(span_str(tcx, tcx.def_span(r))),
            ]));
        }
        while let Some((id, k)) = cx.work.pop() {
            cx.body(id, k);
        }
        if !first {
            files.push(',');
        }
        first = false;
        files.push('\n');
        J::O(vec![("roots", J::A(rj)), ("bodies", J::A(cx.out))]).write(&mut files);
    }
    files.push_str("]}");
    let path = format!("{}/{}.json", out, tcx.crate_name(rustc_hir::def_id::LOCAL_CRATE));
    std::fs::write(&path, files).expect("write dump");
}

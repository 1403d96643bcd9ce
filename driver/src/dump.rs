use std::collections::{BTreeMap, HashMap, HashSet, VecDeque};

use rustc_middle::ty::TyCtxt;
use rustc_public::{
    abi::{FieldsShape, TagEncoding, VariantsShape},
    crate_def::{CrateDef, CrateDefType},
    mir::{
        alloc::GlobalAlloc,
        mono::{Instance, InstanceKind},
        AggregateKind, Body, CastKind, ConstOperand, Mutability, Operand, Place, PointerCoercion, ProjectionElem,
        Rvalue, StatementKind, TerminatorKind,
    },
    rustc_internal,
    ty::{Allocation, ClosureKind, ConstantKind, GenericArgKind, MirConst, RigidTy, Span, Ty, TyKind},
    CrateItem,
};

use crate::json::J;

pub struct Cx<'tcx> {
    tcx: TyCtxt<'tcx>,
    types: BTreeMap<String, J>,
    seen_types: HashSet<String>,
    queue: VecDeque<Instance>,
    seen: HashSet<String>,
    externs: BTreeMap<String, J>,
    fns: Vec<(String, J)>,
    vtables: BTreeMap<String, J>,
    tykeys: HashMap<Ty, String>,
}

/// The library functions whose bodies are analysed like the crate's own rather than summarised.
const INLINE_PREFIXES: &[&str] = &[
    "core::option::",
    "core::result::",
    "core::bool::",
    "core::cmp::",
    "core::convert::",
    "core::ops::function::",
    "core::ops::control_flow::",
    "core::clone::",
    "core::default::",
    "core::array::equality",
    "core::ops::range::",
    "core::ops::Range",
    "core::ops::Bound",
    "core::char::methods::<impl char>::is_",
    "core::char::methods::<impl char>::to_digit",
    "core::char::methods::<impl char>::eq_ignore",
    "core::num::<impl u8>::is_ascii",
    "core::num::<impl u8>::to_ascii",
    "core::num::<impl u8>::eq_ignore",
];

/// Methods of generic implementations that are nothing but a forwarding call.
const INLINE_CONTAINS: &[&str] = &[
    " as std::convert::Into<",
    " as std::convert::From<",
    " as std::convert::TryFrom<",
    " as std::convert::TryInto<",
    "SpecArrayEq<",
];
const INLINE_EXACT: &[&str] = &["<I as std::iter::IntoIterator>::into_iter"];

pub fn dump(tcx: TyCtxt<'_>) -> String {
    let mut cx = Cx {
        tcx,
        types: BTreeMap::new(),
        seen_types: HashSet::new(),
        queue: VecDeque::new(),
        seen: HashSet::new(),
        externs: BTreeMap::new(),
        fns: Vec::new(),
        vtables: BTreeMap::new(),
        tykeys: HashMap::new(),
    };
    let mut roots = Vec::new();
    let entry = rustc_public::entry_fn();
    let mut statics = Vec::new();
    let mut generic = Vec::new();
    for item in rustc_public::all_local_items() {
        match item.kind() {
            rustc_public::ItemKind::Fn => {
                if let Ok(instance) = Instance::try_from(item) {
                    roots.push(J::from(cx.enqueue(instance)));
                } else if item.name().ends_with("::visit_str") {
                    generic.push(item);
                }
            }
            rustc_public::ItemKind::Static => {
                let id = rustc_internal::internal(tcx, item.def_id());
                statics.push(J::Map(vec![
                    ("name".into(), J::from(item.name())),
                    ("ty".into(), J::from(format!("{}", tcx.type_of(id).instantiate_identity().skip_norm_wip()))),
                    ("constant".into(), J::Bool(constant(tcx, id))),
                    ("loc".into(), cx.loc(item.span())),
                ]));
            }
            _ => {}
        }
    }
    let entry_name = entry.and_then(|e: CrateItem| Instance::try_from(e).ok()).map(|i| cx.enqueue(i));
    while let Some(instance) = cx.queue.pop_front() {
        cx.dump_fn(instance);
    }
    // The derived deserialisers' name tables, which only the configuration library instantiates
    let error = cx.tykeys.iter().find(|(_, k)| *k == "figment::Error").map(|(t, _)| *t);
    if let Some(error) = error {
        let error = rustc_internal::internal(tcx, error);
        for item in generic {
            let id = rustc_internal::internal(tcx, item.def_id());
            let args = rustc_middle::ty::GenericArgs::for_item(tcx, id, |p, _| match p.kind {
                rustc_middle::ty::GenericParamDefKind::Lifetime => tcx.lifetimes.re_erased.into(),
                _ => error.into(),
            });
            let env = rustc_middle::ty::TypingEnv::fully_monomorphized();
            if let Ok(Some(i)) = rustc_middle::ty::Instance::try_resolve(tcx, env, id, args) {
                let name = cx.enqueue(rustc_internal::stable(i));
                roots.push(J::from(name));
            }
        }
        while let Some(instance) = cx.queue.pop_front() {
            cx.dump_fn(instance);
        }
    }
    let unsafes = unsafe_blocks(tcx);
    let fns = std::mem::take(&mut cx.fns);
    let doc = J::Map(vec![
        ("entry".into(), J::from(entry_name)),
        ("roots".into(), J::Arr(roots)),
        ("statics".into(), J::Arr(statics)),
        ("unsafe".into(), J::Arr(unsafes)),
        ("fns".into(), J::Map(fns)),
        ("types".into(), J::Map(std::mem::take(&mut cx.types).into_iter().collect())),
        ("externs".into(), J::Map(std::mem::take(&mut cx.externs).into_iter().collect())),
        ("vtables".into(), J::Map(std::mem::take(&mut cx.vtables).into_iter().collect())),
    ]);
    let mut out = String::new();
    doc.write(&mut out);
    out
}

/// Whether a static can never change.
fn constant(tcx: TyCtxt<'_>, id: rustc_span::def_id::DefId) -> bool {
    let env = rustc_middle::ty::TypingEnv::fully_monomorphized();
    let ty = tcx.type_of(id).instantiate_identity().skip_norm_wip();
    tcx.static_mutability(id) == Some(rustc_hir::Mutability::Not) && ty.is_freeze(tcx, env)
}

/// Every `unsafe` block or function that the crate's author wrote.
fn unsafe_blocks(tcx: TyCtxt<'_>) -> Vec<J> {
    use rustc_hir::{intravisit, intravisit::Visitor};
    struct V<'tcx> {
        tcx: TyCtxt<'tcx>,
        out: Vec<J>,
    }
    impl<'tcx> Visitor<'tcx> for V<'tcx> {
        type NestedFilter = rustc_middle::hir::nested_filter::All;

        fn maybe_tcx(&mut self) -> TyCtxt<'tcx> {
            self.tcx
        }

        fn visit_block(&mut self, b: &'tcx rustc_hir::Block<'tcx>) {
            if let rustc_hir::BlockCheckMode::UnsafeBlock(rustc_hir::UnsafeSource::UserProvided) = b.rules {
                // Blocks that come out of another crate's macro (such as `format_args!`) aren't the author's
                let local = b.span.ctxt().outer_expn_data().macro_def_id.is_none_or(|d| d.is_local());
                if local {
                    self.out.push(J::from(format!("{:?}", b.span)));
                }
            }
            intravisit::walk_block(self, b);
        }

        fn visit_fn(
            &mut self,
            fk: intravisit::FnKind<'tcx>,
            fd: &'tcx rustc_hir::FnDecl<'tcx>,
            b: rustc_hir::BodyId,
            span: rustc_span::Span,
            id: rustc_span::def_id::LocalDefId,
        ) {
            if let Some(h) = fk.header() {
                if !h.is_safe() {
                    self.out.push(J::from(format!("{:?}", span)));
                }
            }
            intravisit::walk_fn(self, fk, fd, b, id);
        }
    }
    let mut v = V { tcx, out: vec![] };
    tcx.hir_walk_toplevel_module(&mut v);
    v.out
}

impl<'tcx> Cx<'tcx> {
    fn loc(&self, span: Span) -> J {
        let l = span.get_lines();
        J::Str(format!("{}:{}", span.get_filename(), l.start_line))
    }

    fn fn_name(&self, instance: &Instance) -> String {
        let i = rustc_internal::internal(self.tcx, *instance);
        let base = rustc_middle::ty::print::with_no_trimmed_paths!(self.tcx.def_path_str_with_args(i.def_id(), i.args));
        let kind = match i.def {
            rustc_middle::ty::InstanceKind::Item(_) | rustc_middle::ty::InstanceKind::Intrinsic(_) => String::new(),
            rustc_middle::ty::InstanceKind::Virtual(_, n) => format!("#virtual{n}"),
            other => {
                let s = format!("{other:?}");
                let s = s.split(['(', ' ', '{']).take(2).collect::<Vec<_>>().join("");
                let extra = match other {
                    rustc_middle::ty::InstanceKind::Shim(rustc_middle::ty::ShimKind::DropGlue(_, Some(t))) => format!("<{t}>"),
                    rustc_middle::ty::InstanceKind::Shim(rustc_middle::ty::ShimKind::Clone(_, t)) => format!("<{t}>"),
                    rustc_middle::ty::InstanceKind::Shim(rustc_middle::ty::ShimKind::FnPtr(_, t)) => format!("<{t}>"),
                    _ => String::new(),
                };
                format!("#{s}{extra}")
            }
        };
        format!("{base}{kind}")
    }

    fn generic_path(&self, instance: &Instance) -> String {
        let i = rustc_internal::internal(self.tcx, *instance);
        rustc_middle::ty::print::with_no_trimmed_paths!(self.tcx.def_path_str(i.def_id()))
    }

    fn constant(&self, s: &rustc_public::mir::mono::StaticDef) -> bool {
        constant(self.tcx, rustc_internal::internal(self.tcx, s.def_id()))
    }

    fn is_local(&self, instance: &Instance) -> bool {
        rustc_internal::internal(self.tcx, *instance).def_id().is_local()
    }

    fn want_body(&self, instance: &Instance) -> bool {
        if matches!(instance.kind, InstanceKind::Virtual { .. } | InstanceKind::Intrinsic) {
            return false;
        }
        let i = rustc_internal::internal(self.tcx, *instance);
        match i.def {
            rustc_middle::ty::InstanceKind::Shim(rustc_middle::ty::ShimKind::DropGlue(..)) => return false,
            rustc_middle::ty::InstanceKind::Shim(rustc_middle::ty::ShimKind::Clone(..)) => return false,
            rustc_middle::ty::InstanceKind::Item(_) => {}
            // shims (closure FnOnce shims, fn pointer shims, reify shims)
            _ => return true,
        }
        if self.is_local(instance) {
            return true;
        }
        let p = self.generic_path(instance);
        if INLINE_EXACT.contains(&p.as_str()) || (p.starts_with("<T as ") && INLINE_CONTAINS.iter().any(|x| p.contains(x))) {
            return true;
        }
        let p = p.trim_start_matches('<');
        INLINE_PREFIXES.iter().any(|x| p.starts_with(x) || p.replacen("std::", "core::", 1).starts_with(x))
    }

    fn enqueue(&mut self, instance: Instance) -> String {
        let name = self.fn_name(&instance);
        if self.seen.insert(name.clone()) {
            if self.want_body(&instance) {
                self.queue.push_back(instance);
            } else {
                let i = rustc_internal::internal(self.tcx, instance);
                let caller = i.def.requires_caller_location(self.tcx);
                let path = self.generic_path(&instance);
                let doc_panics = self.doc_panics(i.def_id());
                let args = self.arg_tys(&instance);
                let local = self.is_local(&instance);
                self.externs.insert(
                    name.clone(),
                    J::Obj(vec![
                        ("path", J::from(path)),
                        ("track_caller", J::from(caller)),
                        ("doc_panics", J::from(doc_panics)),
                        ("generics", args),
                        ("local", J::from(local)),
                        ("kind", J::from(format!("{:?}", instance.kind))),
                    ]),
                );
            }
        }
        name
    }

    fn doc_panics(&self, def_id: rustc_span::def_id::DefId) -> bool {
        use rustc_ast::attr::AttributeExt;
        #[allow(deprecated)]
        self.tcx.get_all_attrs(def_id).iter().any(|a| a.doc_str().is_some_and(|d| d.as_str().contains("# Panics")))
    }

    fn arg_tys(&mut self, instance: &Instance) -> J {
        let mut v = Vec::new();
        for a in instance.args().0 {
            match a {
                GenericArgKind::Type(t) => v.push(J::from(self.ty(t))),
                GenericArgKind::Const(c) => v.push(J::from(format!("const {c:?}"))),
                GenericArgKind::Lifetime(_) => {}
            }
        }
        J::Arr(v)
    }

    fn ty(&mut self, t: Ty) -> String {
        if let Some(k) = self.tykeys.get(&t) {
            return k.clone();
        }
        let internal = rustc_internal::internal(self.tcx, t);
        let internal = self.tcx.erase_and_anonymize_regions(internal);
        let key = rustc_middle::ty::print::with_no_trimmed_paths!(format!("{internal}"));
        self.tykeys.insert(t, key.clone());
        if !self.seen_types.insert(key.clone()) {
            return key;
        }
        let desc = match t.kind() {
            TyKind::RigidTy(r) => self.rigid(t, r),
            other => J::Obj(vec![("k", J::from("other")), ("d", J::from(format!("{other:?}")))]),
        };
        self.types.insert(key.clone(), desc);
        key
    }

    fn rigid(&mut self, t: Ty, r: RigidTy) -> J {
        match r {
            RigidTy::Bool => J::Obj(vec![("k", "bool".into())]),
            RigidTy::Char => J::Obj(vec![("k", "char".into())]),
            RigidTy::Int(i) => {
                J::Obj(vec![("k", "int".into()), ("bits", J::from(i.num_bytes() * 8)), ("signed", true.into())])
            }
            RigidTy::Uint(i) => {
                J::Obj(vec![("k", "int".into()), ("bits", J::from(i.num_bytes() * 8)), ("signed", false.into())])
            }
            RigidTy::Str => J::Obj(vec![("k", "str".into())]),
            RigidTy::Never => J::Obj(vec![("k", "never".into())]),
            RigidTy::Slice(e) => J::Obj(vec![("k", "slice".into()), ("e", self.ty(e).into())]),
            RigidTy::Array(e, n) => J::Obj(vec![
                ("k", "array".into()),
                ("e", self.ty(e).into()),
                ("n", J::from(n.eval_target_usize().ok())),
            ]),
            RigidTy::Ref(_, e, m) => J::Obj(vec![
                ("k", "ref".into()),
                ("e", self.ty(e).into()),
                ("mut", J::from(matches!(m, Mutability::Mut))),
            ]),
            RigidTy::RawPtr(e, m) => J::Obj(vec![
                ("k", "ptr".into()),
                ("e", self.ty(e).into()),
                ("mut", J::from(matches!(m, Mutability::Mut))),
            ]),
            RigidTy::Tuple(ts) => {
                let v = ts.into_iter().map(|x| J::from(self.ty(x))).collect::<Vec<_>>();
                J::Obj(vec![("k", "tuple".into()), ("e", J::Arr(v))])
            }
            RigidTy::Adt(def, args) => {
                let mut variants = Vec::new();
                for (i, v) in def.variants().into_iter().enumerate() {
                    let fields = v
                        .fields()
                        .into_iter()
                        .map(|f| {
                            let ft = f.ty_with_args(&args);
                            let ft = self.normalize(ft);
                            J::Arr(vec![J::from(f.name.to_string()), J::from(self.ty(ft))])
                        })
                        .collect::<Vec<_>>();
                    let discr = if def.kind() == rustc_public::ty::AdtKind::Enum {
                        J::Num(def.discriminant_for_variant(variant_idx(i)).val.to_string())
                    } else {
                        J::Null
                    };
                    variants.push(J::Obj(vec![
                        ("n", J::from(v.name().to_string())),
                        ("d", discr),
                        ("f", J::Arr(fields)),
                    ]));
                }
                let targs = args
                    .0
                    .iter()
                    .filter_map(|a| if let GenericArgKind::Type(t) = a { Some(J::from(self.ty(*t))) } else { None })
                    .collect::<Vec<_>>();
                let internal = rustc_internal::internal(self.tcx, t);
                let did = internal.ty_adt_def().map(|d| d.did());
                let path =
                    did.map(|d| rustc_middle::ty::print::with_no_trimmed_paths!(self.tcx.def_path_str(d))).unwrap_or_default();
                J::Obj(vec![
                    ("k", "adt".into()),
                    ("path", path.into()),
                    ("local", J::from(did.is_some_and(|d| d.is_local()))),
                    ("enum", J::from(def.kind() == rustc_public::ty::AdtKind::Enum)),
                    ("args", J::Arr(targs)),
                    ("v", J::Arr(variants)),
                ])
            }
            RigidTy::Closure(def, args) => {
                let internal = rustc_internal::internal(self.tcx, t);
                let mut ups = Vec::new();
                if let rustc_middle::ty::TyKind::Closure(_, a) = internal.kind() {
                    let tys = a.as_closure().upvar_tys().iter().collect::<Vec<_>>();
                    for u in tys {
                        ups.push(J::from(self.ty(rustc_internal::stable(u))));
                    }
                }
                let mut insts = Vec::new();
                if let Ok(inst) = Instance::resolve_closure(def, &args, ClosureKind::FnMut) {
                    let _ = inst;
                }
                let cname = rustc_middle::ty::print::with_no_trimmed_paths!(self
                    .tcx
                    .def_path_str(rustc_internal::internal(self.tcx, def.def_id())));
                let kind = match internal.kind() {
                    rustc_middle::ty::TyKind::Closure(_, a) => a.as_closure().kind_ty().to_opt_closure_kind(),
                    _ => None,
                };
                let ck = match kind {
                    Some(rustc_middle::ty::ClosureKind::Fn) => ClosureKind::Fn,
                    Some(rustc_middle::ty::ClosureKind::FnMut) => ClosureKind::FnMut,
                    _ => ClosureKind::FnOnce,
                };
                if let Ok(inst) = Instance::resolve_closure(def, &args, ck.clone()) {
                    insts.push(J::from(self.enqueue(inst)));
                }
                J::Obj(vec![
                    ("k", "closure".into()),
                    ("def", cname.into()),
                    ("kind", J::from(format!("{ck:?}"))),
                    ("ups", J::Arr(ups)),
                    ("fn", J::Arr(insts)),
                ])
            }
            RigidTy::FnDef(def, args) => {
                let mut v = vec![("k", "fndef".into())];
                if let Ok(inst) = Instance::resolve(def, &args) {
                    v.push(("fn", J::from(self.enqueue(inst))));
                }
                J::Obj(v)
            }
            RigidTy::FnPtr(_) => J::Obj(vec![("k", "fnptr".into())]),
            RigidTy::Dynamic(..) => {
                let internal = rustc_internal::internal(self.tcx, t);
                let tr = match internal.kind() {
                    rustc_middle::ty::TyKind::Dynamic(preds, ..) => preds
                        .principal_def_id()
                        .map(|d| rustc_middle::ty::print::with_no_trimmed_paths!(self.tcx.def_path_str(d)))
                        .unwrap_or_default(),
                    _ => String::new(),
                };
                J::Obj(vec![("k", "dyn".into()), ("tr", tr.into())])
            }
            other => {
                let s = format!("{other:?}");
                J::Obj(vec![("k", "other".into()), ("d", J::from(s.chars().take(60).collect::<String>()))])
            }
        }
    }

    fn normalize(&self, t: Ty) -> Ty {
        let i = rustc_internal::internal(self.tcx, t);
        let env = rustc_middle::ty::TypingEnv::fully_monomorphized();
        match self.tcx.try_normalize_erasing_regions(env, rustc_middle::ty::Unnormalized::new_wip(i)) {
            Ok(n) => rustc_internal::stable(n),
            Err(_) => t,
        }
    }

    fn dump_fn(&mut self, instance: Instance) {
        let name = self.fn_name(&instance);
        let Some(body) = instance.body() else {
            let path = self.generic_path(&instance);
            self.externs.insert(
                name,
                J::Obj(vec![
                    ("path", path.into()),
                    ("track_caller", J::from(false)),
                    ("doc_panics", J::from(false)),
                    ("generics", J::Arr(vec![])),
                    ("local", J::from(self.is_local(&instance))),
                    ("kind", "nobody".into()),
                ]),
            );
            return;
        };
        let j = self.body(&instance, &body);
        self.fns.push((name, j));
    }

    fn body(&mut self, instance: &Instance, body: &Body) -> J {
        let locals = body.locals().iter().map(|l| J::from(self.ty(l.ty))).collect::<Vec<_>>();
        let mut names = Vec::new();
        for v in &body.var_debug_info {
            if let rustc_public::mir::VarDebugInfoContents::Place(p) = &v.value {
                if p.projection.is_empty() {
                    names.push((p.local.to_string(), J::from(v.name.to_string())));
                }
            }
        }
        let blocks = body
            .blocks
            .iter()
            .map(|b| {
                let mut stmts = Vec::new();
                for s in &b.statements {
                    match &s.kind {
                        StatementKind::Assign(p, rv) => {
                            let p = self.place(p);
                            let rv = self.rvalue(rv, body);
                            let l = self.loc(s.source_info.span);
                            stmts.push(J::Arr(vec!["=".into(), p, rv, l]));
                        }
                        StatementKind::SetDiscriminant { place, variant_index } => {
                            let p = self.place(place);
                            let idx = rustc_internal::internal(self.tcx, *variant_index).as_usize();
                            stmts.push(J::Arr(vec!["discr".into(), p, J::from(idx)]));
                        }
                        StatementKind::Intrinsic(i) => {
                            stmts.push(J::Arr(vec!["intrinsic".into(), J::from(format!("{i:?}"))]));
                        }
                        _ => {}
                    }
                }
                let t = self.term(&b.terminator.kind, body);
                let l = self.loc(b.terminator.source_info.span);
                J::Arr(vec![J::Arr(stmts), t, l])
            })
            .collect::<Vec<_>>();
        let path = self.generic_path(instance);
        let args = self.arg_tys(instance);
        let i = rustc_internal::internal(self.tcx, *instance);
        let caller = i.def.requires_caller_location(self.tcx);
        let kind = format!("{:?}", instance.kind);
        let spread = {
            let ib = self.tcx.instance_mir(i.def);
            ib.spread_arg.map(|l| l.as_usize())
        };
        J::Obj(vec![
            ("path", path.into()),
            ("local", J::from(self.is_local(instance))),
            ("kind", kind.into()),
            ("loc", self.loc(body.span)),
            ("argc", J::from(body.arg_locals().len())),
            ("spread", J::from(spread)),
            ("generics", args),
            ("track_caller", J::from(caller)),
            ("locals", J::Arr(locals)),
            ("names", J::Map(names)),
            ("blocks", J::Arr(blocks)),
        ])
    }

    fn place(&mut self, p: &Place) -> J {
        let mut v = vec![J::from(p.local)];
        for e in &p.projection {
            v.push(match e {
                ProjectionElem::Deref => "*".into(),
                ProjectionElem::Field(i, t) => J::Arr(vec!["f".into(), J::from(*i), J::from(self.ty(*t))]),
                ProjectionElem::Index(l) => J::Arr(vec!["i".into(), J::from(*l)]),
                ProjectionElem::ConstantIndex { offset, min_length, from_end } => J::Arr(vec![
                    "ci".into(),
                    J::from(*offset),
                    J::from(*min_length),
                    J::from(*from_end),
                ]),
                ProjectionElem::Subslice { from, to, from_end } => {
                    J::Arr(vec!["sub".into(), J::from(*from), J::from(*to), J::from(*from_end)])
                }
                ProjectionElem::Downcast(i) => {
                    let i = rustc_internal::internal(self.tcx, *i).as_usize();
                    J::Arr(vec!["v".into(), J::from(i)])
                }
                other => J::Arr(vec!["?".into(), J::from(format!("{other:?}"))]),
            });
        }
        J::Arr(v)
    }

    fn operand(&mut self, o: &Operand) -> J {
        match o {
            Operand::Copy(p) => J::Arr(vec!["c".into(), self.place(p)]),
            Operand::Move(p) => J::Arr(vec!["m".into(), self.place(p)]),
            Operand::Constant(c) => self.const_operand(c),
            other => J::Arr(vec!["?".into(), J::from(format!("{other:?}"))]),
        }
    }

    fn const_operand(&mut self, c: &ConstOperand) -> J {
        self.mirconst(&c.const_)
    }

    fn mirconst(&mut self, c: &MirConst) -> J {
        let t = c.ty();
        let tk = self.ty(t);
        let v = match c.kind() {
            ConstantKind::ZeroSized => J::Arr(vec!["zst".into()]),
            ConstantKind::Allocated(a) => self.alloc_value(a, 0, t, 0),
            ConstantKind::Ty(tc) => match tc.kind() {
                rustc_public::ty::TyConstKind::Value(vt, a) => self.alloc_value(a, 0, *vt, 0),
                rustc_public::ty::TyConstKind::ZSTValue(_) => J::Arr(vec!["zst".into()]),
                other => J::Arr(vec!["opaque".into(), J::from(format!("{other:?}"))]),
            },
            other => J::Arr(vec!["opaque".into(), J::from(format!("{other:?}"))]),
        };
        J::Arr(vec!["k".into(), J::from(tk), v])
    }

    fn read_uint(a: &Allocation, off: usize, size: usize) -> Option<u128> {
        let mut v: u128 = 0;
        for i in 0..size {
            let b = (*a.bytes.get(off + i)?)?;
            v |= u128::from(b) << (8 * i);
        }
        Some(v)
    }

    fn prov(a: &Allocation, off: usize) -> Option<rustc_public::mir::alloc::AllocId> {
        a.provenance.ptrs.iter().find(|(o, _)| *o == off).map(|(_, p)| p.0)
    }

    /// Decodes the value of type `t` at `off`.
    fn alloc_value(&mut self, a: &Allocation, off: usize, t: Ty, depth: usize) -> J {
        let opaque = |s: &str| J::Arr(vec!["opaque".into(), J::from(s)]);
        if depth > 12 {
            return opaque("deep");
        }
        let Ok(layout) = t.layout() else { return opaque("layout") };
        let shape = layout.shape();
        let size = shape.size.bytes();
        let TyKind::RigidTy(r) = t.kind() else { return opaque("type") };
        match r {
            RigidTy::Bool | RigidTy::Char | RigidTy::Uint(_) => match Self::read_uint(a, off, size) {
                Some(v) => J::Arr(vec!["int".into(), J::from(v)]),
                None => opaque("uninit"),
            },
            RigidTy::Int(_) => match Self::read_uint(a, off, size) {
                Some(v) => {
                    let bits = size * 8;
                    let sv = if bits < 128 && v >> (bits - 1) & 1 == 1 { v as i128 - (1i128 << bits) } else { v as i128 };
                    J::Arr(vec!["int".into(), J::from(sv)])
                }
                None => opaque("uninit"),
            },
            RigidTy::Ref(_, to, _) | RigidTy::RawPtr(to, _) => {
                let Some(id) = Self::prov(a, off) else { return opaque("nullptr") };
                let inner_off = Self::read_uint(a, off, 8).unwrap_or(0) as usize;
                let global = match GlobalAlloc::from(id) {
                    GlobalAlloc::Static(s) if self.constant(&s) => match s.eval_initializer() {
                        Ok(m) => GlobalAlloc::Memory(m),
                        Err(_) => GlobalAlloc::Static(s),
                    },
                    g => g,
                };
                match global {
                    GlobalAlloc::Memory(m) => match to.kind() {
                        TyKind::RigidTy(RigidTy::Str) => {
                            let n = Self::read_uint(a, off + 8, 8).unwrap_or(0) as usize;
                            let bytes: Vec<u8> =
                                m.bytes[inner_off..inner_off + n].iter().map(|b| b.unwrap_or(0)).collect();
                            J::Arr(vec!["str".into(), J::from(String::from_utf8_lossy(&bytes).to_string())])
                        }
                        TyKind::RigidTy(RigidTy::Slice(e)) => {
                            let n = Self::read_uint(a, off + 8, 8).unwrap_or(0) as usize;
                            let es = e.layout().map(|l| l.shape().size.bytes()).unwrap_or(0);
                            let v =
                                (0..n).map(|i| self.alloc_value(&m, inner_off + i * es, e, depth + 1)).collect::<Vec<_>>();
                            let ek = self.ty(e);
                            J::Arr(vec!["ref".into(), J::Arr(vec!["arr".into(), ek.into(), J::Arr(v)])])
                        }
                        TyKind::RigidTy(RigidTy::Dynamic(..)) => opaque("dyn"),
                        _ => {
                            let v = self.alloc_value(&m, inner_off, to, depth + 1);
                            J::Arr(vec!["ref".into(), v])
                        }
                    },
                    GlobalAlloc::Static(s) => J::Arr(vec!["static".into(), J::from(s.name())]),
                    GlobalAlloc::Function(i) => J::Arr(vec!["fn".into(), J::from(self.enqueue(i))]),
                    _ => opaque("alloc"),
                }
            }
            RigidTy::Array(e, n) => {
                let n = n.eval_target_usize().unwrap_or(0) as usize;
                let es = e.layout().map(|l| l.shape().size.bytes()).unwrap_or(0);
                let v = (0..n).map(|i| self.alloc_value(a, off + i * es, e, depth + 1)).collect::<Vec<_>>();
                let ek = self.ty(e);
                J::Arr(vec!["arr".into(), ek.into(), J::Arr(v)])
            }
            RigidTy::Tuple(ts) => {
                let FieldsShape::Arbitrary { offsets } = &shape.fields else {
                    return if ts.is_empty() { J::Arr(vec!["tup".into(), J::Arr(vec![])]) } else { opaque("tuple") };
                };
                let v = ts
                    .iter()
                    .enumerate()
                    .map(|(i, ft)| self.alloc_value(a, off + offsets[i].bytes(), *ft, depth + 1))
                    .collect::<Vec<_>>();
                J::Arr(vec!["tup".into(), J::Arr(v)])
            }
            RigidTy::Adt(def, args) => {
                let variants = def.variants();
                let is_enum = def.kind() == rustc_public::ty::AdtKind::Enum;
                if def.kind() == rustc_public::ty::AdtKind::Union {
                    return opaque("union");
                }
                let (vi, offsets) = match &shape.variants {
                    VariantsShape::Single { index } => {
                        let vi = rustc_internal::internal(self.tcx, *index).as_usize();
                        let offs = match &shape.fields {
                            FieldsShape::Arbitrary { offsets } => offsets.clone(),
                            _ => vec![],
                        };
                        (vi, offs)
                    }
                    VariantsShape::Multiple { tag, tag_encoding, tag_field, variants: vs } => {
                        let FieldsShape::Arbitrary { offsets } = &shape.fields else { return opaque("enum") };
                        let tag_off = off + offsets[*tag_field].bytes();
                        let tag_size = match tag {
                            rustc_public::abi::Scalar::Initialized { value, .. }
                            | rustc_public::abi::Scalar::Union { value } => match value {
                                rustc_public::abi::Primitive::Int { length, .. } => length.bits() / 8,
                                _ => 8,
                            },
                        };
                        let vi = match tag_encoding {
                            TagEncoding::Direct => {
                                let Some(tv) = Self::read_uint(a, tag_off, tag_size) else { return opaque("tag") };
                                let mask = if tag_size >= 16 { u128::MAX } else { (1u128 << (tag_size * 8)) - 1 };
                                (0..variants.len()).find(|i| {
                                    let d = def
                                        .discriminant_for_variant(variant_idx(*i))
                                        .val;
                                    d & mask == tv
                                })
                            }
                            TagEncoding::Niche { untagged_variant, niche_variants, niche_start } => {
                                let un = rustc_internal::internal(self.tcx, *untagged_variant).as_usize();
                                let start = rustc_internal::internal(self.tcx, *niche_variants.start()).as_usize();
                                let end = rustc_internal::internal(self.tcx, *niche_variants.end()).as_usize();
                                if Self::prov(a, tag_off).is_some() {
                                    Some(un)
                                } else {
                                    let Some(tv) = Self::read_uint(a, tag_off, tag_size) else { return opaque("tag") };
                                    let mask = if tag_size >= 16 { u128::MAX } else { (1u128 << (tag_size * 8)) - 1 };
                                    let rel = tv.wrapping_sub(*niche_start) & mask;
                                    if rel <= (end - start) as u128 {
                                        Some(start + rel as usize)
                                    } else {
                                        Some(un)
                                    }
                                }
                            }
                        };
                        let Some(vi) = vi else { return opaque("variant") };
                        let offs = vs[vi].offsets.clone();
                        (vi, offs)
                    }
                    _ => return opaque("empty"),
                };
                let mut fields = Vec::new();
                for (i, f) in variants[vi].fields().into_iter().enumerate() {
                    let ft = self.normalize(f.ty_with_args(&args));
                    let fo = offsets.get(i).map(|o| o.bytes()).unwrap_or(0);
                    fields.push(self.alloc_value(a, off + fo, ft, depth + 1));
                }
                let tk = self.ty(t);
                let _ = is_enum;
                J::Arr(vec!["adt".into(), tk.into(), J::from(vi), J::Arr(fields)])
            }
            RigidTy::FnDef(..) | RigidTy::Closure(..) => {
                self.ty(t);
                J::Arr(vec!["zst".into()])
            }
            RigidTy::FnPtr(_) => match Self::prov(a, off).map(GlobalAlloc::from) {
                Some(GlobalAlloc::Function(i)) => J::Arr(vec!["fn".into(), J::from(self.enqueue(i))]),
                _ => opaque("fnptr"),
            },
            _ => opaque("kind"),
        }
    }

    fn rvalue(&mut self, rv: &Rvalue, body: &Body) -> J {
        match rv {
            Rvalue::Use(o, ..) => J::Arr(vec!["use".into(), self.operand(o)]),
            Rvalue::Repeat(o, n) => {
                J::Arr(vec!["rep".into(), self.operand(o), J::from(n.eval_target_usize().ok())])
            }
            Rvalue::Ref(_, k, p) => {
                let m = !matches!(k, rustc_public::mir::BorrowKind::Shared);
                J::Arr(vec!["ref".into(), self.place(p), J::from(m)])
            }
            Rvalue::AddressOf(_, p) => J::Arr(vec!["addr".into(), self.place(p)]),
            Rvalue::Len(p) => J::Arr(vec!["len".into(), self.place(p)]),
            Rvalue::Cast(k, o, t) => {
                let from = o.ty(body.locals()).ok();
                let ft = from.map(|f| self.ty(f)).unwrap_or_default();
                if let CastKind::PointerCoercion(PointerCoercion::Unsize) = k {
                    if let Some(f) = from {
                        self.unsize(f, *t);
                    }
                }
                if let CastKind::PointerCoercion(PointerCoercion::ReifyFnPointer(..) | PointerCoercion::ClosureFnPointer(_)) = k {
                    if let Some(f) = from {
                        if let TyKind::RigidTy(RigidTy::FnDef(def, args)) = f.kind() {
                            if let Ok(i) = Instance::resolve(def, &args) {
                                self.enqueue(i);
                            }
                        }
                    }
                }
                let tk = self.ty(*t);
                J::Arr(vec!["cast".into(), J::from(format!("{k:?}")), self.operand(o), ft.into(), tk.into()])
            }
            Rvalue::BinaryOp(op, a, b) => {
                J::Arr(vec!["bin".into(), J::from(format!("{op:?}")), self.operand(a), self.operand(b)])
            }
            Rvalue::CheckedBinaryOp(op, a, b) => {
                J::Arr(vec!["chk".into(), J::from(format!("{op:?}")), self.operand(a), self.operand(b)])
            }
            Rvalue::UnaryOp(op, a) => J::Arr(vec!["un".into(), J::from(format!("{op:?}")), self.operand(a)]),
            Rvalue::Discriminant(p) => J::Arr(vec!["discr".into(), self.place(p)]),
            Rvalue::Aggregate(k, ops) => {
                let ops = ops.iter().map(|o| self.operand(o)).collect::<Vec<_>>();
                let kind = match k {
                    AggregateKind::Array(t) => J::Arr(vec!["array".into(), self.ty(*t).into()]),
                    AggregateKind::Tuple => J::Arr(vec!["tuple".into()]),
                    AggregateKind::Adt(def, v, args, _, _) => {
                        let t = def.ty_with_args(args);
                        let vi = rustc_internal::internal(self.tcx, *v).as_usize();
                        J::Arr(vec!["adt".into(), self.ty(t).into(), J::from(vi)])
                    }
                    AggregateKind::Closure(def, args) => {
                        let t = Ty::new_closure(*def, args.clone());
                        J::Arr(vec!["closure".into(), self.ty(t).into()])
                    }
                    other => J::Arr(vec!["?".into(), J::from(format!("{other:?}"))]),
                };
                J::Arr(vec!["agg".into(), kind, J::Arr(ops)])
            }
            Rvalue::CopyForDeref(p) => J::Arr(vec!["use".into(), J::Arr(vec!["c".into(), self.place(p)])]),
            other => J::Arr(vec!["?".into(), J::from(format!("{other:?}"))]),
        }
    }

    /// Records which methods an unsized `dyn Trait` object made from `from` would dispatch to.
    fn unsize(&mut self, from: Ty, to: Ty) {
        let env = rustc_middle::ty::TypingEnv::fully_monomorphized();
        let f = rustc_internal::internal(self.tcx, from);
        let t = rustc_internal::internal(self.tcx, to);
        let pointee = |x: rustc_middle::ty::Ty<'tcx>| x.builtin_deref(true).or_else(|| x.boxed_ty());
        let (Some(fi), Some(ti)) = (pointee(f), pointee(t)) else { return };
        let (fi, ti) = self.tcx.struct_lockstep_tails_for_codegen(fi, ti, env);
        let rustc_middle::ty::TyKind::Dynamic(preds, ..) = ti.kind() else { return };
        let Some(principal) = preds.principal() else { return };
        let trait_ref = self.tcx.erase_and_anonymize_regions(principal.with_self_ty(self.tcx, fi));
        let Some(tr) = trait_ref.no_bound_vars() else { return };
        let entries = self.tcx.vtable_entries(rustc_middle::ty::TraitRef::new(self.tcx, tr.def_id, tr.args));
        let mut v = Vec::new();
        for (i, e) in entries.iter().enumerate() {
            if let rustc_middle::ty::VtblEntry::Method(inst) = e {
                let s: Instance = rustc_internal::stable(*inst);
                let n = self.enqueue(s);
                v.push((i.to_string(), J::from(n)));
            }
        }
        let trait_name = rustc_middle::ty::print::with_no_trimmed_paths!(self.tcx.def_path_str(principal.def_id()));
        let ty_key = self.ty(rustc_internal::stable(fi));
        self.vtables.insert(format!("{trait_name}|{ty_key}"), J::Map(v));
    }

    fn term(&mut self, t: &TerminatorKind, body: &Body) -> J {
        match t {
            TerminatorKind::Goto { target } => J::Arr(vec!["goto".into(), J::from(*target)]),
            TerminatorKind::SwitchInt { discr, targets } => {
                let br = targets.branches().map(|(v, b)| J::Arr(vec![J::from(v), J::from(b)])).collect::<Vec<_>>();
                let dt = discr.ty(body.locals()).map(|t| self.ty(t)).unwrap_or_default();
                J::Arr(vec!["switch".into(), self.operand(discr), J::Arr(br), J::from(targets.otherwise()), dt.into()])
            }
            TerminatorKind::Return => J::Arr(vec!["return".into()]),
            TerminatorKind::Unreachable => J::Arr(vec!["unreachable".into()]),
            TerminatorKind::Resume => J::Arr(vec!["resume".into()]),
            TerminatorKind::Abort => J::Arr(vec!["abort".into()]),
            TerminatorKind::Drop { place, target, .. } => {
                J::Arr(vec!["drop".into(), self.place(place), J::from(*target)])
            }
            TerminatorKind::Call { func, args, destination, target, .. } => {
                let fty = func.ty(body.locals()).ok();
                let callee = match fty.map(|t| t.kind()) {
                    Some(TyKind::RigidTy(RigidTy::FnDef(def, a))) => match Instance::resolve(def, &a) {
                        Ok(i) => {
                            let virt = if let InstanceKind::Virtual { idx } = i.kind { J::from(idx) } else { J::Null };
                            let n = self.enqueue(i);
                            let path = self.generic_path(&i);
                            let g = self.arg_tys(&i);
                            J::Obj(vec![("fn", n.into()), ("path", path.into()), ("g", g), ("virt", virt)])
                        }
                        Err(_) => J::Obj(vec![("fn", J::Null), ("path", J::from(def.name()))]),
                    },
                    _ => J::Obj(vec![("ptr", self.operand(func))]),
                };
                let ops = args.iter().map(|a| self.operand(a)).collect::<Vec<_>>();
                J::Arr(vec!["call".into(), callee, J::Arr(ops), self.place(destination), J::from(*target)])
            }
            TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                let m = format!("{msg:?}");
                let m = m.split(['(', ' ', '{']).next().unwrap_or("").to_string();
                J::Arr(vec!["assert".into(), self.operand(cond), J::from(*expected), J::from(m), J::from(*target)])
            }
            other => J::Arr(vec!["?".into(), J::from(format!("{other:?}"))]),
        }
    }
}

fn variant_idx(i: usize) -> rustc_public::ty::VariantIdx {
    rustc_internal::stable(rustc_abi::VariantIdx::from_usize(i))
}

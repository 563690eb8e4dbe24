use crate::json::J;
use rustc_middle::ty::TyCtxt;
use rustc_public::abi::{FieldsShape, TagEncoding, VariantsShape};
use rustc_public::crate_def::CrateDef;
use rustc_public::mir::alloc::GlobalAlloc;
use rustc_public::mir::mono::{Instance, InstanceKind, StaticDef};
use rustc_public::mir::*;
use rustc_public::ty::*;
use rustc_public::{CrateDefType, CrateItem, ItemKind};
use std::collections::{HashMap, VecDeque};

struct Cx<'tcx> {
    tcx: TyCtxt<'tcx>,
    local: Vec<String>,
    allow: Vec<String>,
    types: HashMap<Ty, usize>,
    type_out: Vec<J>,
    fns: HashMap<Instance, usize>,
    queue: VecDeque<Instance>,
    fn_out: Vec<J>,
    statics: HashMap<String, J>,
    static_seen: Vec<String>,
}

pub fn dump(tcx: TyCtxt<'_>, name: &str, out: &str) {
    // canonical definition paths everywhere
    let _g1 = rustc_middle::ty::print::NoVisibleGuard::new();
    let _g2 = rustc_middle::ty::print::CrateNamePrefixGuard::new();
    let _g3 = rustc_middle::ty::print::NoTrimmedGuard::new();
    let local = std::env::var("MIRFACTS_LOCAL").unwrap_or_default();
    let allow = std::env::var("MIRFACTS_ALLOW")
        .ok()
        .and_then(|f| std::fs::read_to_string(f).ok())
        .unwrap_or_default();
    let mut cx = Cx {
        tcx,
        local: local.split(',').map(|s| s.to_string()).collect(),
        allow: allow
            .lines()
            .map(|l| l.trim().to_string())
            .filter(|l| !l.is_empty() && !l.starts_with('#'))
            .collect(),
        types: HashMap::new(),
        type_out: vec![],
        fns: HashMap::new(),
        queue: VecDeque::new(),
        fn_out: vec![],
        statics: HashMap::new(),
        static_seen: vec![],
    };

    let mut items = vec![];
    for item in rustc_public::all_local_items() {
        let kind = match item.kind() {
            ItemKind::Fn => "fn",
            ItemKind::Static => "static",
            ItemKind::Const => "const",
            ItemKind::Ctor(_) => "ctor",
        };
        let mut o = vec![
            ("name", J::s(item.name())),
            ("kind", J::s(kind)),
            ("span", J::s(item.span().diagnostic())),
        ];
        match item.kind() {
            ItemKind::Fn => {
                if !item.requires_monomorphization() {
                    if let Ok(inst) = Instance::try_from(item) {
                        o.push(("fn", J::n(cx.func(inst))));
                    }
                }
            }
            ItemKind::Static => {
                if let Ok(sd) = StaticDef::try_from(item) {
                    cx.static_(sd);
                    o.push(("static", J::s(sd.name())));
                }
            }
            ItemKind::Const => {
                if !item.requires_monomorphization() {
                    o.push(("ty", J::n(cx.ty(item.ty()))));
                    if let Some(v) = cx.const_item(item) {
                        o.push(("value", v));
                    }
                }
            }
            _ => {}
        }
        items.push(J::obj(o));
    }

    while let Some(inst) = cx.queue.pop_front() {
        let j = cx.func_body(inst);
        let id = cx.fns[&inst];
        while cx.fn_out.len() <= id {
            cx.fn_out.push(J::Null);
        }
        cx.fn_out[id] = j;
    }

    let mut statics: Vec<_> = cx.statics.into_iter().collect();
    statics.sort_by(|a, b| a.0.cmp(&b.0));
    let j = J::Obj(vec![
        ("crate".into(), J::s(name)),
        ("items".into(), J::Arr(items)),
        ("types".into(), J::Arr(cx.type_out)),
        ("fns".into(), J::Arr(cx.fn_out)),
        ("statics".into(), J::Obj(statics)),
    ]);
    let mut s = String::new();
    j.write(&mut s);
    let path = format!("{}/{}.json", out, name);
    std::fs::write(&path, s).expect("write facts");
}

fn hex(b: &[Option<u8>]) -> Option<String> {
    let mut s = String::new();
    for x in b {
        s.push_str(&format!("{:02x}", (*x)?));
    }
    Some(s)
}

impl<'tcx> Cx<'tcx> {
    fn const_item(&mut self, item: CrateItem) -> Option<J> {
        let did = rustc_public::rustc_internal::internal(self.tcx, item.def_id());
        let v = self.tcx.const_eval_poly(did).ok()?;
        let ty = self.tcx.type_of(did).instantiate_identity().skip_norm_wip();
        let c = rustc_middle::mir::Const::Val(v, ty);
        let c = rustc_public::rustc_internal::stable(c);
        Some(self.mconst(&c))
    }

    fn static_(&mut self, sd: StaticDef) {
        let name = sd.name().to_string();
        if self.static_seen.contains(&name) {
            return;
        }
        self.static_seen.push(name.clone());
        let did = rustc_public::rustc_internal::internal(self.tcx, sd.def_id());
        let ty = sd.ty();
        let krate = sd.krate().name.to_string();
        let mut o = vec![
            ("ty", J::n(self.ty(ty))),
            ("crate", J::s(krate.clone())),
            ("span", J::s(sd.span().diagnostic())),
            ("mut", J::Bool(self.tcx.is_mutable_static(did))),
            ("no_mangle", J::Bool(self.tcx.codegen_fn_attrs(did).contains_extern_indicator())),
        ];
        if self.tcx.is_foreign_item(did) {
            o.push(("foreign", J::Bool(true)));
        } else if let Ok(a) = sd.eval_initializer() {
            let v = self.decode(ty, &a, 0, 0);
            o.push(("init", v));
        }
        self.statics.insert(name, J::obj(o));
    }

    fn ty(&mut self, ty: Ty) -> usize {
        // signatures are looked at without their binder: erase every region
        let t = rustc_public::rustc_internal::internal(self.tcx, ty);
        let tcx = self.tcx;
        let t = rustc_middle::ty::fold_regions(tcx, t, |_, _| tcx.lifetimes.re_erased);
        let ty: Ty = rustc_public::rustc_internal::stable(t);
        if let Some(i) = self.types.get(&ty) {
            return *i;
        }
        let id = self.type_out.len();
        self.types.insert(ty, id);
        self.type_out.push(J::Null);
        let mut o: Vec<(&str, J)> = vec![("s", J::s(format!("{}", ty)))];
        match ty.kind() {
            TyKind::RigidTy(r) => match r {
                RigidTy::Bool => o.push(("k", J::s("bool"))),
                RigidTy::Char => o.push(("k", J::s("char"))),
                RigidTy::Int(i) => {
                    o.push(("k", J::s("int")));
                    o.push(("bits", J::n(i.num_bytes() * 8)));
                }
                RigidTy::Uint(i) => {
                    o.push(("k", J::s("uint")));
                    o.push(("bits", J::n(i.num_bytes() * 8)));
                }
                RigidTy::Float(_) => o.push(("k", J::s("float"))),
                RigidTy::Str => o.push(("k", J::s("str"))),
                RigidTy::Never => o.push(("k", J::s("never"))),
                RigidTy::Foreign(_) => o.push(("k", J::s("foreign"))),
                RigidTy::Array(t, n) => {
                    o.push(("k", J::s("array")));
                    o.push(("elem", J::n(self.ty(t))));
                    if let Ok(n) = n.eval_target_usize() {
                        o.push(("len", J::n(n)));
                    }
                }
                RigidTy::Pat(t, _) => {
                    o.push(("k", J::s("pat")));
                    o.push(("elem", J::n(self.ty(t))));
                }
                RigidTy::Slice(t) => {
                    o.push(("k", J::s("slice")));
                    o.push(("elem", J::n(self.ty(t))));
                }
                RigidTy::RawPtr(t, m) => {
                    o.push(("k", J::s("ptr")));
                    o.push(("elem", J::n(self.ty(t))));
                    o.push(("mut", J::Bool(m == Mutability::Mut)));
                }
                RigidTy::Ref(_, t, m) => {
                    o.push(("k", J::s("ref")));
                    o.push(("elem", J::n(self.ty(t))));
                    o.push(("mut", J::Bool(m == Mutability::Mut)));
                }
                RigidTy::FnDef(def, args) => {
                    o.push(("k", J::s("fndef")));
                    o.push(("def", J::s(def.name())));
                    let f = Instance::resolve(def, &args).ok();
                    if let Some(f) = f {
                        o.push(("fn", J::n(self.func(f))));
                    }
                }
                RigidTy::FnPtr(sig) => {
                    o.push(("k", J::s("fnptr")));
                    let sig = sig.skip_binder();
                    o.push(("abi", J::s(format!("{:?}", sig.abi))));
                    o.push(("variadic", J::Bool(sig.c_variadic)));
                    let v: Vec<J> = sig.inputs_and_output.iter().map(|t| J::n(self.ty(*t))).collect();
                    o.push(("sig", J::Arr(v)));
                }
                RigidTy::Closure(def, args) => {
                    o.push(("k", J::s("closure")));
                    o.push(("def", J::s(def.name())));
                    o.push(("span", J::s(def.span().diagnostic())));
                    if let Ok(i) = Instance::resolve_closure(def, &args, ClosureKind::FnOnce) {
                        o.push(("once", J::n(self.func(i))));
                    }
                    let it = rustc_public::rustc_internal::internal(self.tcx, ty);
                    if let rustc_middle::ty::TyKind::Closure(_, a) = it.kind() {
                        let ups: Vec<Ty> = a
                            .as_closure()
                            .upvar_tys()
                            .iter()
                            .map(|t| rustc_public::rustc_internal::stable(t))
                            .collect();
                        let v: Vec<J> = ups.into_iter().map(|t| J::n(self.ty(t))).collect();
                        o.push(("upvars", J::Arr(v)));
                    }
                }
                RigidTy::Dynamic(..) => o.push(("k", J::s("dyn"))),
                RigidTy::Tuple(ts) => {
                    o.push(("k", J::s("tuple")));
                    let v: Vec<J> = ts.iter().map(|t| J::n(self.ty(*t))).collect();
                    o.push(("fields", J::Arr(v)));
                }
                RigidTy::Adt(def, args) => {
                    o.push(("k", J::s("adt")));
                    o.push(("def", J::s(def.name())));
                    o.push(("crate", J::s(def.krate().name)));
                    o.push((
                        "akind",
                        J::s(match def.kind() {
                            AdtKind::Enum => "enum",
                            AdtKind::Union => "union",
                            AdtKind::Struct => "struct",
                        }),
                    ));
                    let targs: Vec<J> = args
                        .0
                        .iter()
                        .filter_map(|a| a.ty().copied())
                        .map(|t| J::n(self.ty(t)))
                        .collect();
                    o.push(("args", J::Arr(targs)));
                    let mut vs = vec![];
                    for v in def.variants() {
                        let mut fs = vec![];
                        for f in v.fields() {
                            let ft = f.ty_with_args(&args);
                            let ft = self.norm(ft);
                            fs.push(J::Arr(vec![J::s(f.name.to_string()), J::n(self.ty(ft))]));
                        }
                        let d = if def.kind() == AdtKind::Enum {
                            J::n(def.discriminant_for_variant(v.idx()).val)
                        } else {
                            J::Null
                        };
                        vs.push(J::obj(vec![
                            ("name", J::s(v.name())),
                            ("discr", d),
                            ("fields", J::Arr(fs)),
                        ]));
                    }
                    o.push(("variants", J::Arr(vs)));
                }
                _ => o.push(("k", J::s("other"))),
            },
            _ => o.push(("k", J::s("nonrigid"))),
        }
        if let Ok(l) = ty.layout() {
            let sh = l.shape();
            if sh.is_sized() {
                o.push(("size", J::n(sh.size.bytes())));
                o.push(("align", J::n(sh.abi_align)));
                if let FieldsShape::Arbitrary { offsets } = sh.fields {
                    o.push(("offsets", J::arr(offsets.iter().map(|x| J::n(x.bytes())))));
                }
            }
        }
        self.type_out[id] = J::obj(o);
        id
    }

    fn norm(&self, ty: Ty) -> Ty {
        let t = rustc_public::rustc_internal::internal(self.tcx, ty);
        let env = rustc_middle::ty::TypingEnv::fully_monomorphized();
        match self.tcx.try_normalize_erasing_regions(env, rustc_middle::ty::Unnormalized::new_wip(t)) {
            Ok(t) => rustc_public::rustc_internal::stable(t),
            Err(_) => ty,
        }
    }

    fn func(&mut self, inst: Instance) -> usize {
        if let Some(i) = self.fns.get(&inst) {
            return *i;
        }
        let id = self.fns.len();
        self.fns.insert(inst, id);
        self.queue.push_back(inst);
        id
    }

    fn func_body(&mut self, inst: Instance) -> J {
        let name = inst.name().to_string();
        let def = inst.def.name().to_string();
        let krate = inst.def.krate().name.to_string();
        let kind = match inst.kind {
            InstanceKind::Item => "item".to_string(),
            InstanceKind::Intrinsic => "intrinsic".to_string(),
            InstanceKind::LlvmIntrinsic => "intrinsic".to_string(),
            InstanceKind::Virtual { idx } => format!("virtual:{}", idx),
            InstanceKind::Shim => "shim".to_string(),
        };
        let islocal = self.local.iter().any(|l| *l == krate);
        let mut o = vec![
            ("name", J::s(name.clone())),
            ("def", J::s(def.clone())),
            ("crate", J::s(krate.clone())),
            ("kind", J::s(kind.clone())),
            ("local", J::Bool(islocal)),
        ];
        if let Some(i) = inst.intrinsic_name() {
            o.push(("intrinsic", J::s(i.to_string())));
        }
        let targs: Vec<J> = inst
            .args()
            .0
            .iter()
            .filter_map(|a| match a {
                GenericArgKind::Type(t) => Some(J::n(self.ty(*t))),
                _ => None,
            })
            .collect();
        o.push(("targs", J::Arr(targs)));
        if kind == "item" || kind == "intrinsic" {
            let did = rustc_public::rustc_internal::internal(self.tcx, inst.def.def_id());
            o.push(("foreign", J::Bool(self.tcx.is_foreign_item(did))));
        }
        if kind == "item" || kind == "intrinsic" || kind.starts_with("virtual") {
            for x in self.extra(inst) {
                o.push(x);
            }
        }
        let fty = inst.ty();
        if let Some(sig) = fty.kind().fn_sig() {
            let sig = sig.skip_binder();
            o.push(("abi", J::s(format!("{:?}", sig.abi))));
            let v: Vec<J> = sig
                .inputs_and_output
                .iter()
                .map(|t| {
                    let t = self.norm(*t);
                    J::n(self.ty(t))
                })
                .collect();
            o.push(("sig", J::Arr(v)));
        }
        let did = rustc_public::rustc_internal::internal(self.tcx, inst.def.def_id());
        let home = format!("{}{}", krate, self.tcx.def_path(did).to_string_no_crate_verbose());
        o.push(("home", J::s(home.clone())));
        let want = islocal
            || kind == "shim"
            || self.allow.iter().any(|p| home.starts_with(p.as_str()));
        if want && !kind.starts_with("virtual") && kind != "intrinsic" {
            if let Some(body) = inst.body() {
                o.push(("span", J::s(body.span.diagnostic())));
                let b = self.body(&body);
                o.push(("body", b));
            }
        }
        J::obj(o)
    }

    /// Trait and method of an associated function, and the instances an
    /// iterator consumer or `catch_unwind` calls on its generic argument.
    fn extra(&mut self, inst: Instance) -> Vec<(&'static str, J)> {
        use rustc_middle::ty as mty;
        let mut o = vec![];
        let tcx = self.tcx;
        let i = rustc_public::rustc_internal::internal(tcx, inst);
        let did = i.def_id();
        let mut trait_ = None;
        let mut on = None;
        if let Some(parent) = tcx.opt_parent(did) {
            let dk = tcx.def_kind(parent);
            let mut method = did;
            if dk == rustc_hir::def::DefKind::Trait {
                trait_ = Some(parent);
            } else if let rustc_hir::def::DefKind::Impl { of_trait } = dk {
                if of_trait {
                    trait_ = tcx.impl_opt_trait_id(parent);
                    if let Some(t) = tcx.trait_item_of(did) {
                        method = t;
                    }
                }
                let st = tcx.type_of(parent).instantiate(tcx, i.args).skip_norm_wip();
                let st: Ty = rustc_public::rustc_internal::stable(st);
                let st = self.norm(st);
                on = Some(rustc_public::rustc_internal::internal(tcx, st));
                o.push(("self", J::n(self.ty(st))));
            }
            if let Some(t) = trait_ {
                o.push(("trait", J::s(tcx.def_path_str(t))));
                if dk == rustc_hir::def::DefKind::Trait {
                    if let Some(st) = i.args.types().next() {
                        let st: Ty = rustc_public::rustc_internal::stable(st);
                        o.push(("self", J::n(self.ty(st))));
                    }
                }
            }
            if let Some(n) = tcx.opt_item_name(method) {
                o.push(("method", J::s(n.to_string())));
            }
        }
        let env = mty::TypingEnv::fully_monomorphized();
        let iter_trait = tcx.get_diagnostic_item(rustc_span::sym::Iterator);
        let into_trait = tcx.get_diagnostic_item(rustc_span::sym::IntoIterator);
        let find = |t: rustc_hir::def_id::DefId, n: &str| {
            tcx.associated_items(t).in_definition_order().find(|a| a.opt_name().map_or(false, |x| x.as_str() == n)).map(|a| a.def_id)
        };
        let path = tcx.def_path_str(did);
        // every type argument that is itself an iterator, or can be turned into one
        if let (Some(it), Some(into)) = (iter_trait, into_trait) {
            let interesting = path.contains("iter") || path.contains("Iter") || path.contains("xtend")
                || path.contains("HashSet") || path.contains("Vec");
            if interesting {
                let mut nexts = vec![];
                for a in i.args.types().chain(on) {
                    let mut rec = vec![];
                    if !Self::implements(tcx, into, a) {
                        continue;
                    }
                    let mut itty = a;
                    if Self::implements(tcx, it, a) {
                        // already an iterator
                    } else if let Some(m) = find(into, "into_iter") {
                        if let Ok(Some(x)) = mty::Instance::try_resolve(tcx, env, m, tcx.mk_args(&[a.into()])) {
                            let sx = rustc_public::rustc_internal::stable(x);
                            rec.push(("into_iter", J::n(self.func(sx))));
                        }
                        if let Some(at) = find(into, "IntoIter") {
                            let p = mty::Ty::new_projection(tcx, mty::IsRigid::No, at, [mty::GenericArg::from(a)]);
                            if let Ok(t) = tcx.try_normalize_erasing_regions(env, mty::Unnormalized::new_wip(p)) {
                                itty = t;
                            }
                        }
                    }
                    if let Some(m) = find(it, "next") {
                        if let Ok(Some(x)) = mty::Instance::try_resolve(tcx, env, m, tcx.mk_args(&[itty.into()])) {
                            let sx = rustc_public::rustc_internal::stable(x);
                            rec.push(("next", J::n(self.func(sx))));
                        }
                    }
                    let sa: Ty = rustc_public::rustc_internal::stable(a);
                    rec.push(("arg", J::n(self.ty(sa))));
                    let si: Ty = rustc_public::rustc_internal::stable(itty);
                    rec.push(("iter", J::n(self.ty(si))));
                    nexts.push(J::obj(rec));
                }
                if !nexts.is_empty() {
                    o.push(("iters", J::Arr(nexts)));
                }
            }
        }
        if path.ends_with("panic::catch_unwind") || path.contains("::catch_unwind") {
            if let (Some(once), Some(f)) = (tcx.lang_items().fn_once_trait(), i.args.types().next()) {
                if let Some(m) = find(once, "call_once") {
                    let unit = tcx.types.unit;
                    if let Ok(Some(x)) = mty::Instance::try_resolve(tcx, env, m, tcx.mk_args(&[f.into(), unit.into()])) {
                        let sx = rustc_public::rustc_internal::stable(x);
                        o.push(("call", J::n(self.func(sx))));
                    }
                }
            }
        }
        o
    }

    fn implements(tcx: TyCtxt<'tcx>, tr: rustc_hir::def_id::DefId, t: rustc_middle::ty::Ty<'tcx>) -> bool {
        use rustc_infer::infer::TyCtxtInferExt;
        use rustc_trait_selection::infer::InferCtxtExt;
        let (infcx, param_env) = tcx
            .infer_ctxt()
            .build_with_typing_env(rustc_middle::ty::TypingEnv::fully_monomorphized());
        infcx.type_implements_trait(tr, [t], param_env).must_apply_modulo_regions()
    }

    fn body(&mut self, body: &Body) -> J {
        let locals: Vec<J> = body.locals().iter().map(|l| J::n(self.ty(l.ty))).collect();
        let argc = body.arg_locals().len();
        let mut names: Vec<(String, J)> = vec![];
        for v in &body.var_debug_info {
            if let Some(l) = v.local() {
                names.push((l.to_string(), J::s(v.name.to_string())));
            }
        }
        names.dedup_by(|a, b| a.0 == b.0);
        let mut seen = std::collections::HashSet::new();
        names.retain(|(k, _)| seen.insert(k.clone()));
        let mut bbs = vec![];
        for b in &body.blocks {
            let mut ss = vec![];
            for s in &b.statements {
                if let Some(j) = self.stmt(s, body) {
                    ss.push(j);
                }
            }
            let t = self.term(&b.terminator, body);
            bbs.push(J::Arr(vec![J::Arr(ss), t]));
        }
        J::obj(vec![
            ("locals", J::Arr(locals)),
            ("argc", J::n(argc)),
            ("names", J::Obj(names)),
            ("spread", body.spread_arg().map_or(J::Null, |l| J::n(l))),
            ("blocks", J::Arr(bbs)),
        ])
    }

    fn span(&self, s: &Span) -> J {
        J::n(s.get_lines().start_line)
    }

    fn stmt(&mut self, s: &Statement, body: &Body) -> Option<J> {
        Some(match &s.kind {
            StatementKind::Assign(p, r) => {
                J::Arr(vec![J::s("="), self.place(p), self.rvalue(r, body), self.span(&s.source_info.span)])
            }
            StatementKind::SetDiscriminant { place, variant_index } => {
                J::Arr(vec![J::s("sd"), self.place(place), J::n(format!("{}", vidx(variant_index)))])
            }
            StatementKind::Intrinsic(NonDivergingIntrinsic::Assume(o)) => {
                J::Arr(vec![J::s("assume"), self.operand(o)])
            }
            StatementKind::Intrinsic(NonDivergingIntrinsic::CopyNonOverlapping(c)) => J::Arr(vec![
                J::s("cno"),
                self.operand(&c.src),
                self.operand(&c.dst),
                self.operand(&c.count),
            ]),
            StatementKind::StorageDead(l) => J::Arr(vec![J::s("dead"), J::n(*l)]),
            _ => return None,
        })
    }

    fn rvalue(&mut self, r: &Rvalue, body: &Body) -> J {
        let pty = |cx: &mut Self, p: &Place| p.ty(body.locals()).ok().map_or(J::Null, |t| J::n(cx.ty(t)));
        match r {
            Rvalue::AddressOf(_, p) => J::Arr(vec![J::s("ref"), self.place(p), J::s("raw")]),
            Rvalue::Ref(_, k, p) => J::Arr(vec![
                J::s("ref"),
                self.place(p),
                J::s(match k {
                    BorrowKind::Shared => "shared",
                    BorrowKind::Fake(_) => "fake",
                    BorrowKind::Mut { .. } => "mut",
                }),
            ]),
            Rvalue::Reborrow(_, m, p) => J::Arr(vec![
                J::s("ref"),
                self.place(p),
                J::s(if *m == Mutability::Mut { "mut" } else { "shared" }),
            ]),
            Rvalue::Aggregate(k, ops) => {
                let ops: Vec<J> = ops.iter().map(|o| self.operand(o)).collect();
                let k = match k {
                    AggregateKind::Array(t) => J::Arr(vec![J::s("array"), J::n(self.ty(*t))]),
                    AggregateKind::Tuple => J::Arr(vec![J::s("tuple")]),
                    AggregateKind::Adt(def, v, args, _, active) => {
                        let t = Ty::from_rigid_kind(RigidTy::Adt(*def, args.clone()));
                        J::Arr(vec![
                            J::s("adt"),
                            J::n(self.ty(t)),
                            J::n(vidx(v)),
                            active.map_or(J::Null, |a| J::n(a)),
                        ])
                    }
                    AggregateKind::Closure(def, args) => {
                        let t = Ty::from_rigid_kind(RigidTy::Closure(*def, args.clone()));
                        J::Arr(vec![J::s("closure"), J::n(self.ty(t))])
                    }
                    AggregateKind::RawPtr(t, _) => J::Arr(vec![J::s("rawptr"), J::n(self.ty(*t))]),
                    _ => J::Arr(vec![J::s("other")]),
                };
                J::Arr(vec![J::s("agg"), k, J::Arr(ops)])
            }
            Rvalue::BinaryOp(op, a, b) => {
                let t = a.ty(body.locals()).ok().map_or(J::Null, |t| J::n(self.ty(t)));
                J::Arr(vec![J::s("bin"), J::s(format!("{:?}", op)), self.operand(a), self.operand(b), t])
            }
            Rvalue::CheckedBinaryOp(op, a, b) => {
                let t = a.ty(body.locals()).ok().map_or(J::Null, |t| J::n(self.ty(t)));
                J::Arr(vec![J::s("cbin"), J::s(format!("{:?}", op)), self.operand(a), self.operand(b), t])
            }
            Rvalue::UnaryOp(op, a) => {
                let t = a.ty(body.locals()).ok().map_or(J::Null, |t| J::n(self.ty(t)));
                J::Arr(vec![J::s("un"), J::s(format!("{:?}", op)), self.operand(a), t])
            }
            Rvalue::Cast(k, o, t) => {
                let from = o.ty(body.locals()).ok();
                let mut extra = J::Null;
                if let (CastKind::PointerCoercion(c), Some(ft)) = (k, from.as_ref()) {
                    match (c, ft.kind()) {
                        (PointerCoercion::ReifyFnPointer(_), TyKind::RigidTy(RigidTy::FnDef(d, a))) => {
                            if let Ok(i) = Instance::resolve_for_fn_ptr(d, &a) {
                                extra = J::n(self.func(i));
                            }
                        }
                        (PointerCoercion::ClosureFnPointer(_), TyKind::RigidTy(RigidTy::Closure(d, a))) => {
                            if let Ok(i) = Instance::resolve_closure(d, &a, ClosureKind::FnOnce) {
                                extra = J::n(self.func(i));
                            }
                        }
                        _ => {}
                    }
                }
                let ks = match k {
                    CastKind::PointerCoercion(c) => format!("{:?}", c),
                    k => format!("{:?}", k),
                };
                let ft = from.map_or(J::Null, |t| J::n(self.ty(t)));
                J::Arr(vec![J::s("cast"), J::s(ks), self.operand(o), ft, J::n(self.ty(*t)), extra])
            }
            Rvalue::CopyForDeref(p) => J::Arr(vec![J::s("use"), J::Arr(vec![J::s("c"), self.place(p)])]),
            Rvalue::Use(o, _) => J::Arr(vec![J::s("use"), self.operand(o)]),
            Rvalue::Discriminant(p) => {
                let t = pty(self, p);
                J::Arr(vec![J::s("discr"), self.place(p), t])
            }
            Rvalue::Len(p) => {
                let t = pty(self, p);
                J::Arr(vec![J::s("len"), self.place(p), t])
            }
            Rvalue::Repeat(o, n) => J::Arr(vec![
                J::s("repeat"),
                self.operand(o),
                n.eval_target_usize().ok().map_or(J::Null, |n| J::n(n)),
            ]),
            Rvalue::ThreadLocalRef(i) => J::Arr(vec![J::s("tls"), J::s(i.name())]),
        }
    }

    fn unwind(&self, u: &UnwindAction) -> J {
        match u {
            UnwindAction::Continue => J::s("continue"),
            UnwindAction::Unreachable => J::s("unreachable"),
            UnwindAction::Terminate => J::s("terminate"),
            UnwindAction::Cleanup(b) => J::n(*b),
        }
    }

    fn term(&mut self, t: &Terminator, body: &Body) -> J {
        let line = self.span(&t.source_info.span);
        match &t.kind {
            TerminatorKind::Goto { target } => J::Arr(vec![J::s("goto"), J::n(*target)]),
            TerminatorKind::SwitchInt { discr, targets } => {
                let br: Vec<J> =
                    targets.branches().map(|(v, b)| J::Arr(vec![J::n(v), J::n(b)])).collect();
                let dt = discr.ty(body.locals()).ok();
                let dt = dt.map_or(J::Null, |t| J::n(self.ty(t)));
                J::Arr(vec![
                    J::s("switch"),
                    self.operand(discr),
                    J::Arr(br),
                    J::n(targets.otherwise()),
                    dt,
                    line,
                ])
            }
            TerminatorKind::Resume => J::Arr(vec![J::s("resume")]),
            TerminatorKind::Abort => J::Arr(vec![J::s("abort")]),
            TerminatorKind::Return => J::Arr(vec![J::s("return")]),
            TerminatorKind::Unreachable => J::Arr(vec![J::s("unreachable")]),
            TerminatorKind::Drop { place, target, unwind } => {
                let ty = place.ty(body.locals()).ok();
                let mut f = J::Null;
                let mut tj = J::Null;
                if let Some(ty) = ty {
                    tj = J::n(self.ty(ty));
                    let inst = Instance::resolve_drop_in_place(ty);
                    if !inst.is_empty_shim() {
                        f = J::n(self.func(inst));
                    }
                }
                J::Arr(vec![
                    J::s("drop"),
                    self.place(place),
                    J::n(*target),
                    self.unwind(unwind),
                    f,
                    tj,
                    line,
                ])
            }
            TerminatorKind::Call { func, args, destination, target, unwind } => {
                let a: Vec<J> = args.iter().map(|x| self.operand(x)).collect();
                let fty = func.ty(body.locals()).ok();
                let f = match fty.as_ref().map(|t| t.kind()) {
                    Some(TyKind::RigidTy(RigidTy::FnDef(def, ga))) => {
                        match Instance::resolve(def, &ga) {
                            Ok(i) => J::n(self.func(i)),
                            Err(_) => J::s(def.name()),
                        }
                    }
                    _ => J::Arr(vec![self.operand(func)]),
                };
                J::Arr(vec![
                    J::s("call"),
                    f,
                    J::Arr(a),
                    self.place(destination),
                    target.map_or(J::Null, |t| J::n(t)),
                    self.unwind(unwind),
                    line,
                ])
            }
            TerminatorKind::Assert { cond, expected, msg, target, unwind } => {
                let m = match msg {
                    AssertMessage::BoundsCheck { .. } => "bounds",
                    AssertMessage::Overflow(..) => "overflow",
                    AssertMessage::OverflowNeg(..) => "overflow",
                    AssertMessage::DivisionByZero(..) => "divzero",
                    AssertMessage::RemainderByZero(..) => "remzero",
                    _ => "other",
                };
                J::Arr(vec![
                    J::s("assert"),
                    self.operand(cond),
                    J::Bool(*expected),
                    J::s(m),
                    J::n(*target),
                    self.unwind(unwind),
                    line,
                ])
            }
            TerminatorKind::InlineAsm { .. } => J::Arr(vec![J::s("asm")]),
        }
    }

    fn place(&mut self, p: &Place) -> J {
        let mut pr = vec![];
        for e in &p.projection {
            pr.push(match e {
                ProjectionElem::Deref => J::s("*"),
                ProjectionElem::Field(i, t) => {
                    J::Arr(vec![J::s("f"), J::n(*i), J::n(self.ty(*t))])
                }
                ProjectionElem::Index(l) => J::Arr(vec![J::s("i"), J::n(*l)]),
                ProjectionElem::ConstantIndex { offset, min_length, from_end } => J::Arr(vec![
                    J::s("ci"),
                    J::n(*offset),
                    J::n(*min_length),
                    J::Bool(*from_end),
                ]),
                ProjectionElem::Subslice { from, to, from_end } => {
                    J::Arr(vec![J::s("s"), J::n(*from), J::n(*to), J::Bool(*from_end)])
                }
                ProjectionElem::Downcast(v) => J::Arr(vec![J::s("d"), J::n(vidx(v))]),
                ProjectionElem::OpaqueCast(_) => J::s("oc"),
            });
        }
        J::Arr(vec![J::n(p.local), J::Arr(pr)])
    }

    fn operand(&mut self, o: &Operand) -> J {
        match o {
            Operand::Copy(p) => J::Arr(vec![J::s("c"), self.place(p)]),
            Operand::Move(p) => J::Arr(vec![J::s("m"), self.place(p)]),
            Operand::Constant(c) => {
                let v = self.mconst(&c.const_);
                J::Arr(vec![J::s("k"), J::n(self.ty(c.const_.ty())), v])
            }
            Operand::RuntimeChecks(_) => J::Arr(vec![J::s("rt")]),
        }
    }

    fn mconst(&mut self, c: &MirConst) -> J {
        match c.kind() {
            ConstantKind::Allocated(a) => self.decode(c.ty(), a, 0, 0),
            ConstantKind::ZeroSized => J::Arr(vec![J::s("z")]),
            ConstantKind::Ty(t) => match t.kind() {
                TyConstKind::Value(ty, a) => self.decode(*ty, a, 0, 0),
                TyConstKind::ZSTValue(_) => J::Arr(vec![J::s("z")]),
                _ => J::Arr(vec![J::s("?")]),
            },
            ConstantKind::Unevaluated(u) => {
                J::Arr(vec![J::s("uneval"), J::s(u.def.name().to_string())])
            }
            ConstantKind::Param(_) => J::Arr(vec![J::s("?")]),
        }
    }

    fn bytes_at(&self, a: &Allocation, off: usize, n: usize) -> Option<Vec<u8>> {
        if off + n > a.bytes.len() {
            return None;
        }
        a.bytes[off..off + n].iter().copied().collect()
    }

    fn uint_at(&self, a: &Allocation, off: usize, n: usize) -> Option<u128> {
        let b = self.bytes_at(a, off, n)?;
        let mut v: u128 = 0;
        for (i, x) in b.iter().enumerate() {
            if i < 16 {
                v |= (*x as u128) << (8 * i);
            }
        }
        Some(v)
    }

    fn ptr_at(&self, a: &Allocation, off: usize) -> Option<rustc_public::mir::alloc::AllocId> {
        a.provenance.ptrs.iter().find(|(o, _)| *o == off).map(|(_, p)| p.0)
    }

    /// Decodes the value of type `ty` stored at `off` in `a`.
    fn decode(&mut self, ty: Ty, a: &Allocation, off: usize, depth: usize) -> J {
        let unk = J::Arr(vec![J::s("?")]);
        if depth > 12 {
            return unk;
        }
        let size = match ty.layout() {
            Ok(l) => l.shape().size.bytes(),
            Err(_) => return unk,
        };
        let kind = match ty.kind() {
            TyKind::RigidTy(r) => r,
            _ => return unk,
        };
        match kind {
            RigidTy::Bool | RigidTy::Char | RigidTy::Uint(_) | RigidTy::Int(_) => {
                match self.uint_at(a, off, size) {
                    Some(v) => J::Arr(vec![J::s("i"), J::n(v)]),
                    None => J::Arr(vec![J::s("undef")]),
                }
            }
            RigidTy::FnDef(..) => J::Arr(vec![J::s("z")]),
            RigidTy::FnPtr(_) => self.decode_ptr(a, off, None, depth),
            RigidTy::Ref(_, t, _) | RigidTy::RawPtr(t, _) => {
                self.decode_ptr(a, off, Some((t, size)), depth)
            }
            RigidTy::Array(t, n) => {
                let n = n.eval_target_usize().unwrap_or(0) as usize;
                let es = t.layout().map(|l| l.shape().size.bytes()).unwrap_or(0);
                if matches!(t.kind(), TyKind::RigidTy(RigidTy::Uint(UintTy::U8))) {
                    if off + n <= a.bytes.len() {
                        if let Some(h) = hex(&a.bytes[off..off + n]) {
                            return J::Arr(vec![J::s("b"), J::s(h)]);
                        }
                    }
                    return J::Arr(vec![J::s("undef")]);
                }
                if n > 4096 {
                    return unk;
                }
                let v: Vec<J> = (0..n).map(|i| self.decode(t, a, off + i * es, depth + 1)).collect();
                J::Arr(vec![J::s("arr"), J::Arr(v)])
            }
            RigidTy::Tuple(ts) => {
                let sh = ty.layout().unwrap().shape();
                let offs = match sh.fields {
                    FieldsShape::Arbitrary { offsets } => offsets,
                    _ => vec![],
                };
                let mut v = vec![];
                for (i, t) in ts.iter().enumerate() {
                    let o = offs.get(i).map_or(0, |x| x.bytes());
                    v.push(self.decode(*t, a, off + o, depth + 1));
                }
                J::Arr(vec![J::s("agg"), J::Null, J::Arr(v)])
            }
            RigidTy::Closure(..) if size == 0 => J::Arr(vec![J::s("z")]),
            RigidTy::Adt(def, args) => {
                let sh = ty.layout().unwrap().shape();
                if def.kind() == AdtKind::Union {
                    if let Some(b) = self.bytes_at(a, off, size) {
                        if a.provenance.ptrs.is_empty() && b.iter().all(|x| *x == 0) {
                            return J::Arr(vec![J::s("zeroed")]);
                        }
                    }
                    // a transparent union such as MaybeUninit: decode the last field
                    let vs = def.variants();
                    if let Some(f) = vs.first().and_then(|v| v.fields().last().cloned()) {
                        let ft = self.norm(f.ty_with_args(&args));
                        let inner = self.decode(ft, a, off, depth + 1);
                        return J::Arr(vec![J::s("union"), inner]);
                    }
                    return unk;
                }
                let (vi, offs): (usize, Vec<usize>) = match (&sh.variants, &sh.fields) {
                    (VariantsShape::Single { index }, FieldsShape::Arbitrary { offsets }) => {
                        (vidx(index), offsets.iter().map(|x| x.bytes()).collect())
                    }
                    (VariantsShape::Single { index }, _) => (vidx(index), vec![0]),
                    (
                        VariantsShape::Multiple { tag, tag_encoding, tag_field, variants },
                        FieldsShape::Arbitrary { offsets },
                    ) => {
                        let toff = offsets[*tag_field].bytes();
                        let tsize = match tag {
                            rustc_public::abi::Scalar::Initialized { value, .. }
                            | rustc_public::abi::Scalar::Union { value } => {
                                value.size(&rustc_public::target::MachineInfo::target()).bytes()
                            }
                        };
                        let has_ptr = self.ptr_at(a, off + toff).is_some();
                        let raw = self.uint_at(a, off + toff, tsize);
                        let vi = match tag_encoding {
                            TagEncoding::Direct => {
                                let raw = match raw {
                                    Some(r) => r,
                                    None => return J::Arr(vec![J::s("undef")]),
                                };
                                let mask =
                                    if tsize >= 16 { u128::MAX } else { (1u128 << (8 * tsize)) - 1 };
                                let mut f = None;
                                for v in def.variants() {
                                    let d = def.discriminant_for_variant(v.idx()).val & mask;
                                    if d == raw {
                                        f = Some(vidx(&v.idx()));
                                    }
                                }
                                f
                            }
                            TagEncoding::Niche { untagged_variant, niche_variants, niche_start } => {
                                if has_ptr {
                                    Some(vidx(untagged_variant))
                                } else {
                                    match raw {
                                        None => return J::Arr(vec![J::s("undef")]),
                                        Some(raw) => {
                                            let mask = if tsize >= 16 {
                                                u128::MAX
                                            } else {
                                                (1u128 << (8 * tsize)) - 1
                                            };
                                            let rel = raw.wrapping_sub(*niche_start) & mask;
                                            let s = vidx(niche_variants.start()) as u128;
                                            let e = vidx(niche_variants.end()) as u128;
                                            if rel <= e - s {
                                                Some((s + rel) as usize)
                                            } else {
                                                Some(vidx(untagged_variant))
                                            }
                                        }
                                    }
                                }
                            }
                        };
                        match vi {
                            Some(vi) => {
                                (vi, variants[vi].offsets.iter().map(|x| x.bytes()).collect())
                            }
                            None => return unk,
                        }
                    }
                    _ => return unk,
                };
                let var = match def.variants().into_iter().nth(vi) {
                    Some(v) => v,
                    None => return unk,
                };
                let mut v = vec![];
                for (i, f) in var.fields().iter().enumerate() {
                    let ft = self.norm(f.ty_with_args(&args));
                    let o = offs.get(i).copied().unwrap_or(0);
                    v.push(self.decode(ft, a, off + o, depth + 1));
                }
                let vj = if def.kind() == AdtKind::Enum { J::n(vi) } else { J::Null };
                J::Arr(vec![J::s("agg"), vj, J::Arr(v)])
            }
            _ => {
                if size == 0 {
                    J::Arr(vec![J::s("z")])
                } else {
                    unk
                }
            }
        }
    }

    fn decode_ptr(&mut self, a: &Allocation, off: usize, to: Option<(Ty, usize)>, depth: usize) -> J {
        let addr = self.uint_at(a, off, 8);
        match self.ptr_at(a, off) {
            None => match addr {
                Some(v) => J::Arr(vec![J::s("i"), J::n(v)]),
                None => J::Arr(vec![J::s("undef")]),
            },
            Some(id) => {
                let addend = addr.unwrap_or(0) as usize;
                match GlobalAlloc::from(id) {
                    GlobalAlloc::Function(i) => J::Arr(vec![J::s("fn"), J::n(self.func(i))]),
                    GlobalAlloc::Static(s) => {
                        self.static_(s);
                        J::Arr(vec![J::s("static"), J::s(s.name()), J::n(addend)])
                    }
                    GlobalAlloc::VTable(t, _) => {
                        J::Arr(vec![J::s("vtable"), J::n(self.ty(t))])
                    }
                    GlobalAlloc::TypeId { ty } => J::Arr(vec![J::s("typeid"), J::n(self.ty(ty))]),
                    GlobalAlloc::Memory(m) => {
                        let (t, size) = match to {
                            Some(x) => x,
                            None => return J::Arr(vec![J::s("?")]),
                        };
                        match t.kind() {
                            TyKind::RigidTy(RigidTy::Str) => {
                                let n = self.uint_at(a, off + 8, 8).unwrap_or(0) as usize;
                                if addend + n <= m.bytes.len() {
                                    if let Some(h) = hex(&m.bytes[addend..addend + n]) {
                                        return J::Arr(vec![J::s("sl"), J::s(h)]);
                                    }
                                }
                                J::Arr(vec![J::s("?")])
                            }
                            TyKind::RigidTy(RigidTy::Slice(e)) => {
                                let n = self.uint_at(a, off + 8, 8).unwrap_or(0) as usize;
                                if matches!(e.kind(), TyKind::RigidTy(RigidTy::Uint(UintTy::U8))) {
                                    if addend + n <= m.bytes.len() {
                                        if let Some(h) = hex(&m.bytes[addend..addend + n]) {
                                            return J::Arr(vec![J::s("sl"), J::s(h)]);
                                        }
                                    }
                                    return J::Arr(vec![J::s("?")]);
                                }
                                let es = e.layout().map(|l| l.shape().size.bytes()).unwrap_or(0);
                                let v: Vec<J> = (0..n.min(4096))
                                    .map(|i| self.decode(e, &m, addend + i * es, depth + 1))
                                    .collect();
                                J::Arr(vec![J::s("slarr"), J::Arr(v)])
                            }
                            TyKind::RigidTy(RigidTy::Dynamic(..)) => {
                                let vt = self.ptr_at(a, off + 8).map(GlobalAlloc::from);
                                if let Some(GlobalAlloc::VTable(t, _)) = vt {
                                    let inner = self.decode(t, &m, addend, depth + 1);
                                    return J::Arr(vec![J::s("dynref"), J::n(self.ty(t)), inner]);
                                }
                                J::Arr(vec![J::s("?")])
                            }
                            _ => {
                                let _ = size;
                                // thin pointer into memory: decode the pointee, and for a
                                // byte pointer also keep the rest of the allocation
                                if matches!(
                                    t.kind(),
                                    TyKind::RigidTy(RigidTy::Uint(UintTy::U8))
                                        | TyKind::RigidTy(RigidTy::Int(IntTy::I8))
                                ) {
                                    if addend <= m.bytes.len() {
                                        if let Some(h) = hex(&m.bytes[addend..]) {
                                            return J::Arr(vec![J::s("bptr"), J::s(h)]);
                                        }
                                    }
                                    return J::Arr(vec![J::s("?")]);
                                }
                                let inner = self.decode(t, &m, addend, depth + 1);
                                J::Arr(vec![J::s("ref"), inner])
                            }
                        }
                    }
                }
            }
        }
    }
}

fn vidx(v: &VariantIdx) -> usize {
    use rustc_public_bridge::IndexedVal;
    v.to_index()
}

use crate::json::J;
use rustc_abi::{FieldIdx, Size, VariantIdx};
use rustc_data_structures::fx::FxHashMap;
use rustc_hir::def::DefKind;
use rustc_hir::def_id::{DefId, LocalDefId};
use rustc_middle::mir::interpret::{AllocRange, GlobalAlloc, Scalar};
use rustc_middle::mir::{self, *};
use rustc_middle::ty::{self, Instance, InstanceKind, ShimKind, Ty, TyCtxt, TypeVisitableExt, TypingEnv};
use rustc_span::Span;


pub struct D<'tcx> {
    tcx: TyCtxt<'tcx>,
    env: TypingEnv<'tcx>,
    bodies: FxHashMap<LocalDefId, Body<'tcx>>,
    inst_ids: FxHashMap<(Instance<'tcx>, bool), usize>,
    queue: Vec<(Instance<'tcx>, bool)>,
    fns: Vec<Option<J>>,
    ty_ids: FxHashMap<Ty<'tcx>, usize>,
    tys: Vec<J>,
    ty_queue: Vec<Ty<'tcx>>,
    files: Vec<String>,
}

fn o(v: Vec<(&'static str, J)>) -> J { J::O(v) }
fn a(v: Vec<J>) -> J { J::A(v) }

pub fn run<'tcx>(tcx: TyCtxt<'tcx>) {
    let out = std::env::var("RNV_OUT").unwrap();
    // snapshot all bodies before anything steals them
    let mut bodies = FxHashMap::default();
    let mut roots = vec![];
    let mut unsafes = vec![];
    let mut statics = vec![];
    for did in tcx.hir_body_owners() {
        let kind = tcx.def_kind(did);
        match kind {
            DefKind::Fn | DefKind::AssocFn | DefKind::Closure | DefKind::SyntheticCoroutineBody => {}
            _ => continue,
        }
        let (b, _) = tcx.mir_promoted(did);
        bodies.insert(did, b.borrow().clone());
        roots.push(did);
    }
    let env = TypingEnv::fully_monomorphized();
    let mut d = D {
        tcx, env, bodies,
        inst_ids: Default::default(), queue: vec![], fns: vec![],
        ty_ids: Default::default(), tys: vec![], ty_queue: vec![], files: vec![],
    };
    let mut rootj = vec![];
    for did in roots {
        if !matches!(tcx.def_kind(did), DefKind::Fn | DefKind::AssocFn) { continue; }
        let g = tcx.generics_of(did);
        if g.requires_monomorphization(tcx) {
            rootj.push(o(vec![("generic", J::s(tcx.def_path_str(did.to_def_id())))]));
            continue;
        }
        let args = ty::GenericArgs::for_item(tcx, did.to_def_id(), |p, _| match p.kind {
            ty::GenericParamDefKind::Lifetime => tcx.lifetimes.re_erased.into(),
            _ => panic!("generic root"),
        });
        let inst = Instance::new_raw(did.to_def_id(), args);
        let id = d.inst(inst, false);
        rootj.push(J::u(id));
    }
    // unsafe blocks / fns / impls, statics: from HIR
    for did in tcx.hir_body_owners() {
        if let Some(b) = tcx.hir_maybe_body_owned_by(did) {
            let mut v = UnsafeV { tcx, out: vec![] };
            use rustc_hir::intravisit::Visitor;
            v.visit_body(b);
            for sp in v.out {
                let (f, l) = d.loc(sp);
                unsafes.push(a(vec![J::s("block"), J::u(f), J::u(l), J::s(tcx.def_path_str(did.to_def_id()))]));
            }
        }
        if matches!(tcx.def_kind(did), DefKind::Fn | DefKind::AssocFn) {
            if tcx.fn_sig(did).skip_binder().safety().is_unsafe() {
                let (f, l) = d.loc(tcx.def_span(did));
                unsafes.push(a(vec![J::s("fn"), J::u(f), J::u(l), J::s(tcx.def_path_str(did.to_def_id()))]));
            }
        }
    }
    for id in tcx.hir_free_items() {
        let it = tcx.hir_item(id);
        if let rustc_hir::ItemKind::Impl(i) = it.kind {
            if let Some(tr) = i.of_trait {
                if tr.safety == rustc_hir::Safety::Unsafe && !it.span.from_expansion() {
                    let (f, l) = d.loc(it.span);
                    unsafes.push(a(vec![J::s("impl"), J::u(f), J::u(l), J::s("impl")]));
                }
            }
        }
        if let rustc_hir::ItemKind::Static(..) = it.kind {
            let did = it.owner_id.to_def_id();
            if let Ok(al) = tcx.eval_static_initializer(did) {
                let n = al.inner().len();
                let b = al.inner().inspect_with_uninit_and_ptr_outside_interpreter(0..n);
                statics.push(a(vec![J::s(tcx.def_path_str(did)), J::s(format!("{}", tcx.type_of(did).instantiate_identity().skip_norm_wip())),
                    a(b.iter().take(64).map(|x| J::u(*x as usize)).collect())]));
            }
        }
        if let rustc_hir::ItemKind::Static(m, ..) = it.kind {
            if m.is_mut() {
                let (f, l) = d.loc(it.span);
                unsafes.push(a(vec![J::s("static mut"), J::u(f), J::u(l), J::s("static")]));
            }
        }
        if let rustc_hir::ItemKind::ForeignMod { .. } = it.kind {
            let (f, l) = d.loc(it.span);
            unsafes.push(a(vec![J::s("extern"), J::u(f), J::u(l), J::s("extern")]));
        }
    }
    d.drain();
    // public functions
    let mut pubs = vec![];
    for did in tcx.hir_body_owners() {
        if matches!(tcx.def_kind(did), DefKind::Fn | DefKind::AssocFn)
            && tcx.effective_visibilities(()).is_reachable(did)
        {
            pubs.push(J::s(tcx.def_path_str(did.to_def_id())));
        }
    }
    let fns: Vec<J> = d.fns.iter().map(|f| f.clone().unwrap_or(J::Null)).collect();
    let j = o(vec![
        ("files", a(d.files.iter().map(|f| J::s(f.clone())).collect())),
        ("types", a(d.tys.clone())),
        ("fns", a(fns)),
        ("roots", a(rootj)),
        ("unsafes", a(unsafes)),
        ("statics", a(statics)),
        ("pubs", a(pubs)),
        ("overflow_checks", J::B(tcx.sess.overflow_checks())),
    ]);
    let mut s = String::new();
    j.w(&mut s);
    std::fs::write(out, s).unwrap();
}

struct UnsafeV<'tcx> { tcx: TyCtxt<'tcx>, out: Vec<Span> }
impl<'tcx> rustc_hir::intravisit::Visitor<'tcx> for UnsafeV<'tcx> {
    type NestedFilter = rustc_middle::hir::nested_filter::OnlyBodies;
    fn maybe_tcx(&mut self) -> TyCtxt<'tcx> { self.tcx }
    fn visit_block(&mut self, b: &'tcx rustc_hir::Block<'tcx>) {
        if let rustc_hir::BlockCheckMode::UnsafeBlock(rustc_hir::UnsafeSource::UserProvided) = b.rules {
            // only blocks written in this crate, not produced by foreign macros or desugarings
            if !b.span.from_expansion()
                || b.span.ctxt().outer_expn_data().macro_def_id.map_or(false, |m| m.is_local())
            {
                self.out.push(b.span);
            }
        }
        rustc_hir::intravisit::walk_block(self, b);
    }
}

impl<'tcx> D<'tcx> {
    fn drain(&mut self) {
        loop {
            if let Some((i, force)) = self.queue.pop() {
                let id = self.inst_ids[&(i, force)];
                // a body the compiler cannot work out counts as one without a body
                let j = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| self.dump_fn(i, force))).unwrap_or_else(|_| {
                    o(vec![("p", J::s(self.npath(i.def_id()))), ("dp", J::s(self.path(i.def_id()))), ("a", a(vec![])), ("l", J::B(i.def_id().is_local()))])
                });
                if std::env::var("RNV_TRACE").is_ok() { eprintln!("{} {:?} {}", id, i, force); }
                self.fns[id] = Some(j);
            } else if let Some(t) = self.ty_queue.pop() {
                let id = self.ty_ids[&t];
                let j = self.dump_ty(t);
                self.tys[id] = j;
            } else {
                break;
            }
        }
    }
    fn inst(&mut self, i: Instance<'tcx>, force: bool) -> usize {
        if let Some(x) = self.inst_ids.get(&(i, force)) { return *x; }
        let id = self.fns.len();
        self.fns.push(None);
        self.inst_ids.insert((i, force), id);
        self.queue.push((i, force));
        id
    }
    fn ty(&mut self, t: Ty<'tcx>) -> usize {
        let t = self.norm(t);
        if let Some(x) = self.ty_ids.get(&t) { return *x; }
        let id = self.tys.len();
        self.tys.push(J::Null);
        self.ty_ids.insert(t, id);
        self.ty_queue.push(t);
        id
    }
    fn norm(&self, t: Ty<'tcx>) -> Ty<'tcx> {
        if t.has_param() || t.has_escaping_bound_vars() { return self.tcx.erase_and_anonymize_regions(t); }
        self.tcx.try_normalize_erasing_regions(self.env, ty::Unnormalized::new_wip(t)).unwrap_or(t)
    }
    fn loc(&mut self, sp: Span) -> (usize, usize) {
        let sp = sp.source_callsite();
        let sm = self.tcx.sess.source_map();
        let l = sm.lookup_char_pos(sp.lo());
        let f = format!("{}", l.file.name.prefer_local_unconditionally());
        let fi = match self.files.iter().position(|x| *x == f) { Some(i) => i, None => { self.files.push(f); self.files.len() - 1 } };
        (fi, l.line)
    }
    // [file, line, macro-crate-or-null, macro name]
    fn sp(&mut self, sp: Span) -> J {
        let (f, l) = self.loc(sp);
        if sp.from_expansion() {
            // outermost macro of the backtrace
            let mut last = None;
            for e in sp.macro_backtrace() { last = Some(e); }
            let (cr, nm) = match last {
                Some(e) => (
                    e.macro_def_id.map(|d| self.tcx.crate_name(d.krate).to_string()).unwrap_or_else(|| "?".into()),
                    format!("{}", e.kind.descr()),
                ),
                None => ("desugar".to_string(), format!("{}", sp.ctxt().outer_expn_data().kind.descr())),
            };
            return a(vec![J::u(f), J::u(l), J::s(cr), J::s(nm)]);
        }
        a(vec![J::u(f), J::u(l)])
    }
    fn path(&self, d: DefId) -> String { self.tcx.def_path_str(d) }
    fn krate(&self, d: DefId) -> String { self.tcx.crate_name(d.krate).to_string() }
    // crate-anchored definition path, e.g. core::option::Option::map
    fn dpath(&self, d: DefId) -> String {
        let p = self.tcx.def_path(d);
        let mut s = self.tcx.crate_name(d.krate).to_string();
        for c in p.data.iter() {
            s.push_str("::");
            s.push_str(&c.as_sym(false).to_string());
        }
        s
    }

    fn ty_head(&self, t: Ty<'tcx>) -> String {
        match t.kind() {
            ty::Adt(d, _) => self.dpath(d.did()),
            ty::Slice(_) => "slice".into(),
            ty::Array(..) => "array".into(),
            ty::Str => "str".into(),
            ty::Ref(_, x, m) => format!("&{}{}", if m.is_mut() { "mut " } else { "" }, self.ty_head(*x)),
            ty::Param(_) => "T".into(),
            ty::Tuple(_) => "tuple".into(),
            ty::RawPtr(..) => "ptr".into(),
            ty::Bool | ty::Char | ty::Int(_) | ty::Uint(_) | ty::Float(_) => format!("{}", t),
            _ => "other".into(),
        }
    }
    // readable, impl-index-free path
    fn npath(&self, d: DefId) -> String {
        let tcx = self.tcx;
        if matches!(tcx.def_kind(d), DefKind::AssocFn | DefKind::AssocConst { .. }) {
            let par = tcx.parent(d);
            if let DefKind::Impl { of_trait } = tcx.def_kind(par) {
                let st = tcx.type_of(par).instantiate_identity().skip_norm_wip();
                let n = tcx.item_name(d);
                if of_trait {
                    let tr = tcx.impl_trait_id(par);
                    return format!("<{} as {}>::{}", self.ty_head(st), self.dpath(tr), n);
                }
                return format!("{}::{}", self.ty_head(st), n);
            }
        }
        if matches!(tcx.def_kind(d), DefKind::Closure | DefKind::SyntheticCoroutineBody) {
            let par = tcx.parent(d);
            let p = tcx.def_path(d);
            return format!("{}::{}", self.npath(par), p.data.last().map(|c| c.as_sym(true).to_string()).unwrap_or_default());
        }
        self.dpath(d)
    }

    fn targs(&mut self, args: ty::GenericArgsRef<'tcx>) -> J {
        let v: Vec<J> = args.iter().filter_map(|g| match g.kind() {
            ty::GenericArgKind::Type(t) => Some(t),
            _ => None,
        }).collect::<Vec<_>>().into_iter().map(|t| J::u(self.ty(t))).collect();
        a(v)
    }

    fn expand_adt(&self, d: DefId) -> bool {
        if d.is_local() || self.tcx.adt_def(d).is_enum() { return true; }
        let p = self.dpath(d);
        const PFX: &[&str] = &[
            "core::option::", "core::result::", "core::ops::control_flow::", "core::ops::range::",
            "core::cmp::", "core::task::poll::", "core::pin::", "core::net::", "core::iter::",
            "core::mem::manually_drop", "std::collections::hash::map::Entry",
            "core::ops::index_range", "alloc::borrow::Cow", "core::convert::Infallible",
            "core::num::wrapping", "core::future::ready", "alloc::collections::btree::map::entry::Entry",
            "core::num::saturating", "core::future::poll_fn", "tokio::future::poll_fn", "tokio::macros",
        ];
        PFX.iter().any(|x| p.starts_with(x))
    }

    fn dump_ty(&mut self, t: Ty<'tcx>) -> J {
        let tcx = self.tcx;
        let mut r: Vec<(&'static str, J)> = vec![("s", J::s(format!("{}", t)))];
        match *t.kind() {
            ty::Bool => r.push(("k", J::s("bool"))),
            ty::Char => r.push(("k", J::s("char"))),
            ty::Int(_) | ty::Uint(_) => { r.push(("k", J::s("int"))); }
            ty::Float(_) => r.push(("k", J::s("float"))),
            ty::Str => r.push(("k", J::s("str"))),
            ty::Never => r.push(("k", J::s("never"))),
            ty::Ref(_, x, m) => { r.push(("k", J::s("ref"))); r.push(("t", J::u(self.ty(x)))); r.push(("m", J::B(m.is_mut()))); }
            ty::RawPtr(x, m) => { r.push(("k", J::s("ptr"))); r.push(("t", J::u(self.ty(x)))); r.push(("m", J::B(m.is_mut()))); }
            ty::Slice(x) => { r.push(("k", J::s("slice"))); r.push(("t", J::u(self.ty(x)))); }
            ty::Array(x, n) => {
                r.push(("k", J::s("array"))); r.push(("t", J::u(self.ty(x))));
                match n.try_to_target_usize(tcx) { Some(v) => r.push(("n", J::I(v as i128))), None => r.push(("n", J::Null)) }
            }
            ty::Tuple(l) => { r.push(("k", J::s("tuple"))); let v = l.iter().map(|x| J::u(self.ty(x))).collect(); r.push(("a", a(v))); }
            ty::FnDef(d, args) => {
                r.push(("k", J::s("fndef"))); r.push(("p", J::s(self.dpath(d.into()))));
                let args = args.skip_binder();
                r.push(("a", self.targs(args)));
                if !t.has_param() {
                    let c = self.resolve(d.into(), args);
                    r.push(("c", c));
                }
            }
            ty::FnPtr(..) => r.push(("k", J::s("fnptr"))),
            ty::Dynamic(..) => r.push(("k", J::s("dyn"))),
            ty::Closure(d, args) => {
                r.push(("k", J::s("closure"))); r.push(("p", J::s(self.npath(d.into()))));
                let up = args.as_closure().upvar_tys().iter().map(|x| J::u(self.ty(x))).collect();
                r.push(("u", a(up)));
                let i = Instance::new_raw(d.into(), args);
                r.push(("i", J::u(self.inst(i, false))));
                r.push(("ck", J::s(format!("{:?}", args.as_closure().kind()))));
            }
            ty::Coroutine(d, args) => {
                r.push(("k", J::s("coroutine"))); r.push(("p", J::s(self.npath(d.into()))));
                let up = args.as_coroutine().upvar_tys().iter().map(|x| J::u(self.ty(x))).collect();
                r.push(("u", a(up)));
                let dd: DefId = d.into();
                if dd.is_local() {
                    let i = Instance::new_raw(dd, args);
                    r.push(("i", J::u(self.inst(i, false))));
                    r.push(("o", J::u(self.ty(args.as_coroutine().return_ty()))));
                }
            }
            ty::Adt(def, args) => {
                r.push(("k", J::s("adt")));
                r.push(("p", J::s(self.dpath(def.did()))));
                r.push(("a", self.targs(args)));
                r.push(("l", J::B(def.did().is_local())));
                r.push(("ak", J::s(if def.is_enum() { "enum" } else if def.is_union() { "union" } else { "struct" })));
                if self.expand_adt(def.did()) && !def.is_union() {
                    let mut vs = vec![];
                    for (vi, v) in def.variants().iter_enumerated() {
                        let discr = if def.is_enum() { def.discriminant_for_variant(tcx, vi).val as i128 } else { 0 };
                        let mut fs = vec![];
                        for f in v.fields.iter() {
                            let ft = f.ty(tcx, args).skip_norm_wip();
                            let ft = self.ty(ft);
                            fs.push(a(vec![J::s(f.name.to_string()), J::u(ft)]));
                        }
                        vs.push(o(vec![("n", J::s(v.name.to_string())), ("d", J::I(discr)), ("f", a(fs))]));
                    }
                    r.push(("v", a(vs)));
                }
                if let Some(dd) = tcx.adt_destructor(def.did()) {
                    if def.did().is_local() {
                        let i = Instance::new_raw(dd.did, args);
                        r.push(("drop", J::u(self.inst(i, false))));
                    } else {
                        r.push(("drop", J::Null));
                    }
                }
            }
            ty::Param(_) => r.push(("k", J::s("param"))),
            _ => r.push(("k", J::s("other"))),
        }
        if !t.has_param() && !t.has_escaping_bound_vars() {
            let mut h = vec![];
            let copy = tcx.type_is_copy_modulo_regions(self.env, t);
            if copy { r.push(("copy", J::B(true))); }
            if matches!(t.kind(), ty::Adt(..) | ty::Closure(..) | ty::Coroutine(..)) || matches!(t.kind(), ty::Ref(_, x, _) if matches!(x.kind(), ty::Adt(..) | ty::Slice(_) | ty::Array(..))) {
                for (nm, tr, me) in [
                    ("next", "Iterator", "next"),
                    ("next_back", "DoubleEndedIterator", "next_back"),
                    ("poll", "Future", "poll"),
                    ("into_iter", "IntoIterator", "into_iter"),
                    ("into_future", "IntoFuture", "into_future"),
                ] {
                    if matches!(t.kind(), ty::Ref(..)) && me != "into_iter" { continue; }
                    if let Some(c) = self.helper(t, tr, me) { h.push((nm, c)); }
                }
                // PartialEq for local types
                if let ty::Adt(def, _) = t.kind() {
                    if def.did().is_local() {
                        if let Some(eqt) = tcx.lang_items().eq_trait() {
                            if self.implements(eqt, vec![t.into(), t.into()]) {
                                let m = self.assoc_fn(eqt, "eq").unwrap();
                                let args = tcx.mk_args(&[t.into(), t.into()]);
                                let c = self.resolve(m, args);
                                h.push(("eq", c));
                            }
                        }
                        if let Some(ct) = tcx.lang_items().clone_trait() {
                            if self.implements(ct, vec![t.into()]) {
                                let m = self.assoc_fn(ct, "clone").unwrap();
                                let c = self.resolve(m, tcx.mk_args(&[t.into()]));
                                h.push(("clone", c));
                            }
                        }
                    }
                }
                if let ty::Adt(def, args) = t.kind() {
                    let dp = self.dpath(def.did());
                    if dp == "core::ops::range::Range" || dp == "core::ops::range::RangeInclusive" || dp == "core::ops::range::RangeFrom" {
                        let _ = args;
                    }
                }
            }
            if !h.is_empty() { r.push(("h", o(h))); }
        }
        o(r)
    }

    fn implements(&self, tr: DefId, params: Vec<ty::GenericArg<'tcx>>) -> bool {
        use rustc_infer::infer::TyCtxtInferExt;
        use rustc_trait_selection::infer::InferCtxtExt;
        let (infcx, pe) = self.tcx.infer_ctxt().build_with_typing_env(self.env);
        infcx.type_implements_trait(tr, params, pe).must_apply_modulo_regions()
    }
    fn assoc_fn(&self, tr: DefId, name: &str) -> Option<DefId> {
        self.tcx.associated_items(tr).in_definition_order()
            .find(|i| i.is_fn() && i.name().as_str() == name).map(|i| i.def_id)
    }
    fn helper(&mut self, t: Ty<'tcx>, tr: &str, me: &str) -> Option<J> {
        let tcx = self.tcx;
        let trd = match tr {
            "Iterator" => tcx.get_diagnostic_item(rustc_span::Symbol::intern("Iterator"))?,
            "DoubleEndedIterator" => tcx.get_diagnostic_item(rustc_span::Symbol::intern("DoubleEndedIterator"))?,
            "IntoIterator" => tcx.get_diagnostic_item(rustc_span::Symbol::intern("IntoIterator"))?,
            "Future" => tcx.lang_items().future_trait()?,
            "IntoFuture" => {
                let f = tcx.lang_items().into_future_fn()?;
                tcx.parent(f)
            }
            _ => return None,
        };
        if !self.implements(trd, vec![t.into()]) { return None; }
        let m = self.assoc_fn(trd, me)?;
        let args = tcx.mk_args(&[t.into()]);
        Some(self.resolve(m, args))
    }

    fn inline_ext(&self, d: DefId) -> bool {
        let p = self.dpath(d);
        const PFX: &[&str] = &[
            "core::option::", "core::result::", "core::ops::control_flow::", "core::ops::try_trait::",
            "core::ops::function::", "core::convert::", "core::cmp::", "core::bool::",
            "core::iter::", "core::tuple::", "core::future::into_future", "core::pin::",
            "std::collections::hash::map::Entry::", "core::default::", "core::task::poll::",
            "core::ops::range::", "core::future::poll_fn", "tokio::future::poll_fn",
            "alloc::collections::btree::map::entry::Entry::", "core::future::ready",
            "core::borrow::",
        ];
        const DENY: &[&str] = &[
            "core::iter::range::", "core::iter::adapters::zip::", "core::iter::adapters::step_by::",
            "core::iter::traits::exact_size", "core::iter::adapters::array_chunks",
            "core::convert::num", "core::ops::range::{impl#", "core::cmp::impls",
            "core::iter::traits::collect::FromIterator",
        ];
        PFX.iter().any(|x| p.starts_with(x)) && !DENY.iter().any(|x| p.starts_with(x))
    }

    fn resolve(&mut self, d: DefId, args: ty::GenericArgsRef<'tcx>) -> J {
        let tcx = self.tcx;
        let mut r: Vec<(&'static str, J)> = vec![("p", J::s(self.npath(d))), ("a", self.targs(args))];
        let args = tcx.erase_and_anonymize_regions(args);
        if tcx.intrinsic(d).is_some() { r.push(("intr", J::B(true))); }
        if matches!(tcx.def_kind(d), DefKind::Ctor(..)) {
            r.push(("ctor", J::B(true)));
            return o(r);
        }
        match Instance::try_resolve(tcx, self.env, d, args) {
            Ok(Some(i)) => {
                let rd = i.def_id();
                r.push(("rp", J::s(self.npath(rd))));
                if let Some(imp) = tcx.trait_impl_of_assoc(rd) {
                    let tr = tcx.impl_trait_id(imp);
                    r.push(("it", J::s(self.dpath(tr))));
                }
                match i.def {
                    InstanceKind::Item(x) => {
                        let big: usize = i.args.types().map(|t| t.walk().count()).sum();
                        if x.is_local() || (big < 60 && self.inline_ext(x) && tcx.is_mir_available(x)) {
                            r.push(("i", J::u(self.inst(i, false))));
                        }
                        // provided default body of an overridden Iterator method
                        if let Some(tr) = tcx.trait_of_assoc(d) {
                            if big < 60 && self.dpath(tr) == "core::iter::traits::iterator::Iterator" && d != x && tcx.is_mir_available(d)
                                && tcx.defaultness(d).has_value() {
                                let di = Instance::new_raw(d, args);
                                r.push(("df", J::u(self.inst(di, true))));
                            }
                        }
                    }
                    InstanceKind::Intrinsic(_) | InstanceKind::LlvmIntrinsic(_) => r.push(("intr", J::B(true))),
                    InstanceKind::Virtual(..) => r.push(("virt", J::B(true))),
                    InstanceKind::Shim(s) => match s {
                        ShimKind::ClosureOnce { closure, .. } => {
                            let cargs = match args.type_at(0).kind() { ty::Closure(_, a) => *a, _ => args };
                            let ci = Instance::new_raw(closure, cargs);
                            r.push(("shim", J::s("once")));
                            r.push(("i", J::u(self.inst(ci, false))));
                        }
                        ShimKind::FnPtr(_, t) => {
                            r.push(("shim", J::s("fnptr")));
                            r.push(("ft", J::u(self.ty(t))));
                        }
                        ShimKind::Clone(_, t) => { r.push(("shim", J::s("clone"))); r.push(("ft", J::u(self.ty(t)))); }
                        ShimKind::DropGlue(_, t) => { r.push(("shim", J::s("drop"))); if let Some(t) = t { r.push(("ft", J::u(self.ty(t)))); } }
                        _ => r.push(("shim", J::s(format!("{:?}", s)))),
                    },
                }
            }
            _ => {}
        }
        o(r)
    }

    fn dump_fn(&mut self, i: Instance<'tcx>, force: bool) -> J {
        let tcx = self.tcx;
        let did = i.def_id();
        let mut r: Vec<(&'static str, J)> = vec![("p", J::s(self.npath(did))), ("dp", J::s(self.path(did))), ("a", self.targs(i.args)), ("l", J::B(did.is_local()))];
        if force { r.push(("force", J::B(true))); }
        if let DefKind::AssocFn = tcx.def_kind(did) {
            let par = tcx.parent(did);
            if let DefKind::Impl { .. } = tcx.def_kind(par) {
                let st = tcx.type_of(par).instantiate_identity().skip_norm_wip();
                r.push(("self", J::s(format!("{}", st))));
                if let Some(t) = tcx.trait_impl_of_assoc(did) { let tr = tcx.impl_trait_id(t); r.push(("trait", J::s(self.dpath(tr)))); }
            }
        }
        let local = did.as_local();
        let body: Body<'tcx> = if let Some(l) = local {
            match self.bodies.get(&l) { Some(b) => b.clone(), None => return o(r) }
        } else {
            if !tcx.is_mir_available(did) { return o(r); }
            tcx.instance_mir(i.def).clone()
        };
        let body = i.instantiate_mir_and_normalize_erasing_regions(tcx, self.env, ty::EarlyBinder::bind(tcx, body));
        if local.is_some() {
            r.push(("async", J::B(tcx.asyncness(did).is_async())));
            if let Some(ck) = tcx.coroutine_kind(did) { r.push(("cor", J::s(format!("{:?}", ck)))); }
            let vis = tcx.def_kind(did);
            if matches!(vis, DefKind::Fn | DefKind::AssocFn) {
                r.push(("pub", J::B(tcx.visibility(did).is_public())));
                if let Some(l) = did.as_local() {
                    r.push(("exp", J::B(tcx.effective_visibilities(()).is_exported(l))));
                }
            }
        }
        r.push(("argc", J::u(body.arg_count)));
        if let Some(s) = body.spread_arg { r.push(("spread", J::u(s.as_usize()))); }
        r.push(("sp", self.sp(tcx.def_span(did))));
        let mut names: FxHashMap<usize, String> = FxHashMap::default();
        let mut upn = vec![];
        for v in &body.var_debug_info {
            if let VarDebugInfoContents::Place(p) = v.value {
                if p.projection.is_empty() { names.insert(p.local.as_usize(), v.name.to_string()); }
                else if p.local.as_usize() == 1 {
                    let pr = p.projection.to_vec();
                    upn.push(a(vec![J::s(v.name.to_string()), a(pr.iter().map(|e| match e { ProjectionElem::Field(f, _) => J::u(f.as_usize()), _ => J::s("*") }).collect())]));
                }
            }
        }
        r.push(("upn", a(upn)));
        let mut ls = vec![];
        for (l, ld) in body.local_decls.iter_enumerated() {
            let t = self.ty(ld.ty);
            match names.get(&l.as_usize()) {
                Some(n) => ls.push(a(vec![J::u(t), J::s(n.clone())])),
                None => ls.push(a(vec![J::u(t)])),
            }
        }
        r.push(("locals", a(ls)));
        let mut bl = vec![];
        for (_, bb) in body.basic_blocks.iter_enumerated() {
            if bb.is_cleanup { bl.push(J::Null); continue; }
            let mut ss = vec![];
            for s in &bb.statements {
                if let Some(j) = self.stmt(s, &body) { ss.push(j); }
            }
            let t = self.term(bb.terminator(), &body);
            bl.push(o(vec![("s", a(ss)), ("t", t)]));
        }
        r.push(("b", a(bl)));
        o(r)
    }

    fn place(&mut self, p: &Place<'tcx>, body: &Body<'tcx>) -> J {
        let mut pr = vec![];
        let mut pt = mir::PlaceTy::from_ty(body.local_decls[p.local].ty);
        for e in p.projection.iter() {
            pt = pt.projection_ty(self.tcx, e);
            let t = pt.ty;
            pr.push(match e {
                ProjectionElem::Deref => a(vec![J::s("*"), J::u(self.ty(t))]),
                ProjectionElem::Field(f, _) => a(vec![J::s("f"), J::u(f.as_usize()), J::u(self.ty(t))]),
                ProjectionElem::Index(l) => a(vec![J::s("i"), J::u(l.as_usize()), J::u(self.ty(t))]),
                ProjectionElem::ConstantIndex { offset, min_length, from_end } =>
                    a(vec![J::s("ci"), J::I(offset as i128), J::I(min_length as i128), J::B(from_end), J::u(self.ty(t))]),
                ProjectionElem::Subslice { from, to, from_end } =>
                    a(vec![J::s("sub"), J::I(from as i128), J::I(to as i128), J::B(from_end), J::u(self.ty(t))]),
                ProjectionElem::Downcast(_, v) => a(vec![J::s("dc"), J::u(v.as_usize()), J::u(self.ty(t))]),
                _ => a(vec![J::s("oc"), J::u(self.ty(t))]),
            });
        }
        a(vec![J::u(p.local.as_usize()), a(pr)])
    }
    fn op(&mut self, x: &Operand<'tcx>, body: &Body<'tcx>) -> J {
        match x {
            Operand::Copy(p) => { let j = self.place(p, body); a(vec![J::s("c"), j]) }
            Operand::Move(p) => { let j = self.place(p, body); a(vec![J::s("m"), j]) }
            Operand::Constant(c) => { let j = self.konst(&c.const_, c.span); a(vec![J::s("k"), j]) }
            Operand::RuntimeChecks(rc) => {
                let v = match rc { mir::RuntimeChecks::OverflowChecks => 1, _ => 0 };
                a(vec![J::s("k"), o(vec![("t", J::u(self.ty(self.tcx.types.bool))), ("v", J::I(v))])])
            }
        }
    }
    fn konst(&mut self, c: &Const<'tcx>, sp: Span) -> J {
        let t = c.ty();
        let ti = self.ty(t);
        let mut r = vec![("t", J::u(ti))];
        if let ty::FnDef(..) = t.kind() { return o(r); }
        if let Const::Unevaluated(u, _) = c {
            if let Some(p) = u.promoted {
                r.push(("prom", J::B(true)));
                // a body taken over from an upstream crate may name a promoted that crate did not export
                if p.as_usize() >= self.tcx.promoted_mir(u.def).len() { return o(r); }
                // the promoteds of a default method body belong to that body, not to the method that overrides it
                let inst = Instance::new_raw(u.def, u.args);
                let gid = mir::interpret::GlobalId { instance: inst, promoted: Some(p) };
                if let Ok(v) = self.tcx.const_eval_global_id(self.env, gid, sp) {
                    if let Some(j) = self.cval(v, t, 0) { r.push(("v", j)); }
                }
                return o(r);
            }
            else { r.push(("item", J::s(self.dpath(u.def)))); }
        }
        match c.eval(self.tcx, self.env, sp) {
            Ok(v) => { if let Some(j) = self.cval(v, t, 0) { r.push(("v", j)); } }
            Err(_) => {}
        }
        o(r)
    }
    fn scalar(&mut self, s: Scalar, t: Ty<'tcx>, depth: usize) -> Option<J> {
        match s {
            Scalar::Int(i) => {
                match t.kind() {
                    ty::Int(_) => Some(J::I(i.to_int(i.size()))),
                    ty::Float(f) => {
                        let bits = i.to_bits(i.size());
                        let v = match f.bit_width() { 32 => f32::from_bits(bits as u32) as f64, _ => f64::from_bits(bits as u64) };
                        Some(o(vec![("float", J::s(format!("{:?}", v)))]))
                    }
                    ty::Adt(..) | ty::Tuple(_) | ty::Array(..) => None,
                    _ => Some(J::I(i.to_bits(i.size()) as i128)),
                }
            }
            Scalar::Ptr(p, _) => {
                let (prov, off) = p.into_raw_parts();
                let aid = prov.alloc_id();
                let inner = t.builtin_deref(true);
                match self.tcx.global_alloc(aid) {
                    GlobalAlloc::Static(d) => Some(o(vec![("static", J::s(self.dpath(d)))])),
                    GlobalAlloc::Function { instance } => { let c = self.resolve(instance.def_id(), instance.args); Some(o(vec![("fn", c)])) }
                    GlobalAlloc::Memory(_) => {
                        let it = inner?;
                        let v = self.cval(ConstValue::Indirect { alloc_id: aid, offset: off }, it, depth + 1)?;
                        Some(o(vec![("ref", v)]))
                    }
                    _ => None,
                }
            }
        }
    }
    fn cval(&mut self, v: ConstValue, t: Ty<'tcx>, depth: usize) -> Option<J> {
        if depth > 6 { return None; }
        let tcx = self.tcx;
        match (v, t.kind()) {
            (ConstValue::ZeroSized, ty::Tuple(_)) | (ConstValue::ZeroSized, ty::FnDef(..)) => return Some(o(vec![("zst", J::B(true))])),
            (ConstValue::Slice { alloc_id, meta }, _) => {
                let inner = t.builtin_deref(true)?;
                let mem = match tcx.global_alloc(alloc_id) { GlobalAlloc::Memory(m) => m, _ => return None };
                let bytes = match inner.kind() {
                    ty::Str => true,
                    ty::Slice(e) if *e == tcx.types.u8 => true,
                    _ => false,
                };
                if !bytes { return None; }
                let b = mem.inner().get_bytes_strip_provenance(&tcx, AllocRange { start: Size::ZERO, size: Size::from_bytes(meta) }).ok()?;
                return Some(o(vec![("bytes", a(b.iter().map(|x| J::I(*x as i128)).collect()))]));
            }
            (ConstValue::Scalar(s), ty::Adt(..) | ty::Tuple(_) | ty::Array(..)) => {
                let _ = s;
            }
            (ConstValue::Scalar(s), _) => return self.scalar(s, t, depth),
            (ConstValue::Indirect { alloc_id, offset }, _) => {
                let mem = match tcx.global_alloc(alloc_id) { GlobalAlloc::Memory(m) => m, _ => return None };
                match *t.kind() {
                    ty::Bool | ty::Char | ty::Int(_) | ty::Uint(_) | ty::Float(_) => {
                        let lay = tcx.layout_of(self.env.as_query_input(t)).ok()?;
                        let s = mem.inner().read_scalar(&tcx, AllocRange { start: offset, size: lay.size }, false).ok()?;
                        return self.scalar(s, t, depth);
                    }
                    ty::Ref(_, inner, _) | ty::RawPtr(inner, _) => {
                        let ps = tcx.data_layout.pointer_size();
                        let s = mem.inner().read_scalar(&tcx, AllocRange { start: offset, size: ps }, true).ok()?;
                        if matches!(inner.kind(), ty::Str | ty::Slice(_)) {
                            let m = mem.inner().read_scalar(&tcx, AllocRange { start: offset + ps, size: ps }, false).ok()?;
                            let n = m.to_target_usize(&tcx).discard_err()?;
                            if let Scalar::Ptr(p, _) = s {
                                let (prov, off) = p.into_raw_parts();
                                if let GlobalAlloc::Memory(_) = tcx.global_alloc(prov.alloc_id()) {
                                    let el = match inner.kind() { ty::Str => tcx.types.u8, ty::Slice(e) => *e, _ => unreachable!() };
                                    let lay = tcx.layout_of(self.env.as_query_input(el)).ok()?;
                                    let mut out = vec![];
                                    for k in 0..n {
                                        let v = self.cval(ConstValue::Indirect { alloc_id: prov.alloc_id(), offset: off + lay.size * k }, el, depth + 1)?;
                                        out.push(v);
                                    }
                                    let tag = if el == tcx.types.u8 { "bytes" } else { "slice" };
                                    return Some(o(vec![(tag, a(out))]));
                                }
                            }
                            return None;
                        }
                        return self.scalar(s, t, depth);
                    }
                    ty::Array(el, n) => {
                        let n = n.try_to_target_usize(tcx)?;
                        if n > 4096 { return None; }
                        let lay = tcx.layout_of(self.env.as_query_input(el)).ok()?;
                        let mut out = vec![];
                        for k in 0..n {
                            let v = self.cval(ConstValue::Indirect { alloc_id, offset: offset + lay.size * k }, el, depth + 1)?;
                            out.push(v);
                        }
                        return Some(o(vec![("arr", a(out))]));
                    }
                    _ => {}
                }
            }
            _ => {}
        }
        if let ty::Array(el, n) = *t.kind() {
            // scalar-backed small arrays
            let n = n.try_to_target_usize(tcx)?;
            let lay = tcx.layout_of(self.env.as_query_input(el)).ok()?;
            if let ConstValue::Scalar(Scalar::Int(i)) = v {
                let es = lay.size.bytes();
                let bits = i.to_bits(i.size());
                let mut out = vec![];
                if es == 0 || es > 16 { return None; }
                for k in 0..n {
                    let sh = (k * es * 8) as u32;
                    let x = (bits >> sh) & (if es >= 16 { u128::MAX } else { (1u128 << (es * 8)) - 1 });
                    out.push(J::I(x as i128));
                }
                if matches!(el.kind(), ty::Uint(_) | ty::Bool) { return Some(o(vec![("arr", a(out))])); }
            }
            if n == 0 { return Some(o(vec![("arr", a(vec![]))])); }
            return None;
        }
        if matches!(t.kind(), ty::Adt(..) | ty::Tuple(_)) {
            if let ty::Adt(def, _) = t.kind() {
                if def.is_union() || !self.expand_adt(def.did()) {
                    return None;
                }
            }
            let dc = tcx.try_destructure_mir_constant_for_user_output(v, t)?;
            let mut fs = vec![];
            for (fv, ft) in dc.fields.iter() {
                let x = self.cval(*fv, *ft, depth + 1).unwrap_or(J::Null);
                fs.push(a(vec![J::u(self.ty(*ft)), x]));
            }
            return Some(o(vec![("var", J::u(dc.variant.unwrap_or(VariantIdx::ZERO).as_usize())), ("fs", a(fs))]));
        }
        None
    }

    fn rv(&mut self, r: &Rvalue<'tcx>, body: &Body<'tcx>) -> J {
        match r {
            Rvalue::Use(x, _) => { let j = self.op(x, body); a(vec![J::s("use"), j]) }
            Rvalue::Repeat(x, n) => {
                let j = self.op(x, body);
                let n = n.try_to_target_usize(self.tcx).map(|x| J::I(x as i128)).unwrap_or(J::Null);
                a(vec![J::s("rep"), j, n])
            }
            Rvalue::Ref(_, bk, p) => { let j = self.place(p, body); a(vec![J::s("ref"), J::B(matches!(bk, BorrowKind::Mut { .. })), j]) }
            Rvalue::Reborrow(_, m, p) => { let j = self.place(p, body); a(vec![J::s("rb"), J::B(m.is_mut()), j]) }
            Rvalue::ThreadLocalRef(d) => a(vec![J::s("tls"), J::s(self.dpath(*d))]),
            Rvalue::RawPtr(_, p) => { let j = self.place(p, body); a(vec![J::s("raw"), j]) }
            Rvalue::Cast(k, x, t) => {
                let j = self.op(x, body);
                let st = x.ty(&body.local_decls, self.tcx);
                a(vec![J::s("cast"), J::s(format!("{:?}", k)), j, J::u(self.ty(*t)), J::u(self.ty(st))])
            }
            Rvalue::BinaryOp(b, xs) => {
                let l = self.op(&xs.0, body);
                let rr = self.op(&xs.1, body);
                let t = xs.0.ty(&body.local_decls, self.tcx);
                a(vec![J::s("bin"), J::s(format!("{:?}", b)), l, rr, J::u(self.ty(t))])
            }
            Rvalue::UnaryOp(u, x) => {
                let j = self.op(x, body);
                let t = x.ty(&body.local_decls, self.tcx);
                a(vec![J::s("un"), J::s(format!("{:?}", u)), j, J::u(self.ty(t))])
            }
            Rvalue::Discriminant(p) => {
                let j = self.place(p, body);
                let t = p.ty(&body.local_decls, self.tcx).ty;
                a(vec![J::s("discr"), j, J::u(self.ty(t))])
            }
            Rvalue::Aggregate(k, xs) => {
                let v: Vec<J> = xs.iter().map(|x| self.op(x, body)).collect();
                let kj = match &**k {
                    AggregateKind::Array(_) => a(vec![J::s("array")]),
                    AggregateKind::Tuple => a(vec![J::s("tuple")]),
                    AggregateKind::Adt(_, vi, _, _, fi) => a(vec![J::s("adt"), J::u(vi.as_usize()), fi.map(|f: FieldIdx| J::u(f.as_usize())).unwrap_or(J::Null)]),
                    AggregateKind::Closure(..) => a(vec![J::s("closure")]),
                    AggregateKind::Coroutine(..) => a(vec![J::s("coroutine")]),
                    AggregateKind::CoroutineClosure(..) => a(vec![J::s("coroutineclosure")]),
                    AggregateKind::RawPtr(..) => a(vec![J::s("rawptr")]),
                };
                let t = r.ty(&body.local_decls, self.tcx);
                a(vec![J::s("agg"), kj, a(v), J::u(self.ty(t))])
            }
            Rvalue::CopyForDeref(p) => { let j = self.place(p, body); a(vec![J::s("use"), a(vec![J::s("c"), j])]) }
            Rvalue::WrapUnsafeBinder(x, _) => { let j = self.op(x, body); a(vec![J::s("use"), j]) }
        }
    }
    fn stmt(&mut self, s: &Statement<'tcx>, body: &Body<'tcx>) -> Option<J> {
        let sp = self.sp(s.source_info.span);
        Some(match &s.kind {
            StatementKind::Assign(x) => {
                let p = self.place(&x.0, body);
                let t = x.0.ty(&body.local_decls, self.tcx).ty;
                let r = self.rv(&x.1, body);
                a(vec![J::s("="), p, r, sp, J::u(self.ty(t))])
            }
            StatementKind::SetDiscriminant { place, variant_index } => {
                let p = self.place(place, body);
                a(vec![J::s("sd"), p, J::u(variant_index.as_usize()), sp])
            }
            StatementKind::StorageDead(l) => a(vec![J::s("dead"), J::u(l.as_usize())]),
            StatementKind::Intrinsic(i) => {
                let _ = i;
                match &**i {
                    NonDivergingIntrinsic::Assume(x) => { let j = self.op(x, body); a(vec![J::s("assume"), j, sp]) }
                    _ => a(vec![J::s("copyno"), sp]),
                }
            }
            _ => return None,
        })
    }
    fn term(&mut self, t: &Terminator<'tcx>, body: &Body<'tcx>) -> J {
        let sp = self.sp(t.source_info.span);
        let bb = |b: &BasicBlock| J::u(b.as_usize());
        match &t.kind {
            TerminatorKind::Goto { target, .. } => a(vec![J::s("goto"), bb(target)]),
            TerminatorKind::FalseEdge { real_target, .. } => a(vec![J::s("goto"), bb(real_target)]),
            TerminatorKind::FalseUnwind { real_target, .. } => a(vec![J::s("goto"), bb(real_target)]),
            TerminatorKind::SwitchInt { discr, targets } => {
                let d = self.op(discr, body);
                let ty = discr.ty(&body.local_decls, self.tcx);
                let size = match ty.kind() { ty::Int(i) => i.bit_width().map(|b| b as u32).unwrap_or(64), _ => 0 };
                let vs = targets.iter().map(|(v, b)| {
                    let v = if size > 0 { let sh = 128 - size; (((v as i128) << sh) >> sh) as i128 } else { v as i128 };
                    a(vec![J::I(v), bb(&b)])
                }).collect();
                a(vec![J::s("switch"), d, a(vs), bb(&targets.otherwise()), J::u(self.ty(ty)), sp])
            }
            TerminatorKind::Return => a(vec![J::s("ret"), sp]),
            TerminatorKind::Unreachable => a(vec![J::s("unreach"), sp]),
            TerminatorKind::Drop { place, target, .. } => {
                let p = self.place(place, body);
                let ty = place.ty(&body.local_decls, self.tcx).ty;
                a(vec![J::s("drop"), p, bb(target), J::u(self.ty(ty)), sp])
            }
            TerminatorKind::Call { func, args, destination, target, fn_span, .. } => {
                let fj = match func.ty(&body.local_decls, self.tcx).kind() {
                    ty::FnDef(d, ga) => { let ga = ga.skip_binder(); self.resolve((*d).into(), ga) }
                    _ => { let j = self.op(func, body); o(vec![("dynf", j)]) }
                };
                let av: Vec<J> = args.iter().map(|x| self.op(&x.node, body)).collect();
                let d = self.place(destination, body);
                let dt = destination.ty(&body.local_decls, self.tcx).ty;
                let tg = target.as_ref().map(|b| bb(b)).unwrap_or(J::Null);
                let dti = self.ty(dt);
                let fs = self.sp(*fn_span);
                a(vec![J::s("call"), fj, a(av), d, tg, sp, J::u(dti), fs])
            }
            TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                let c = self.op(cond, body);
                let (k, ops): (String, Vec<J>) = match &**msg {
                    AssertKind::BoundsCheck { len, index } => ("bounds".into(), vec![self.op(len, body), self.op(index, body)]),
                    AssertKind::Overflow(b, l, r) => (format!("overflow_{:?}", b), vec![self.op(l, body), self.op(r, body)]),
                    AssertKind::OverflowNeg(x) => ("overflow_neg".into(), vec![self.op(x, body)]),
                    AssertKind::DivisionByZero(x) => ("div_zero".into(), vec![self.op(x, body)]),
                    AssertKind::RemainderByZero(x) => ("rem_zero".into(), vec![self.op(x, body)]),
                    _ => ("other".into(), vec![]),
                };
                a(vec![J::s("assert"), c, J::B(*expected), J::s(k), a(ops), bb(target), sp])
            }
            TerminatorKind::Yield { value, resume, resume_arg, .. } => {
                let v = self.op(value, body);
                let p = self.place(resume_arg, body);
                a(vec![J::s("yield"), v, bb(resume), p, sp])
            }
            TerminatorKind::UnwindResume | TerminatorKind::UnwindTerminate(_) | TerminatorKind::CoroutineDrop => a(vec![J::s("unwind")]),
            TerminatorKind::TailCall { .. } | TerminatorKind::InlineAsm { .. } => a(vec![J::s("unsupported"), sp]),
        }
    }
}

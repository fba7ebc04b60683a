// graviola fact extractor.
//
// Runs as RUSTC_WORKSPACE_WRAPPER under `cargo +nightly check`.  After type checking it writes the
// type-checked program of the crate as JSON: monomorphic MIR for every function of the crate
// (generic functions are instantiated with every local implementor of the traits they are bounded
// by), plus type layouts, ADTs, trait impls, statics and evaluated constants.  It never runs any
// code of the crate.
#![feature(rustc_private)]
#![allow(clippy::all)]
extern crate rustc_abi;
extern crate rustc_ast;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_index;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_session;
extern crate rustc_span;
extern crate rustc_target;

use rustc_driver::Compilation;
use rustc_hir::def::DefKind;
use rustc_hir::def_id::{DefId, LOCAL_CRATE};
use rustc_middle::mir::*;
use rustc_middle::ty::print::{with_no_trimmed_paths, with_no_visible_paths, with_resolve_crate_name};
use rustc_middle::ty::{self, GenericArgsRef, Instance, Ty, TyCtxt, TypeVisitableExt, TypingEnv};
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet, VecDeque};
use std::fmt::Write as _;

// ---------------------------------------------------------------- JSON
#[derive(Clone)]
enum J {
    Null,
    B(bool),
    N(i128),
    U(u128),
    S(String),
    A(Vec<J>),
    O(Vec<(&'static str, J)>),
    M(BTreeMap<String, J>),
}
fn s<T: ToString>(x: T) -> J {
    J::S(x.to_string())
}
fn n<T: TryInto<i128>>(x: T) -> J {
    J::N(x.try_into().ok().unwrap_or(-1))
}
impl J {
    fn w(&self, o: &mut String) {
        match self {
            J::Null => o.push_str("null"),
            J::B(b) => o.push_str(if *b { "true" } else { "false" }),
            J::N(x) => {
                let _ = write!(o, "{x}");
            }
            J::U(x) => {
                let _ = write!(o, "{x}");
            }
            J::S(x) => {
                o.push('"');
                for c in x.chars() {
                    match c {
                        '"' => o.push_str("\\\""),
                        '\\' => o.push_str("\\\\"),
                        '\n' => o.push_str("\\n"),
                        c if (c as u32) < 0x20 => {
                            let _ = write!(o, "\\u{:04x}", c as u32);
                        }
                        c => o.push(c),
                    }
                }
                o.push('"');
            }
            J::A(v) => {
                o.push('[');
                for (i, x) in v.iter().enumerate() {
                    if i > 0 {
                        o.push(',');
                    }
                    x.w(o);
                }
                o.push(']');
            }
            J::O(v) => {
                o.push('{');
                for (i, (k, x)) in v.iter().enumerate() {
                    if i > 0 {
                        o.push(',');
                    }
                    let _ = write!(o, "\"{k}\":");
                    x.w(o);
                }
                o.push('}');
            }
            J::M(v) => {
                o.push('{');
                for (i, (k, x)) in v.iter().enumerate() {
                    if i > 0 {
                        o.push(',');
                    }
                    J::S(k.clone()).w(o);
                    o.push(':');
                    x.w(o);
                }
                o.push('}');
            }
        }
    }
}

// ---------------------------------------------------------------- collector
struct Cx<'tcx> {
    tcx: TyCtxt<'tcx>,
    types: Vec<J>,
    type_ids: HashMap<Ty<'tcx>, usize>,
    keys: HashMap<Instance<'tcx>, String>,
    used_keys: HashSet<String>,
    queue: VecDeque<Instance<'tcx>>,
    adts: BTreeMap<String, J>,
    adt_seen: HashSet<DefId>,
    promoted: BTreeMap<String, J>,
}

const INLINE_PREFIX: &[&str] = &[
    "core::option::",
    "core::result::",
    "core::ops::control_flow::",
    "core::ops::try_trait::",
    "core::ops::function::",
    "core::bool::",
    "core::convert::",
    "core::mem::take",
    "core::mem::replace",
    "core::mem::swap",
    "core::cmp::",
    "core::slice::cmp",
    "core::array::equality",
    "core::ops::range::",
    "core::ops::deref",
    "core::array::",
    "alloc::boxed::",
];

fn path<'tcx>(tcx: TyCtxt<'tcx>, d: DefId) -> String {
    with_no_visible_paths!(with_no_trimmed_paths!(with_resolve_crate_name!(tcx.def_path_str(d))))
}
fn path_args<'tcx>(tcx: TyCtxt<'tcx>, d: DefId, a: GenericArgsRef<'tcx>) -> String {
    with_no_visible_paths!(with_no_trimmed_paths!(with_resolve_crate_name!(
        tcx.def_path_str_with_args(d, a)
    )))
}
fn ty_str<'tcx>(t: Ty<'tcx>) -> String {
    with_no_visible_paths!(with_no_trimmed_paths!(with_resolve_crate_name!(t.to_string())))
}

impl<'tcx> Cx<'tcx> {
    fn span(&self, sp: rustc_span::Span) -> (String, usize) {
        let sp = sp.source_callsite();
        let sm = self.tcx.sess.source_map();
        let lo = sm.lookup_char_pos(sp.lo());
        let f = lo.file.name.prefer_local_unconditionally().to_string();
        (f, lo.line)
    }
    fn line(&self, sp: rustc_span::Span) -> J {
        n(self.span(sp).1 as i128)
    }

    fn ty(&mut self, t: Ty<'tcx>) -> usize {
        if let Some(i) = self.type_ids.get(&t) {
            return *i;
        }
        let id = self.types.len();
        self.types.push(J::Null);
        self.type_ids.insert(t, id);
        let tcx = self.tcx;
        let mut o: Vec<(&'static str, J)> = vec![("s", s(ty_str(t)))];
        let k;
        match t.kind() {
            ty::Bool => k = "bool",
            ty::Char => k = "char",
            ty::Int(_) => k = "int",
            ty::Uint(_) => k = "uint",
            ty::Float(_) => k = "float",
            ty::Str => k = "str",
            ty::Never => k = "never",
            ty::Adt(def, args) => {
                k = "adt";
                o.push(("path", s(path(tcx, def.did()))));
                o.push(("local", J::B(def.did().is_local())));
                let mut a = vec![];
                for g in args.iter() {
                    if let Some(t) = g.as_type() {
                        a.push(n(self.ty(t) as i128));
                    } else if let Some(c) = g.as_const() {
                        a.push(s(c.to_string()));
                    }
                }
                o.push(("args", J::A(a)));
                // instantiated fields
                let mut vs = vec![];
                if !def.is_union() || true {
                    for v in def.variants() {
                        let mut fs = vec![];
                        for f in v.fields.iter() {
                            let env = TypingEnv::fully_monomorphized();
                            let ft = tcx.type_of(f.did);
                            let ft = if args.has_param() || args.has_escaping_bound_vars() {
                                ft.instantiate(tcx, args).skip_norm_wip()
                            } else {
                                match tcx.try_instantiate_and_normalize_erasing_regions(args, env, ft) {
                                    Ok(t) => t,
                                    Err(_) => ft.instantiate(tcx, args).skip_norm_wip(),
                                }
                            };
                            let interesting = def.did().is_local()
                                || matches!(path(tcx, def.did()).as_str(),
                                    "core::option::Option" | "core::result::Result" | "core::ops::control_flow::ControlFlow")
                                || path(tcx, def.did()).starts_with("graviola::");
                            let fty = if interesting { n(self.ty(ft) as i128) } else { J::Null };
                            fs.push(J::A(vec![s(f.name), fty]));
                        }
                        vs.push(J::A(vec![s(v.name), J::A(fs)]));
                    }
                }
                o.push(("variants", J::A(vs)));
                self.adt(def.did());
            }
            ty::Array(e, len) => {
                k = "array";
                let e = self.ty(*e);
                o.push(("e", n(e as i128)));
                match len.try_to_target_usize(tcx) {
                    Some(x) => o.push(("n", n(x as i128))),
                    None => o.push(("n", J::Null)),
                }
            }
            ty::Slice(e) => {
                k = "slice";
                let e = self.ty(*e);
                o.push(("e", n(e as i128)));
            }
            ty::Ref(_, e, m) => {
                k = "ref";
                let e = self.ty(*e);
                o.push(("e", n(e as i128)));
                o.push(("mut", J::B(m.is_mut())));
            }
            ty::RawPtr(e, m) => {
                k = "ptr";
                let e = self.ty(*e);
                o.push(("e", n(e as i128)));
                o.push(("mut", J::B(m.is_mut())));
            }
            ty::Tuple(ts) => {
                k = "tuple";
                let v = ts.iter().map(|t| n(self.ty(t) as i128)).collect();
                o.push(("es", J::A(v)));
            }
            ty::FnDef(d, a) => {
                k = "fndef";
                o.push(("path", s(path(tcx, *d))));
                if matches!(tcx.def_kind(*d), DefKind::Ctor(..)) {
                    o.push(("ctor", J::B(true)));
                } else {
                    let a = a.skip_binder();
                    if !a.has_param() && !a.has_escaping_bound_vars() {
                        if let Ok(Some(i)) = Instance::try_resolve(tcx, TypingEnv::fully_monomorphized(), *d, a) {
                            let k = self.key(i);
                            o.push(("key", s(k)));
                        }
                    }
                }
            }
            ty::FnPtr(..) => k = "fnptr",
            ty::Closure(d, a) => {
                k = "closure";
                o.push(("path", s(path(tcx, *d))));
                let ups: Vec<Ty<'tcx>> = a.as_closure().upvar_tys().iter().collect();
                let v = ups.into_iter().map(|t| n(self.ty(t) as i128)).collect();
                o.push(("es", J::A(v)));
            }
            ty::Dynamic(preds, ..) => {
                k = "dyn";
                if let Some(p) = preds.principal_def_id() {
                    o.push(("path", s(path(tcx, p))));
                }
            }
            ty::Param(p) => {
                k = "param";
                o.push(("path", s(p.name)));
            }
            ty::Alias(..) => k = "alias",
            _ => k = "other",
        }
        o.push(("k", s(k)));
        if !t.has_param() && !t.has_escaping_bound_vars() && !t.has_aliases() {
            if let Ok(l) = tcx.layout_of(TypingEnv::fully_monomorphized().as_query_input(t)) {
                if l.is_sized() {
                    o.push(("size", n(l.size.bytes() as i128)));
                }
            }
            let env = TypingEnv::fully_monomorphized();
            o.push(("needs_drop", J::B(t.needs_drop(tcx, env))));
            o.push(("freeze", J::B(t.is_freeze(tcx, env))));
        }
        self.types[id] = J::O(o);
        id
    }

    fn adt(&mut self, d: DefId) {
        if !self.adt_seen.insert(d) {
            return;
        }
        let tcx = self.tcx;
        if !d.is_local() {
            return;
        }
        let def = tcx.adt_def(d);
        let mut vs = vec![];
        for v in def.variants() {
            let mut fs = vec![];
            for f in v.fields.iter() {
                let t = tcx.type_of(f.did).instantiate_identity().skip_norm_wip();
                let ts = ty_str(t);
                let tid = self.ty(t);
                fs.push(J::O(vec![
                    ("name", s(f.name)),
                    ("ty", s(ts)),
                    ("tyid", n(tid as i128)),
                    ("pub", J::B(f.vis.is_public())),
                    ("vis", s(format!("{:?}", f.vis))),
                ]));
            }
            vs.push(J::O(vec![("name", s(v.name)), ("fields", J::A(fs))]));
        }
        let (f, l) = self.span(tcx.def_span(d));
        let ev = tcx.effective_visibilities(());
        let reach = d.as_local().map(|l| ev.is_reachable(l)).unwrap_or(true);
        let self_ty = tcx.type_of(d).instantiate_identity().skip_norm_wip();
        let selfid = self.ty(self_ty);
        let dtor = tcx.adt_destructor(d).map(|x| s(path(tcx, x.did))).unwrap_or(J::Null);
        self.adts.insert(
            path(tcx, d),
            J::O(vec![
                ("kind", s(if def.is_enum() { "enum" } else if def.is_union() { "union" } else { "struct" })),
                ("variants", J::A(vs)),
                ("file", s(f)),
                ("line", n(l as i128)),
                ("reachable", J::B(reach)),
                ("ty", n(selfid as i128)),
                ("dtor", dtor),
                ("n_generics", n(tcx.generics_of(d).own_params.iter().filter(|p| !matches!(p.kind, ty::GenericParamDefKind::Lifetime)).count() as i128)),
            ]),
        );
    }

    fn key(&mut self, i: Instance<'tcx>) -> String {
        if let Some(k) = self.keys.get(&i) {
            return k.clone();
        }
        let tcx = self.tcx;
        let d = i.def_id();
        let mut k = if tcx.is_closure_like(d) {
            // name a closure by its parent's instantiation
            let root = tcx.typeck_root_def_id(d);
            let cnt = tcx.generics_of(root).count();
            let parent_args = tcx.mk_args(&i.args[..cnt.min(i.args.len())]);
            let rp = path(tcx, root);
            let full = path(tcx, d);
            let suffix = full.strip_prefix(&rp).unwrap_or(&full).to_string();
            format!("{}{}", path_args(tcx, root, parent_args), suffix)
        } else {
            path_args(tcx, d, i.args)
        };
        if let ty::InstanceKind::Shim(sh) = i.def {
            k = format!("{k}{{shim:{}}}", match sh {
                ty::ShimKind::DropGlue(_, t) => format!("drop {}", t.map(|t| ty_str(t)).unwrap_or_default()),
                ty::ShimKind::ClosureOnce { .. } => "once".to_string(),
                ty::ShimKind::Clone(_, t) => format!("clone {}", ty_str(t)),
                ty::ShimKind::FnPtr(_, t) => format!("fnptr {}", ty_str(t)),
                _ => "other".to_string(),
            });
        }
        let base = k.clone();
        let mut c = 1;
        while self.used_keys.contains(&k) {
            c += 1;
            k = format!("{base}~{c}");
        }
        self.used_keys.insert(k.clone());
        self.keys.insert(i, k.clone());
        if self.wants_body(i) {
            self.queue.push_back(i);
        }
        k
    }

    fn wants_body(&self, i: Instance<'tcx>) -> bool {
        let tcx = self.tcx;
        let d = i.def_id();
        match i.def {
            ty::InstanceKind::Item(_) => {}
            ty::InstanceKind::Shim(ty::ShimKind::ClosureOnce { .. }) => return true,
            _ => return false,
        }
        if !matches!(tcx.def_kind(d), DefKind::Fn | DefKind::AssocFn | DefKind::Closure) {
            return false;
        }
        if d.is_local() {
            return true;
        }
        if !tcx.is_mir_available(d) {
            return false;
        }
        let p = path(tcx, d);
        let p2 = p.trim_start_matches('<');
        if p.starts_with("graviola::") || p2.starts_with("graviola::") {
            return true;
        }
        // trait impl paths print as <T as Trait>::f, so look at the defining module
        let cname = tcx.crate_name(d.krate).to_string();
        let dp = tcx.def_path(d);
        let mut q = cname;
        for e in dp.data.iter() {
            if let rustc_hir::definitions::DefPathData::TypeNs(nm) | rustc_hir::definitions::DefPathData::ValueNs(nm) = e.data {
                q.push_str("::");
                q.push_str(nm.as_str());
            }
        }
        INLINE_PREFIX.iter().any(|x| p.starts_with(x) || q.starts_with(x))
    }

    // ------------------------------------------------------------ constants
    fn alloc_bytes(&self, id: rustc_middle::mir::interpret::AllocId, off: u64, len: Option<u64>, cap: u64) -> Option<(String, u64, Vec<(u64, String)>)> {
        self.alloc_bytes_at(id, off, len, cap, 0)
    }

    fn alloc_bytes_at(&self, id: rustc_middle::mir::interpret::AllocId, off: u64, len: Option<u64>, cap: u64, depth: u32) -> Option<(String, u64, Vec<(u64, String)>)> {
        match self.tcx.try_get_global_alloc(id)? {
            rustc_middle::mir::interpret::GlobalAlloc::Memory(m) => {
                let a = m.inner();
                let total = a.size().bytes();
                let end = len.map(|l| off + l).unwrap_or(total).min(total);
                if off > end {
                    return None;
                }
                let l = (end - off).min(cap);
                let b = a.inspect_with_uninit_and_ptr_outside_interpreter(off as usize..(off + l) as usize);
                let mut h = String::with_capacity(b.len() * 2);
                for x in b {
                    let _ = write!(h, "{x:02x}");
                }
                let mut rel = vec![];
                for (o, p) in a.provenance().ptrs().iter() {
                    let o = o.bytes();
                    if o >= off && o < off + l {
                        let tgt = match self.tcx.try_get_global_alloc(p.alloc_id()) {
                            Some(rustc_middle::mir::interpret::GlobalAlloc::Static(d)) => format!("static {}", path(self.tcx, d)),
                            Some(rustc_middle::mir::interpret::GlobalAlloc::Function { instance, .. }) => format!("fn {}", path_args(self.tcx, instance.def_id(), instance.args)),
                            Some(rustc_middle::mir::interpret::GlobalAlloc::VTable(t, _)) => format!("vtable {}", ty_str(t)),
                            Some(rustc_middle::mir::interpret::GlobalAlloc::Memory(_)) => {
                                if depth < 4 {
                                    match self.alloc_bytes_at(p.alloc_id(), 0, None, 4096, depth + 1) {
                                        Some((h, n, r)) => format!("mem {n} {h} {r:?}"),
                                        None => "mem".to_string(),
                                    }
                                } else {
                                    "mem".to_string()
                                }
                            }
                            _ => "?".to_string(),
                        };
                        rel.push((o - off, tgt));
                    }
                }
                Some((h, end - off, rel))
            }
            _ => None,
        }
    }

    fn const_val(&mut self, v: ConstValue, t: Ty<'tcx>, o: &mut Vec<(&'static str, J)>) {
        let tcx = self.tcx;
        if matches!(t.kind(), ty::Adt(d, _) if !d.is_union()) || matches!(t.kind(), ty::Tuple(_)) {
            if let Some(d) = tcx.try_destructure_mir_constant_for_user_output(v, t) {
                let fs: Vec<_> = d.fields.iter().cloned().collect();
                let vi = d.variant.map(|v| v.index() as i128).unwrap_or(0);
                let mut js = vec![];
                for (fv, ft) in fs {
                    let mut fo: Vec<(&'static str, J)> = vec![("ty", n(self.ty(ft) as i128))];
                    self.const_val(fv, ft, &mut fo);
                    js.push(J::O(fo));
                }
                o.push(("vi", n(vi)));
                o.push(("fs", J::A(js)));
            }
        }
        match v {
            ConstValue::Scalar(sc) => match sc {
                rustc_middle::mir::interpret::Scalar::Int(i) => {
                    let bits = i.to_bits(i.size());
                    let j = match t.kind() {
                        ty::Int(_) => J::N(i.size().sign_extend(bits)),
                        _ => J::U(bits),
                    };
                    o.push(("v", j));
                }
                rustc_middle::mir::interpret::Scalar::Ptr(p, _) => {
                    let (prov, off) = p.prov_and_relative_offset();
                    match tcx.try_get_global_alloc(prov.alloc_id()) {
                        Some(rustc_middle::mir::interpret::GlobalAlloc::Static(d)) => o.push(("static", s(path(tcx, d)))),
                        Some(rustc_middle::mir::interpret::GlobalAlloc::Function { instance, .. }) => {
                            let k = self.key(instance);
                            o.push(("fnptr", s(k)))
                        }
                        Some(rustc_middle::mir::interpret::GlobalAlloc::Memory(_)) => {
                            if let Some((h, len, rel)) = self.alloc_bytes(prov.alloc_id(), off.bytes(), None, 512) {
                                o.push(("refbytes", s(h)));
                                o.push(("reflen", n(len as i128)));
                                if !rel.is_empty() {
                                    o.push(("rel", J::A(rel.into_iter().map(|(a, b)| J::A(vec![n(a as i128), s(b)])).collect())));
                                }
                            }
                        }
                        _ => {}
                    }
                }
            },
            ConstValue::ZeroSized => o.push(("zst", J::B(true))),
            ConstValue::Slice { alloc_id, meta } => {
                let el = match t.builtin_deref(true).map(|t| t.kind().clone()) {
                    Some(ty::Str) => 1,
                    Some(ty::Slice(e)) => tcx
                        .layout_of(TypingEnv::fully_monomorphized().as_query_input(e))
                        .map(|l| l.size.bytes())
                        .unwrap_or(1),
                    _ => 1,
                };
                if let Some((h, _, rel)) = self.alloc_bytes(alloc_id, 0, Some(meta * el), 1024) {
                    o.push(("slice", s(h)));
                    o.push(("len", n(meta as i128)));
                    if !rel.is_empty() {
                        o.push(("rel", J::A(rel.into_iter().map(|(a, b)| J::A(vec![n(a as i128), s(b)])).collect())));
                    }
                }
            }
            ConstValue::Indirect { alloc_id, offset } => {
                let size = tcx
                    .layout_of(TypingEnv::fully_monomorphized().as_query_input(t))
                    .ok()
                    .map(|l| l.size.bytes());
                if let Some((h, len, rel)) = self.alloc_bytes(alloc_id, offset.bytes(), size, 4096) {
                    o.push(("bytes", s(h)));
                    o.push(("len", n(len as i128)));
                    if !rel.is_empty() {
                        o.push(("rel", J::A(rel.into_iter().map(|(a, b)| J::A(vec![n(a as i128), s(b)])).collect())));
                    }
                }
            }
        }
    }

    fn konst(&mut self, c: &ConstOperand<'tcx>, env: TypingEnv<'tcx>) -> J {
        let tcx = self.tcx;
        let t = c.const_.ty();
        let mut o: Vec<(&'static str, J)> = vec![];
        if let ty::FnDef(d, a) = t.kind() {
            let a = a.skip_binder();
            o.push(("fn", self.callee(*d, a, env)));
            return J::O(o);
        }
        o.push(("ty", n(self.ty(t) as i128)));
        if let Const::Unevaluated(u, _) = c.const_ {
            o.push(("def", s(path(tcx, u.def))));
            if let Some(p) = u.promoted {
                let inst = Instance::new_raw(u.def, u.args);
                let base = if u.args.has_param() { path(tcx, u.def) } else { path_args(tcx, inst.def_id(), u.args) };
                let pk = format!("{base}::promoted{}", p.index());
                o.push(("promoted", s(&pk)));
                if !self.promoted.contains_key(&pk) {
                    self.promoted.insert(pk.clone(), J::Null);
                    let pm = tcx.promoted_mir(u.def);
                    let b = pm[p].clone();
                    let b = if u.args.has_param() { b } else {
                        tcx.try_instantiate_and_normalize_erasing_regions(u.args, env, ty::EarlyBinder::bind(tcx, b.clone())).unwrap_or(b)
                    };
                    let j = self.body(&b, env);
                    self.promoted.insert(pk, j);
                }
            }
        }
        if let Ok(v) = c.const_.eval(tcx, env, rustc_span::DUMMY_SP) {
            self.const_val(v, t, &mut o);
        } else {
            o.push(("dbg", s(with_no_trimmed_paths!(format!("{}", c.const_)))));
        }
        J::O(o)
    }

    fn callee(&mut self, d: DefId, a: GenericArgsRef<'tcx>, env: TypingEnv<'tcx>) -> J {
        let tcx = self.tcx;
        let mut o: Vec<(&'static str, J)> = vec![("path", s(path(tcx, d)))];
        let mut targs = vec![];
        for g in a.iter() {
            if let Some(t) = g.as_type() {
                targs.push(n(self.ty(t) as i128));
            } else if let Some(c) = g.as_const() {
                match c.try_to_target_usize(tcx) {
                    Some(x) => targs.push(J::A(vec![n(x as i128)])),
                    None => targs.push(s(c.to_string())),
                }
            }
        }
        o.push(("targs", J::A(targs)));
        if let Some(tr) = tcx.trait_of_assoc(d) {
            o.push(("trait", s(path(tcx, tr))));
        }
        if matches!(tcx.def_kind(d), DefKind::Ctor(..)) {
            o.push(("ctor", J::B(true)));
            o.push(("key", s(path(tcx, d))));
            return J::O(o);
        }
        let mut done = false;
        if !a.has_escaping_bound_vars() {
            if let Ok(Some(i)) = Instance::try_resolve(tcx, env, d, a) {
                match i.def {
                    ty::InstanceKind::Virtual(..) => {
                        o.push(("virtual", J::B(true)));
                    }
                    _ => {
                        let resolved_params = i.args.has_param();
                        o.push(("rpath", s(path(tcx, i.def_id()))));
                        o.push(("local", J::B(i.def_id().is_local())));
                        if !resolved_params {
                            let k = self.key(i);
                            o.push(("key", s(k)));
                        } else {
                            o.push(("key", s(path(tcx, i.def_id()))));
                            o.push(("poly", J::B(true)));
                        }
                        done = true;
                        if matches!(i.def, ty::InstanceKind::Intrinsic(_)) {
                            o.push(("intrinsic", J::B(true)));
                        }
                        let cd = i.def_id();
                        if matches!(tcx.def_kind(cd), DefKind::Fn | DefKind::AssocFn) {
                            let at = tcx.codegen_fn_attrs(cd);
                            if !at.target_features.is_empty() {
                                o.push(("tf", J::A(at.target_features.iter().map(|f| s(f.name)).collect())));
                            }
                            let sig = tcx.fn_sig(cd).skip_binder();
                            if !sig.safety().is_safe() {
                                o.push(("unsafe", J::B(true)));
                            }
                        }
                    }
                }
            }
        }
        if !done {
            o.push(("key", s(path(tcx, d))));
            o.push(("unresolved", J::B(true)));
        }
        J::O(o)
    }

    // ------------------------------------------------------------ MIR
    fn place(&mut self, p: &Place<'tcx>) -> J {
        let mut v = vec![];
        for e in p.projection.iter() {
            v.push(match e {
                ProjectionElem::Deref => s("*"),
                ProjectionElem::Field(f, t) => J::A(vec![s("f"), n(f.index() as i128), n(self.ty(t) as i128)]),
                ProjectionElem::Index(l) => J::A(vec![s("i"), n(l.index() as i128)]),
                ProjectionElem::ConstantIndex { offset, min_length, from_end } => {
                    J::A(vec![s("ci"), n(offset as i128), n(min_length as i128), J::B(from_end)])
                }
                ProjectionElem::Subslice { from, to, from_end } => {
                    J::A(vec![s("ss"), n(from as i128), n(to as i128), J::B(from_end)])
                }
                ProjectionElem::Downcast(nm, i) => {
                    J::A(vec![s("d"), n(i.index() as i128), nm.map(|x| s(x)).unwrap_or(J::Null)])
                }
                _ => J::A(vec![s("?")]),
            });
        }
        J::A(vec![n(p.local.index() as i128), J::A(v)])
    }

    fn op(&mut self, o: &Operand<'tcx>, env: TypingEnv<'tcx>) -> J {
        match o {
            Operand::Copy(p) => J::A(vec![s("c"), self.place(p)]),
            Operand::Move(p) => J::A(vec![s("m"), self.place(p)]),
            Operand::Constant(c) => J::A(vec![s("k"), self.konst(c, env)]),
            o => J::A(vec![s("k"), J::O(vec![("dbg", s(format!("{o:?}")))])]),
        }
    }

    fn rv(&mut self, r: &Rvalue<'tcx>, env: TypingEnv<'tcx>) -> J {
        match r {
            Rvalue::Use(o, ..) => J::A(vec![s("use"), self.op(o, env)]),
            Rvalue::Repeat(o, c) => J::A(vec![
                s("rep"),
                self.op(o, env),
                c.try_to_target_usize(self.tcx).map(|x| n(x as i128)).unwrap_or(J::Null),
            ]),
            Rvalue::Ref(_, k, p) => J::A(vec![
                s("ref"),
                s(match k {
                    BorrowKind::Shared => "&",
                    BorrowKind::Fake(_) => "fake",
                    BorrowKind::Mut { .. } => "&mut",
                    #[allow(unreachable_patterns)]
                    _ => "&",
                }),
                self.place(p),
            ]),
            Rvalue::RawPtr(k, p) => J::A(vec![s("raw"), s(format!("{k:?}")), self.place(p)]),
            Rvalue::Cast(k, o, t) => J::A(vec![s("cast"), s(format!("{k:?}")), self.op(o, env), n(self.ty(*t) as i128)]),
            Rvalue::BinaryOp(b, ops) => J::A(vec![s("bin"), s(format!("{b:?}")), self.op(&ops.0, env), self.op(&ops.1, env)]),
            Rvalue::UnaryOp(u, o) => J::A(vec![s("un"), s(format!("{u:?}")), self.op(o, env)]),
            Rvalue::Discriminant(p) => J::A(vec![s("disc"), self.place(p)]),
            Rvalue::CopyForDeref(p) => J::A(vec![s("use"), J::A(vec![s("c"), self.place(p)])]),
            Rvalue::Reborrow(_, m, p) => J::A(vec![s("ref"), s(if m.is_mut() { "&mut" } else { "&" }), self.place(p)]),
            Rvalue::Aggregate(k, ops) => {
                let (kk, info) = match &**k {
                    AggregateKind::Array(t) => ("array", n(self.ty(*t) as i128)),
                    AggregateKind::Tuple => ("tuple", J::Null),
                    AggregateKind::Adt(d, vi, a, ..) => {
                        let def = self.tcx.adt_def(*d);
                        let var = def.variant(*vi);
                        let names: Vec<J> = var.fields.iter().map(|f| s(f.name)).collect();
                        let t = Ty::new_adt(self.tcx, def, a);
                        let tid = self.ty(t);
                        (
                            "adt",
                            J::O(vec![
                                ("path", s(path(self.tcx, *d))),
                                ("variant", s(var.name)),
                                ("vi", n(vi.index() as i128)),
                                ("fields", J::A(names)),
                                ("ty", n(tid as i128)),
                            ]),
                        )
                    }
                    AggregateKind::Closure(d, a) => {
                        let i = Instance::new_raw(*d, a);
                        let k = if a.has_param() { path(self.tcx, *d) } else { self.key(i) };
                        ("closure", s(k))
                    }
                    AggregateKind::RawPtr(..) => ("rawptr", J::Null),
                    _ => ("other", J::Null),
                };
                let ops = ops.iter().map(|o| self.op(o, env)).collect();
                J::A(vec![s("agg"), s(kk), info, J::A(ops)])
            }
            Rvalue::ThreadLocalRef(d) => J::A(vec![s("tls"), s(path(self.tcx, *d))]),
            r => J::A(vec![s("other"), s(format!("{r:?}"))]),
        }
    }

    fn body(&mut self, b: &Body<'tcx>, env: TypingEnv<'tcx>) -> J {
        let mut names: HashMap<usize, String> = HashMap::new();
        for v in &b.var_debug_info {
            if let VarDebugInfoContents::Place(p) = v.value {
                if p.projection.is_empty() {
                    names.entry(p.local.index()).or_insert(v.name.to_string());
                }
            }
        }
        let mut locals = vec![];
        for (i, l) in b.local_decls.iter_enumerated() {
            locals.push(J::A(vec![
                n(self.ty(l.ty) as i128),
                names.get(&i.index()).map(|x| s(x)).unwrap_or(J::Null),
            ]));
        }
        let mut blocks = vec![];
        for bb in b.basic_blocks.iter() {
            let mut st = vec![];
            for x in &bb.statements {
                let j = match &x.kind {
                    StatementKind::Assign(a) => J::A(vec![s("="), self.place(&a.0), self.rv(&a.1, env), self.line(x.source_info.span)]),
                    StatementKind::SetDiscriminant { place, variant_index } => {
                        J::A(vec![s("sd"), self.place(place), n(variant_index.index() as i128), self.line(x.source_info.span)])
                    }
                    StatementKind::StorageDead(l) => J::A(vec![s("dead"), n(l.index() as i128)]),
                    StatementKind::StorageLive(l) => J::A(vec![s("live"), n(l.index() as i128)]),
                    StatementKind::Intrinsic(i) => match &**i {
                        NonDivergingIntrinsic::Assume(o) => J::A(vec![s("assume"), self.op(o, env)]),
                        NonDivergingIntrinsic::CopyNonOverlapping(c) => {
                            J::A(vec![s("copyno"), self.op(&c.src, env), self.op(&c.dst, env), self.op(&c.count, env), self.line(x.source_info.span)])
                        }
                    },
                    _ => continue,
                };
                st.push(j);
            }
            let t = bb.terminator();
            let line = self.line(t.source_info.span);
            let uw = |u: &UnwindAction| match u {
                UnwindAction::Cleanup(b) => n(b.index() as i128),
                _ => J::Null,
            };
            let mut o: Vec<(&'static str, J)> = vec![];
            match &t.kind {
                TerminatorKind::Goto { target, .. } => {
                    o.push(("k", s("goto")));
                    o.push(("t", n(target.index() as i128)));
                }
                TerminatorKind::SwitchInt { discr, targets } => {
                    o.push(("k", s("switch")));
                    o.push(("d", self.op(discr, env)));
                    let dt = discr.ty(&b.local_decls, self.tcx);
                    o.push(("ty", n(self.ty(dt) as i128)));
                    o.push(("vals", J::A(targets.iter().map(|(v, b)| J::A(vec![J::U(v), n(b.index() as i128)])).collect())));
                    o.push(("else", n(targets.otherwise().index() as i128)));
                }
                TerminatorKind::Return => o.push(("k", s("return"))),
                TerminatorKind::Unreachable => o.push(("k", s("unreachable"))),
                TerminatorKind::UnwindResume | TerminatorKind::UnwindTerminate(_) => o.push(("k", s("resume"))),
                TerminatorKind::Drop { place, target, unwind, .. } => {
                    o.push(("k", s("drop")));
                    o.push(("place", self.place(place)));
                    let pt = place.ty(&b.local_decls, self.tcx).ty;
                    o.push(("ty", n(self.ty(pt) as i128)));
                    o.push(("t", n(target.index() as i128)));
                    o.push(("uw", uw(unwind)));
                }
                TerminatorKind::Call { func, args, destination, target, unwind, .. } => {
                    o.push(("k", s("call")));
                    o.push(("f", self.op(func, env)));
                    o.push(("args", J::A(args.iter().map(|a| self.op(&a.node, env)).collect())));
                    o.push(("dest", self.place(destination)));
                    o.push(("t", target.map(|t| n(t.index() as i128)).unwrap_or(J::Null)));
                    o.push(("uw", uw(unwind)));
                }
                TerminatorKind::Assert { cond, expected, msg, target, unwind } => {
                    o.push(("k", s("assert")));
                    o.push(("cond", self.op(cond, env)));
                    o.push(("exp", J::B(*expected)));
                    let m = match &**msg {
                        AssertKind::BoundsCheck { len, index } => J::A(vec![s("bounds"), self.op(len, env), self.op(index, env)]),
                        AssertKind::Overflow(..) => J::A(vec![s("overflow")]),
                        AssertKind::DivisionByZero(_) => J::A(vec![s("div0")]),
                        AssertKind::RemainderByZero(_) => J::A(vec![s("rem0")]),
                        _ => J::A(vec![s("other")]),
                    };
                    o.push(("msg", m));
                    o.push(("t", n(target.index() as i128)));
                    o.push(("uw", uw(unwind)));
                }
                TerminatorKind::InlineAsm { template, operands, options, targets, line_spans, asm_macro, .. } => {
                    o.push(("k", s("asm")));
                    o.push(("naked", J::B(!matches!(asm_macro, InlineAsmMacro::Asm))));
                    let mut tm = vec![];
                    for p in template.iter() {
                        tm.push(match p {
                            rustc_ast::InlineAsmTemplatePiece::String(x) => s(x.to_string()),
                            rustc_ast::InlineAsmTemplatePiece::Placeholder { operand_idx, modifier, .. } => {
                                J::A(vec![n(*operand_idx as i128), modifier.map(|c| s(c)).unwrap_or(J::Null)])
                            }
                        });
                    }
                    o.push(("tmpl", J::A(tm)));
                    let lo = line_spans.iter().map(|sp| self.line(*sp)).collect();
                    o.push(("lines", J::A(lo)));
                    let mut ops = vec![];
                    for x in operands.iter() {
                        ops.push(match x {
                            InlineAsmOperand::In { reg, value } => J::O(vec![("k", s("in")), ("reg", s(reg)), ("v", self.op(value, env)), ("ty", {
                                let t = value.ty(&b.local_decls, self.tcx);
                                n(self.ty(t) as i128)
                            })]),
                            InlineAsmOperand::Out { reg, late, place } => J::O(vec![
                                ("k", s("out")),
                                ("reg", s(reg)),
                                ("late", J::B(*late)),
                                ("p", place.as_ref().map(|p| self.place(p)).unwrap_or(J::Null)),
                            ]),
                            InlineAsmOperand::InOut { reg, late, in_value, out_place } => J::O(vec![
                                ("k", s("inout")),
                                ("reg", s(reg)),
                                ("late", J::B(*late)),
                                ("v", self.op(in_value, env)),
                                ("ty", {
                                    let t = in_value.ty(&b.local_decls, self.tcx);
                                    n(self.ty(t) as i128)
                                }),
                                ("p", out_place.as_ref().map(|p| self.place(p)).unwrap_or(J::Null)),
                            ]),
                            InlineAsmOperand::Const { value } => J::O(vec![("k", s("const")), ("v", self.konst(value, env))]),
                            InlineAsmOperand::SymFn { value } => J::O(vec![("k", s("symfn")), ("v", self.konst(value, env))]),
                            InlineAsmOperand::SymStatic { def_id } => J::O(vec![("k", s("symstatic")), ("v", s(path(self.tcx, *def_id)))]),
                            _ => J::O(vec![("k", s("label"))]),
                        });
                    }
                    o.push(("ops", J::A(ops)));
                    o.push(("opts", s(format!("{options:?}"))));
                    o.push(("ts", J::A(targets.iter().map(|t| n(t.index() as i128)).collect())));
                }
                TerminatorKind::FalseEdge { real_target, .. } | TerminatorKind::FalseUnwind { real_target, .. } => {
                    o.push(("k", s("goto")));
                    o.push(("t", n(real_target.index() as i128)));
                }
                _ => o.push(("k", s("other"))),
            }
            o.push(("line", line));
            blocks.push(J::O(vec![("s", J::A(st)), ("t", J::O(o)), ("cl", J::B(bb.is_cleanup))]));
        }
        J::O(vec![("argc", n(b.arg_count as i128)), ("locals", J::A(locals)), ("blocks", J::A(blocks))])
    }

    fn fn_info(&mut self, d: DefId, o: &mut Vec<(&'static str, J)>) {
        let tcx = self.tcx;
        o.push(("path", s(path(tcx, d))));
        o.push(("local", J::B(d.is_local())));
        let (f, l) = self.span(tcx.def_span(d));
        o.push(("file", s(f)));
        o.push(("line", n(l as i128)));
        if let Some(ld) = d.as_local() {
            let ev = tcx.effective_visibilities(());
            o.push(("reachable", J::B(ev.is_reachable(ld))));
            o.push(("vis", s(if matches!(tcx.def_kind(d), DefKind::Fn | DefKind::AssocFn) { format!("{:?}", tcx.visibility(d)) } else { String::new() })));
        }
        let dk = tcx.def_kind(d);
        o.push(("kind", s(format!("{dk:?}"))));
        if matches!(dk, DefKind::Fn | DefKind::AssocFn) {
            let at = tcx.codegen_fn_attrs(d);
            o.push(("tf", J::A(at.target_features.iter().map(|f| s(f.name)).collect())));
            let sig = tcx.fn_sig(d).skip_binder();
            o.push(("unsafe", J::B(!sig.safety().is_safe())));
            o.push(("has_self", J::B(tcx.opt_associated_item(d).map(|a| a.is_method()).unwrap_or(false))));
        }
        if dk == DefKind::AssocFn {
            let parent = tcx.parent(d);
            if matches!(tcx.def_kind(parent), DefKind::Impl { .. }) {
                let st = tcx.type_of(parent).instantiate_identity().skip_norm_wip();
                o.push(("self_ty", s(ty_str(st))));
                if let ty::Adt(def, _) = st.kind() {
                    o.push(("self_adt", s(path(tcx, def.did()))));
                }
                if let Some(tr) = tcx.impl_opt_trait_ref(parent) {
                    let tr = tr.instantiate_identity().skip_norm_wip();
                    o.push(("impl_trait", s(path(tcx, tr.def_id))));
                    o.push(("derived", J::B(tcx.is_automatically_derived(parent))));
                }
            } else if matches!(tcx.def_kind(parent), DefKind::Trait) {
                o.push(("in_trait", s(path(tcx, parent))));
            }
        }
        if dk == DefKind::Closure {
            o.push(("parent", s(path(tcx, tcx.typeck_root_def_id(d)))));
        }
    }

    /// Candidate instantiations of a generic local function: every local implementor of the local
    /// traits each type parameter is bounded by.
    fn instantiations(&mut self, d: DefId) -> Option<Vec<GenericArgsRef<'tcx>>> {
        let tcx = self.tcx;
        let g = tcx.generics_of(d);
        let ident = ty::GenericArgs::identity_for_item(tcx, d);
        let mut choices: Vec<Vec<ty::GenericArg<'tcx>>> = vec![];
        let preds = tcx.clauses_of(d).instantiate_identity(tcx);
        let clauses: Vec<ty::Clause<'tcx>> = preds.predicates_skip();
        let _ = g;
        for a in ident.iter() {
            match a.kind() {
                ty::GenericArgKind::Lifetime(_) => choices.push(vec![tcx.lifetimes.re_erased.into()]),
                ty::GenericArgKind::Const(_) => return None,
                ty::GenericArgKind::Type(t) => {
                    let mut cand: Option<Vec<Ty<'tcx>>> = None;
                    for c in &clauses {
                        if let Some(tp) = c.as_trait_clause() {
                            let tp = tp.skip_binder();
                            if tp.self_ty() != t {
                                continue;
                            }
                            let td = tp.trait_ref.def_id;
                            if !(td.is_local() || path(tcx, td).starts_with("graviola::")) {
                                continue;
                            }
                            let mut v = vec![];
                            for im in tcx.all_impls(td) {
                                let st = tcx.type_of(im).instantiate_identity().skip_norm_wip();
                                if !st.has_param() {
                                    v.push(tcx.erase_and_anonymize_regions(st));
                                }
                            }
                            cand = Some(match cand {
                                None => v,
                                Some(o) => o.into_iter().filter(|x| v.contains(x)).collect(),
                            });
                        }
                    }
                    match cand {
                        Some(v) if !v.is_empty() => choices.push(v.into_iter().map(|t| t.into()).collect()),
                        _ => return None,
                    }
                }
            }
        }
        let mut out: Vec<Vec<ty::GenericArg<'tcx>>> = vec![vec![]];
        for c in choices {
            let mut nx = vec![];
            for o in &out {
                for x in &c {
                    let mut y = o.clone();
                    y.push(*x);
                    nx.push(y);
                }
            }
            out = nx;
            if out.len() > 64 {
                return None;
            }
        }
        Some(out.into_iter().map(|v| tcx.mk_args(&v)).collect())
    }
}

trait PredSkip<'tcx> {
    fn predicates_skip(self) -> Vec<ty::Clause<'tcx>>;
}
impl<'tcx> PredSkip<'tcx> for ty::InstantiatedClauses<'tcx> {
    fn predicates_skip(self) -> Vec<ty::Clause<'tcx>> {
        self.clauses.into_iter().map(|c| c.skip_norm_wip()).collect()
    }
}

fn dump<'tcx>(tcx: TyCtxt<'tcx>, out: &str) {
    let mut cx = Cx {
        tcx,
        types: vec![],
        type_ids: HashMap::new(),
        keys: HashMap::new(),
        used_keys: HashSet::new(),
        queue: VecDeque::new(),
        adts: BTreeMap::new(),
        adt_seen: HashSet::new(),
        promoted: BTreeMap::new(),
    };
    let mut fns: BTreeMap<String, J> = BTreeMap::new();
    let mut statics: BTreeMap<String, J> = BTreeMap::new();
    let mut consts: BTreeMap<String, J> = BTreeMap::new();
    let mut traits: BTreeMap<String, J> = BTreeMap::new();

    // roots
    let mut poly: Vec<DefId> = vec![];
    for ld in tcx.hir_body_owners() {
        let d = ld.to_def_id();
        match tcx.def_kind(d) {
            DefKind::Fn | DefKind::AssocFn => {
                let g = tcx.generics_of(d);
                if !g.requires_monomorphization(tcx) {
                    let args = ty::GenericArgs::for_item(tcx, d, |_, _| tcx.lifetimes.re_erased.into());
                    let i = Instance::new_raw(d, args);
                    cx.key(i);
                } else if let Some(v) = cx.instantiations(d) {
                    for a in v {
                        let i = Instance::new_raw(d, a);
                        cx.key(i);
                    }
                } else {
                    poly.push(d);
                }
            }
            DefKind::Static { .. } => {
                let mut o: Vec<(&'static str, J)> = vec![];
                let t = tcx.type_of(d).instantiate_identity().skip_norm_wip();
                o.push(("ty", n(cx.ty(t) as i128)));
                o.push(("mut", J::B(tcx.is_mutable_static(d))));
                o.push(("tls", J::B(tcx.is_thread_local_static(d))));
                let (f, l) = cx.span(tcx.def_span(d));
                o.push(("file", s(f)));
                o.push(("line", n(l as i128)));
                o.push(("reachable", J::B(tcx.effective_visibilities(()).is_reachable(ld))));
                if let Ok(a) = tcx.eval_static_initializer(d) {
                    let a = a.inner();
                    let len = a.size().bytes().min(1 << 18);
                    let b = a.inspect_with_uninit_and_ptr_outside_interpreter(0..len as usize);
                    let mut h = String::new();
                    for x in b {
                        let _ = write!(h, "{x:02x}");
                    }
                    o.push(("bytes", s(h)));
                    o.push(("size", n(a.size().bytes() as i128)));
                    let mut rel = vec![];
                    for (off, p) in a.provenance().ptrs().iter() {
                        if let Some(r) = cx.alloc_bytes(p.alloc_id(), 0, None, 4096) {
                            rel.push(J::A(vec![n(off.bytes() as i128), s(format!("mem {} {} {:?}", r.1, r.0, r.2))]));
                        }
                    }
                    if !rel.is_empty() {
                        o.push(("rel", J::A(rel)));
                    }
                }
                let env = TypingEnv::fully_monomorphized();
                let b = tcx.mir_for_ctfe(d).clone();
                let bj = cx.body(&b, env);
                o.push(("body", bj));
                statics.insert(path(tcx, d), J::O(o));
            }
            DefKind::Const { .. } | DefKind::AssocConst { .. } => {
                let mut o: Vec<(&'static str, J)> = vec![];
                let t = tcx.type_of(d).instantiate_identity().skip_norm_wip();
                o.push(("ty", n(cx.ty(t) as i128)));
                let (f, l) = cx.span(tcx.def_span(d));
                o.push(("file", s(f)));
                o.push(("line", n(l as i128)));
                if !tcx.generics_of(d).requires_monomorphization(tcx) {
                    if let Ok(v) = tcx.const_eval_poly(d) {
                        cx.const_val(v, t, &mut o);
                    }
                    let env = TypingEnv::fully_monomorphized();
                    let b = tcx.mir_for_ctfe(d).clone();
                    let bj = cx.body(&b, env);
                    o.push(("body", bj));
                }
                consts.insert(path(tcx, d), J::O(o));
            }
            _ => {}
        }
    }
    // polymorphic leftovers, dumped as they are
    for d in poly {
        let mut o: Vec<(&'static str, J)> = vec![];
        cx.fn_info(d, &mut o);
        let env = TypingEnv::post_analysis(tcx, d);
        let b = tcx.optimized_mir(d).clone();
        let bj = cx.body(&b, env);
        o.push(("poly", J::B(true)));
        o.push(("body", bj));
        fns.insert(path(tcx, d), J::O(o));
    }
    // worklist
    while let Some(i) = cx.queue.pop_front() {
        let k = cx.key(i);
        let env = TypingEnv::fully_monomorphized();
        let b = tcx.instance_mir(i.def).clone();
        let b = match i.try_instantiate_mir_and_normalize_erasing_regions(tcx, env, ty::EarlyBinder::bind(tcx, b)) {
            Ok(b) => b,
            Err(_) => continue,
        };
        let mut o: Vec<(&'static str, J)> = vec![];
        cx.fn_info(i.def_id(), &mut o);
        let mut ga = vec![];
        for g in i.args.iter() {
            if let Some(t) = g.as_type() {
                ga.push(n(cx.ty(t) as i128));
            }
        }
        o.push(("targs", J::A(ga)));
        let bj = cx.body(&b, env);
        o.push(("body", bj));
        fns.insert(k, J::O(o));
    }
    // ADTs, impls, traits
    let mut impls = vec![];
    for id in tcx.hir_free_items() {
        let d = id.owner_id.to_def_id();
        match tcx.def_kind(d) {
            DefKind::Struct | DefKind::Enum | DefKind::Union => cx.adt(d),
            DefKind::Trait => {
                let items: Vec<J> = tcx.associated_items(d).in_definition_order().map(|a| s(a.name())).collect();
                let ev = tcx.effective_visibilities(());
                traits.insert(path(tcx, d), J::O(vec![("items", J::A(items)), ("reachable", J::B(ev.is_reachable(id.owner_id.def_id)))]));
            }
            DefKind::Impl { of_trait } => {
                let st = tcx.type_of(d).instantiate_identity().skip_norm_wip();
                let mut o: Vec<(&'static str, J)> = vec![("self", s(ty_str(st)))];
                o.push(("self_ty", n(cx.ty(st) as i128)));
                if let ty::Adt(def, _) = st.kind() {
                    o.push(("adt", s(path(tcx, def.did()))));
                }
                if of_trait {
                    if let Some(tr) = tcx.impl_opt_trait_ref(d) {
                        let tr = tr.instantiate_identity().skip_norm_wip();
                        o.push(("trait", s(path(tcx, tr.def_id))));
                        o.push(("trait_full", s(with_no_visible_paths!(with_no_trimmed_paths!(with_resolve_crate_name!(tr.to_string()))))));
                    }
                    o.push(("derived", J::B(tcx.is_automatically_derived(d))));
                }
                let (f, l) = cx.span(tcx.def_span(d));
                o.push(("file", s(f)));
                o.push(("line", n(l as i128)));
                let items: Vec<J> = tcx
                    .associated_items(d)
                    .in_definition_order()
                    .map(|a| J::A(vec![s(a.name()), s(path(tcx, a.def_id))]))
                    .collect();
                o.push(("items", J::A(items)));
                impls.push(J::O(o));
            }
            _ => {}
        }
    }
    // exported (reachable) items: public re-export names
    let mut exports = vec![];
    let mut stack: Vec<(DefId, String)> = vec![(LOCAL_CRATE.as_def_id(), tcx.crate_name(LOCAL_CRATE).to_string())];
    let mut seen: BTreeSet<String> = BTreeSet::new();
    while let Some((m, pfx)) = stack.pop() {
        if !seen.insert(pfx.clone()) || seen.len() > 2000 {
            continue;
        }
        for ch in tcx.module_children_local(m.expect_local()).iter() {
            if !ch.vis.is_public() {
                continue;
            }
            if let Some(cd) = ch.res.opt_def_id() {
                let name = format!("{pfx}::{}", ch.ident.name);
                if matches!(ch.res, rustc_hir::def::Res::Def(DefKind::Mod, _)) && cd.is_local() {
                    stack.push((cd, name.clone()));
                }
                exports.push(J::A(vec![s(name), s(path(tcx, cd)), s(format!("{:?}", tcx.def_kind(cd)))]));
            }
        }
    }
    let arch = tcx.sess.target.arch.to_string();
    let root = J::O(vec![
        ("crate", s(tcx.crate_name(LOCAL_CRATE))),
        ("arch", s(&arch)),
        ("types", J::A(cx.types)),
        ("fns", J::M(fns)),
        ("promoted", J::M(cx.promoted)),
        ("adts", J::M(cx.adts)),
        ("impls", J::A(impls)),
        ("traits", J::M(traits)),
        ("statics", J::M(statics)),
        ("consts", J::M(consts)),
        ("exports", J::A(exports)),
    ]);
    let mut o = String::new();
    root.w(&mut o);
    let f = format!("{out}/{}-{}.json", tcx.crate_name(LOCAL_CRATE), arch);
    std::fs::write(&f, o).expect("write facts");
}

struct Cb {
    out: Option<String>,
}
impl rustc_driver::Callbacks for Cb {
    fn after_analysis<'tcx>(&mut self, _c: &rustc_interface::interface::Compiler, tcx: TyCtxt<'tcx>) -> Compilation {
        if let Some(o) = &self.out {
            dump(tcx, o);
        }
        Compilation::Continue
    }
}

fn main() -> std::process::ExitCode {
    let mut args: Vec<String> = std::env::args().collect();
    // RUSTC_WORKSPACE_WRAPPER: argv[1] is the real rustc
    if args.len() > 1 && args[1].ends_with("rustc") {
        args.remove(1);
    }
    let mut crate_name = String::new();
    for w in args.windows(2) {
        if w[0] == "--crate-name" {
            crate_name = w[1].clone();
        }
    }
    let want = matches!(crate_name.as_str(), "graviola" | "rustls_graviola");
    let out = if want { std::env::var("GVFACTS_OUT").ok() } else { None };
    if out.is_some() {
        args.push("-Zmir-opt-level=0".into());
        args.push("-Cdebug-assertions=off".into());
        args.push("-Coverflow-checks=off".into());
        args.push("-Zalways-encode-mir".into());
        args.push("--cap-lints=allow".into());
    }
    rustc_driver::catch_with_exit_code(|| rustc_driver::compiler_entrypoint(&args, &mut Cb { out }))
}

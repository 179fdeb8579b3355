//! rustc driver: dumps the type-checked program of one crate (MIR of every local function and of
//! the small core helpers it calls, types, impls, statics, visibility) as JSON for the analyser.
//! Injected with RUSTC_WORKSPACE_WRAPPER; behaves exactly like rustc for every other crate.
#![feature(rustc_private)]
#![allow(clippy::all)]
extern crate rustc_abi;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_infer;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_span;
extern crate rustc_trait_selection;

use rustc_driver::{Callbacks, Compilation};
use rustc_hir::def::DefKind;
use rustc_hir::def_id::{DefId, LocalDefId};
use rustc_infer::infer::TyCtxtInferExt;
use rustc_middle::mir::interpret::{AllocId, GlobalAlloc, Scalar};
use rustc_middle::mir::{self, ConstValue, *};
use rustc_middle::ty::{self, EarlyBinder, GenericArgsRef, Instance, InstanceKind, ShimKind, Ty, TyCtxt, TypingEnv, TypeVisitableExt};
use rustc_span::Span;
use rustc_trait_selection::infer::InferCtxtExt;
use std::collections::{HashMap, HashSet, VecDeque};
use std::fmt::Write as _;

// ---------------------------------------------------------------- JSON
#[derive(Clone)]
enum J {
    N,
    B(bool),
    I(i128),
    S(String),
    A(Vec<J>),
    O(Vec<(&'static str, J)>),
    M(Vec<(String, J)>),
}
fn esc(s: &str, o: &mut String) {
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 => { let _ = write!(o, "\\u{:04x}", c as u32); }
            c => o.push(c),
        }
    }
    o.push('"');
}
impl J {
    fn w(&self, o: &mut String) {
        match self {
            J::N => o.push_str("null"),
            J::B(b) => o.push_str(if *b { "true" } else { "false" }),
            J::I(i) => { let _ = write!(o, "{}", i); }
            J::S(s) => esc(s, o),
            J::A(v) => { o.push('['); for (i, x) in v.iter().enumerate() { if i > 0 { o.push(',') } x.w(o); } o.push(']'); }
            J::O(v) => { o.push('{'); for (i, (k, x)) in v.iter().enumerate() { if i > 0 { o.push(',') } esc(k, o); o.push(':'); x.w(o); } o.push('}'); }
            J::M(v) => { o.push('{'); for (i, (k, x)) in v.iter().enumerate() { if i > 0 { o.push(',') } esc(k, o); o.push(':'); x.w(o); } o.push('}'); }
        }
    }
}
fn s(x: impl Into<String>) -> J { J::S(x.into()) }
fn i(x: usize) -> J { J::I(x as i128) }

// ---------------------------------------------------------------- dump context
struct Cx<'tcx> {
    tcx: TyCtxt<'tcx>,
    types: Vec<J>,
    tyids: HashMap<Ty<'tcx>, usize>,
    insts: HashMap<(Instance<'tcx>, Option<DefId>), usize>,
    queue: VecDeque<(usize, Instance<'tcx>, DefId, usize)>,
    bodies: Vec<J>,
    statics: Vec<(String, J)>,
    statics_seen: HashSet<DefId>,
}

fn path(tcx: TyCtxt<'_>, d: DefId) -> String {
    rustc_middle::ty::print::with_no_trimmed_paths!(rustc_middle::ty::print::with_no_visible_paths!(tcx.def_path_str(d)))
}
fn krate(tcx: TyCtxt<'_>, d: DefId) -> String { tcx.crate_name(d.krate).to_string() }
fn tystr(t: impl std::fmt::Display) -> String {
    rustc_middle::ty::print::with_no_trimmed_paths!(rustc_middle::ty::print::with_no_visible_paths!(format!("{}", t)))
}

/// functions of the core library whose bodies are dumped so that the analyser can see through them
fn dump_core(p: &str) -> bool {
    const PRE: &[&str] = &[
        "core::option::", "core::result::", "core::cmp::", "core::convert::", "core::mem::swap", "core::mem::replace", "core::mem::take",
        "core::bool::", "core::clone::", "core::ops::", "core::f64::", "core::default::", "core::num::", "core::hint::",
        "<core::option::", "<core::result::", "<core::cmp::", "core::borrow::",
    ];
    PRE.iter().any(|q| p.starts_with(q)) || p.starts_with('<') && (p.contains("core::option::Option") || p.contains("core::result::Result")) || p.contains("impl core::ops::")
}

impl<'tcx> Cx<'tcx> {
    fn span(&self, sp: Span) -> J {
        let sm = self.tcx.sess.source_map();
        let sp = sp.source_callsite();
        let lo = sm.lookup_char_pos(sp.lo());
        let f = match &lo.file.name {
            rustc_span::FileName::Real(r) => r.local_path().map(|p| p.display().to_string()).unwrap_or_else(|| "?".into()),
            _ => "?".into(),
        };
        s(format!("{}:{}", f, lo.line))
    }
    fn inner_span(&self, sp: Span) -> J {
        let sm = self.tcx.sess.source_map();
        let lo = sm.lookup_char_pos(sp.lo());
        let f = match &lo.file.name {
            rustc_span::FileName::Real(r) => r.local_path().map(|p| p.display().to_string()).unwrap_or_else(|| "?".into()),
            _ => "?".into(),
        };
        s(format!("{}:{}", f, lo.line))
    }
    fn ty(&mut self, t: Ty<'tcx>) -> J { J::I(self.tyid(t) as i128) }
    fn tyid(&mut self, t: Ty<'tcx>) -> usize {
        let t = self.tcx.erase_and_anonymize_regions(t);
        if let Some(x) = self.tyids.get(&t) { return *x; }
        let id = self.types.len();
        self.types.push(J::N);
        self.tyids.insert(t, id);
        let tcx = self.tcx;
        let mut o: Vec<(&'static str, J)> = vec![("s", s(tystr(t)))];
        match *t.kind() {
            ty::Bool => o.push(("k", s("bool"))),
            ty::Char => o.push(("k", s("char"))),
            ty::Int(it) => { o.push(("k", s("int"))); o.push(("bits", i(it.bit_width().unwrap_or(64) as usize))); o.push(("signed", J::B(true))); }
            ty::Uint(it) => { o.push(("k", s("int"))); o.push(("bits", i(it.bit_width().unwrap_or(64) as usize))); o.push(("signed", J::B(false))); }
            ty::Float(f) => { o.push(("k", s("float"))); o.push(("bits", i(f.bit_width() as usize))); }
            ty::Str => o.push(("k", s("str"))),
            ty::Never => o.push(("k", s("never"))),
            ty::Tuple(ts) => { o.push(("k", s("tuple"))); let v = ts.iter().map(|x| self.ty(x)).collect(); o.push(("args", J::A(v))); }
            ty::Ref(_, x, m) => { o.push(("k", s("ref"))); o.push(("mut", J::B(m.is_mut()))); let x = self.ty(x); o.push(("ty", x)); }
            ty::RawPtr(x, m) => { o.push(("k", s("ptr"))); o.push(("mut", J::B(m.is_mut()))); let x = self.ty(x); o.push(("ty", x)); }
            ty::Slice(x) => { o.push(("k", s("slice"))); let x = self.ty(x); o.push(("ty", x)); }
            ty::Array(x, n) => { o.push(("k", s("array"))); let x = self.ty(x); o.push(("ty", x)); o.push(("len", n.try_to_target_usize(tcx).map(|v| J::I(v as i128)).unwrap_or(J::N))); }
            ty::Param(p) => { o.push(("k", s("param"))); o.push(("name", s(p.name.as_str()))); }
            ty::Closure(d, args) => {
                o.push(("k", s("closure"))); o.push(("path", s(path(tcx, d))));
                let ups: Vec<J> = args.as_closure().upvar_tys().iter().map(|x| self.ty(x)).collect();
                o.push(("args", J::A(ups)));
            }
            ty::FnDef(d, _) => { o.push(("k", s("fndef"))); o.push(("path", s(path(tcx, d)))); }
            ty::FnPtr(..) => o.push(("k", s("fnptr"))),
            ty::Dynamic(..) => o.push(("k", s("dyn"))),
            ty::Adt(def, args) => {
                let d = def.did();
                let p = path(tcx, d);
                o.push(("k", s("adt"))); o.push(("path", s(p.clone()))); o.push(("crate", s(krate(tcx, d)))); o.push(("local", J::B(d.is_local())));
                o.push(("ak", s(if def.is_enum() { "enum" } else if def.is_union() { "union" } else { "struct" })));
                let av: Vec<J> = args.types().map(|x| self.ty(x)).collect();
                o.push(("args", J::A(av)));
                let core = krate(tcx, d) == "core";
                let expand = d.is_local() || p.starts_with("nalgebra::linalg") || (core && (def.is_enum() || p.starts_with("core::ops::range") || p.starts_with("core::cmp::Reverse") || p.starts_with("core::num::wrapping")));
                if expand && !p.starts_with("core::fmt") {
                    let mut vs = vec![];
                    for (vi, v) in def.variants().iter_enumerated() {
                        let mut fs = vec![];
                        for f in v.fields.iter() {
                            let ft = f.ty(tcx, args).skip_norm_wip();
                            let ft = tcx.try_normalize_erasing_regions(TypingEnv::post_analysis(tcx, d), ty::Unnormalized::new_wip(ft)).unwrap_or(ft);
                            let ft = self.ty(ft);
                            fs.push(J::O(vec![("name", s(f.name.as_str())), ("ty", ft), ("vis", self.vis(f.vis))]));
                        }
                        let dv = if def.is_enum() { let x = def.discriminant_for_variant(tcx, vi); let mut b = x.val as i128; if x.ty.is_signed() { let sz = tcx.layout_of(TypingEnv::fully_monomorphized().as_query_input(x.ty)).map(|l| l.size.bits()).unwrap_or(64); if sz < 128 && (b >> (sz - 1)) & 1 == 1 { b -= 1i128 << sz; } } b } else { 0 };
                        vs.push(J::O(vec![("name", s(v.name.as_str())), ("discr", J::I(dv)), ("fields", J::A(fs))]));
                    }
                    o.push(("variants", J::A(vs)));
                }
            }
            ty::Alias(..) => o.push(("k", s("alias"))),
            _ => o.push(("k", s("other"))),
        }
        self.types[id] = J::O(o);
        id
    }
    fn vis(&self, v: ty::Visibility<impl Into<DefId> + Copy>) -> J {
        match v { ty::Visibility::Public => s("pub"), ty::Visibility::Restricted(d) => s(format!("in {}", path(self.tcx, d.into()))) }
    }

    // ------------------------------------------------------------ constants
    fn scalar_bits(&self, sc: Scalar) -> Option<u128> { match sc { Scalar::Int(x) => Some(x.to_bits_unchecked()), _ => None } }

    fn decode(&mut self, env: TypingEnv<'tcx>, cv: ConstValue, t: Ty<'tcx>, depth: usize) -> J {
        let tcx = self.tcx;
        if depth > 6 { return J::O(vec![("opaque", s("depth"))]); }
        match *t.kind() {
            ty::Bool | ty::Char | ty::Int(_) | ty::Uint(_) | ty::Float(_) => {
                if let Some(sc) = self.read_scalar(env, cv, t) {
                    if let Some(b) = self.scalar_bits(sc) {
                        return match *t.kind() {
                            ty::Bool => J::O(vec![("bool", J::B(b != 0))]),
                            ty::Float(_) => J::O(vec![("f", s(format!("{}", b))), ("bits", i(if matches!(t.kind(), ty::Float(ty::FloatTy::F32)) { 32 } else { 64 }))]),
                            ty::Int(it) => { let w = it.bit_width().unwrap_or(64); let mut v = b as i128; if w < 128 && (v >> (w - 1)) & 1 == 1 { v -= 1i128 << w; } J::O(vec![("i", s(format!("{}", v)))]) }
                            _ => J::O(vec![("i", s(format!("{}", b)))]),
                        };
                    }
                }
                J::O(vec![("opaque", s("scalar"))])
            }
            ty::FnDef(d, args) => {
                let c = match args.no_bound_vars() { Some(a) => self.callee(env, d, a, DefId::from(rustc_hir::def_id::CRATE_DEF_ID), 99), None => J::N };
                J::O(vec![("fn", c)])
            }
            ty::Tuple(ts) if ts.is_empty() => J::O(vec![("tup", J::A(vec![]))]),
            ty::Ref(_, inner, _) | ty::RawPtr(inner, _) => {
                // fat or thin pointer
                match *inner.kind() {
                    ty::Str | ty::Slice(_) => {
                        let (aid, off, len) = match self.fat(env, cv) { Some(x) => x, None => return J::O(vec![("opaque", s("fat"))]) };
                        match tcx.try_get_global_alloc(aid) {
                            Some(GlobalAlloc::Memory(a)) => {
                                if let ty::Slice(et) = *inner.kind() {
                                    let es = match tcx.layout_of(env.as_query_input(et)) { Ok(l) => l.size.bytes(), Err(_) => return J::O(vec![("opaque", s("layout"))]) };
                                    let mut v = vec![];
                                    for k in 0..len {
                                        let c = ConstValue::Indirect { alloc_id: aid, offset: rustc_abi::Size::from_bytes(off + k * es) };
                                        v.push(self.decode(env, c, et, depth + 1));
                                    }
                                    J::O(vec![("ref", J::O(vec![("arr", J::A(v))]))])
                                } else {
                                    let al = a.inner();
                                    let b = al.inspect_with_uninit_and_ptr_outside_interpreter(off as usize..(off + len) as usize);
                                    J::O(vec![("ref", J::O(vec![("str", s(String::from_utf8_lossy(b).to_string()))]))])
                                }
                            }
                            Some(GlobalAlloc::Static(d)) => { self.add_static(d); J::O(vec![("ref", J::O(vec![("static", s(path(tcx, d)))]))]) }
                            _ => J::O(vec![("opaque", s("alloc"))]),
                        }
                    }
                    _ => {
                        let sc = match self.read_scalar(env, cv, t) { Some(x) => x, None => return J::O(vec![("opaque", s("ptr"))]) };
                        if let Scalar::Ptr(p, _) = sc {
                            let (prov, off) = p.prov_and_relative_offset();
                            let aid = prov.alloc_id();
                            match tcx.try_get_global_alloc(aid) {
                                Some(GlobalAlloc::Static(d)) => { self.add_static(d); J::O(vec![("ref", J::O(vec![("static", s(path(tcx, d)))]))]) }
                                Some(GlobalAlloc::Memory(_)) => { let x = self.decode(env, ConstValue::Indirect { alloc_id: aid, offset: off }, inner, depth + 1); J::O(vec![("ref", x)]) }
                                Some(GlobalAlloc::Function { instance }) => { let c = self.callee_inst(env, instance, 99); J::O(vec![("fn", c)]) }
                                _ => J::O(vec![("opaque", s("alloc"))]),
                            }
                        } else { J::O(vec![("opaque", s("ptr"))]) }
                    }
                }
            }
            ty::Array(..) | ty::Tuple(_) | ty::Adt(..) => {
                if let ty::Adt(d, _) = t.kind() { if d.is_union() { return J::O(vec![("opaque", s("union"))]); } }
                match tcx.try_destructure_mir_constant_for_user_output(cv, t) {
                    Some(dc) => {
                        let fs: Vec<J> = dc.fields.iter().map(|(c, ft)| self.decode(env, *c, *ft, depth + 1)).collect();
                        match *t.kind() {
                            ty::Array(..) => J::O(vec![("arr", J::A(fs))]),
                            ty::Tuple(_) => J::O(vec![("tup", J::A(fs))]),
                            _ => { let tt = self.ty(t); J::O(vec![("adt", tt), ("variant", i(dc.variant.map(|v| v.as_usize()).unwrap_or(0))), ("fields", J::A(fs))]) }
                        }
                    }
                    None => J::O(vec![("opaque", s("destructure"))]),
                }
            }
            ty::FnPtr(..) => {
                if let Some(Scalar::Ptr(p, _)) = self.read_scalar(env, cv, t) {
                    if let Some(GlobalAlloc::Function { instance }) = tcx.try_get_global_alloc(p.provenance.alloc_id()) {
                        let c = self.callee_inst(env, instance, 99);
                        return J::O(vec![("fn", c)]);
                    }
                }
                J::O(vec![("opaque", s("fnptr"))])
            }
            ty::Closure(d, args) => self.closure_const(env, d, args),
            ty::Pat(base, _) => self.decode(env, cv, base, depth + 1),
            _ => J::O(vec![("opaque", s("ty"))]),
        }
    }
    fn closure_const(&mut self, env: TypingEnv<'tcx>, d: DefId, args: GenericArgsRef<'tcx>) -> J {
        let kind = args.as_closure().kind();
        let inst = Instance::resolve_closure(self.tcx, d, args, kind);
        let c = self.callee_inst(env, inst, 99);
        J::O(vec![("closure", c)])
    }
    fn read_scalar(&self, env: TypingEnv<'tcx>, cv: ConstValue, t: Ty<'tcx>) -> Option<Scalar> {
        match cv {
            ConstValue::Scalar(x) => Some(x),
            ConstValue::Indirect { alloc_id, offset } => {
                let lay = self.tcx.layout_of(env.as_query_input(t)).ok()?;
                let GlobalAlloc::Memory(a) = self.tcx.try_get_global_alloc(alloc_id)? else { return None };
                let isptr = t.is_any_ptr() || t.is_fn_ptr();
                a.inner().read_scalar(&self.tcx, rustc_middle::mir::interpret::alloc_range(offset, lay.size), isptr).ok()
            }
            _ => None,
        }
    }
    fn fat(&self, _env: TypingEnv<'tcx>, cv: ConstValue) -> Option<(AllocId, u64, u64)> {
        match cv {
            ConstValue::Slice { alloc_id, meta } => Some((alloc_id, 0, meta)),
            ConstValue::Indirect { alloc_id, offset } => {
                let GlobalAlloc::Memory(a) = self.tcx.try_get_global_alloc(alloc_id)? else { return None };
                let ps = self.tcx.data_layout.pointer_size();
                let p = a.inner().read_scalar(&self.tcx, rustc_middle::mir::interpret::alloc_range(offset, ps), true).ok()?;
                let l = a.inner().read_scalar(&self.tcx, rustc_middle::mir::interpret::alloc_range(offset + ps, ps), false).ok()?;
                let Scalar::Ptr(p, _) = p else { return None };
                let (prov, off) = p.prov_and_relative_offset();
                let Scalar::Int(l) = l else { return None };
                Some((prov.alloc_id(), off.bytes(), l.to_bits_unchecked() as u64))
            }
            _ => None,
        }
    }
    fn add_static(&mut self, d: DefId) {
        if !self.statics_seen.insert(d) { return; }
        let tcx = self.tcx;
        let t = tcx.type_of(d).instantiate_identity().skip_norm_wip();
        let v = if d.is_local() {
            match tcx.eval_static_initializer(d) {
                Ok(a) => { let aid = tcx.reserve_and_set_memory_alloc(a); self.decode(TypingEnv::fully_monomorphized(), ConstValue::Indirect { alloc_id: aid, offset: rustc_abi::Size::ZERO }, t, 0) }
                Err(_) => J::O(vec![("opaque", s("static"))]),
            }
        } else { J::O(vec![("opaque", s("extern static"))]) };
        let tt = self.ty(t);
        let freeze = t.is_freeze(tcx, TypingEnv::fully_monomorphized());
        let mutable = tcx.is_mutable_static(d);
        let sp = self.span(tcx.def_span(d));
        let tl = tcx.is_thread_local_static(d);
        self.statics.push((path(tcx, d), J::O(vec![("ty", tt), ("value", v), ("freeze", J::B(freeze)), ("mut", J::B(mutable)), ("tls", J::B(tl)), ("local", J::B(d.is_local())), ("span", sp)])));
    }
    fn constant(&mut self, env: TypingEnv<'tcx>, c: &mir::Const<'tcx>, root: DefId, depth: usize) -> J {
        let tcx = self.tcx;
        let t = c.ty();
        let tt = self.ty(t);
        if let ty::FnDef(d, args) = *t.kind() {
            if let Some(a) = args.no_bound_vars() { let cal = self.callee(env, d, a, root, depth); return J::O(vec![("ty", tt), ("v", J::O(vec![("fn", cal)]))]); }
        }
        if let ty::Closure(d, args) = *t.kind() { let v = self.closure_const(env, d, args); return J::O(vec![("ty", tt), ("v", v)]); }
        let mut name = J::N;
        if let mir::Const::Unevaluated(u, _) = c { name = s(path(tcx, u.def)); if u.promoted.is_some() { name = s(format!("{}::promoted", path(tcx, u.def))); } }
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| c.eval(tcx, env, rustc_span::DUMMY_SP)));
        match r {
            Ok(Ok(cv)) => { let v = self.decode(env, cv, t, 0); J::O(vec![("ty", tt), ("v", v), ("name", name)]) }
            _ => J::O(vec![("ty", tt), ("v", J::O(vec![("opaque", s(format!("{:?}", c)))])), ("name", name)]),
        }
    }

    // ------------------------------------------------------------ callees
    fn callee(&mut self, env: TypingEnv<'tcx>, d: DefId, args: GenericArgsRef<'tcx>, root: DefId, depth: usize) -> J {
        let tcx = self.tcx;
        let mut o = self.def_info(d);
        let av: Vec<J> = args.types().map(|x| self.ty(x)).collect();
        o.push(("args", J::A(av)));
        let r = Instance::try_resolve(tcx, env, d, args);
        if let Ok(Some(inst)) = r { self.inst_info(env, inst, root, depth, &mut o); } else { o.push(("unresolved", J::B(true))); }
        J::O(o)
    }
    fn callee_inst(&mut self, env: TypingEnv<'tcx>, inst: Instance<'tcx>, depth: usize) -> J {
        let mut o = self.def_info(inst.def_id());
        let av: Vec<J> = inst.args.types().map(|x| self.ty(x)).collect();
        o.push(("args", J::A(av)));
        self.inst_info(env, inst, inst.def_id(), depth, &mut o);
        J::O(o)
    }
    fn def_info(&mut self, d: DefId) -> Vec<(&'static str, J)> {
        let tcx = self.tcx;
        let mut o: Vec<(&'static str, J)> = vec![("path", s(path(tcx, d))), ("crate", s(krate(tcx, d))), ("local", J::B(d.is_local()))];
        if let Some(n) = tcx.opt_item_name(d) { o.push(("name", s(n.as_str()))); }
        if let Some(p) = tcx.opt_parent(d) {
            match tcx.def_kind(p) {
                DefKind::Trait => o.push(("trait", s(path(tcx, p)))),
                DefKind::Impl { of_trait } => {
                    let st = tcx.type_of(p).instantiate_identity().skip_norm_wip();
                    o.push(("impl_self", s(tystr(st))));
                    if of_trait { if let Some(tr) = tcx.impl_opt_trait_ref(p) { o.push(("impl_trait", s(path(tcx, tr.skip_binder().def_id)))); } }
                }
                _ => {}
            }
        }
        o
    }
    fn inst_info(&mut self, env: TypingEnv<'tcx>, inst: Instance<'tcx>, root: DefId, depth: usize, o: &mut Vec<(&'static str, J)>) {
        let tcx = self.tcx;
        let rd = inst.def_id();
        o.push(("r", J::O(self.def_info(rd))));
        let k = match inst.def {
            InstanceKind::Item(_) => "item",
            InstanceKind::Intrinsic(_) | InstanceKind::LlvmIntrinsic(_) => "intrinsic",
            InstanceKind::Virtual(..) => "virtual",
            InstanceKind::Shim(ShimKind::ClosureOnce { .. }) => "closure_once",
            InstanceKind::Shim(ShimKind::FnPtr(..)) => "fnptr_shim",
            InstanceKind::Shim(ShimKind::Clone(..)) => "clone_shim",
            InstanceKind::Shim(ShimKind::DropGlue(..)) => "drop",
            InstanceKind::Shim(_) => "shim",
        };
        o.push(("kind", s(k)));
        if tcx.is_closure_like(rd) { o.push(("closure", J::B(true))); }
        let mut target = inst;
        if let InstanceKind::Shim(ShimKind::ClosureOnce { closure, .. }) = inst.def {
            // call_once on a Fn/FnMut closure: the analyser runs the closure body itself
            if let ty::Closure(d, args) = *inst.args.type_at(0).kind() { target = Instance::new_raw(d, args); let _ = closure; }
            else { return; }
        }
        if let InstanceKind::Item(d) = target.def {
            let local = d.is_local();
            let ok = if local { true } else { depth < 6 && tcx.crate_name(d.krate).as_str() == "core" && dump_core(&path(tcx, d)) };
            if ok && tcx.is_mir_available(d) {
                let id = self.inst(env, target, root, if local { 0 } else { depth + 1 });
                o.push(("inst", i(id)));
            }
        }
    }
    fn inst(&mut self, _env: TypingEnv<'tcx>, inst: Instance<'tcx>, root: DefId, depth: usize) -> usize {
        let inst = self.tcx.erase_and_anonymize_regions(inst);
        let key = (inst, if inst.has_param() { Some(root) } else { None });
        if let Some(x) = self.insts.get(&key) { return *x; }
        let id = self.bodies.len();
        self.bodies.push(J::N);
        self.insts.insert(key, id);
        self.queue.push_back((id, inst, root, depth));
        id
    }

    // ------------------------------------------------------------ bodies
    fn place(&mut self, p: &Place<'tcx>) -> J {
        let mut v = vec![i(p.local.as_usize())];
        for e in p.projection.iter() {
            v.push(match e {
                ProjectionElem::Deref => J::A(vec![s("d")]),
                ProjectionElem::Field(f, t) => { let t = self.ty(t); J::A(vec![s("f"), i(f.as_usize()), t]) }
                ProjectionElem::Index(l) => J::A(vec![s("i"), i(l.as_usize())]),
                ProjectionElem::ConstantIndex { offset, min_length, from_end } => J::A(vec![s("c"), i(offset as usize), i(min_length as usize), J::B(from_end)]),
                ProjectionElem::Subslice { from, to, from_end } => J::A(vec![s("s"), i(from as usize), i(to as usize), J::B(from_end)]),
                ProjectionElem::Downcast(_, vi) => J::A(vec![s("v"), i(vi.as_usize())]),
                _ => J::A(vec![s("o")]),
            });
        }
        J::A(v)
    }
    fn operand(&mut self, env: TypingEnv<'tcx>, op: &Operand<'tcx>, root: DefId, depth: usize) -> J {
        match op {
            Operand::Copy(p) => J::A(vec![s("cp"), self.place(p)]),
            Operand::Move(p) => J::A(vec![s("mv"), self.place(p)]),
            Operand::Constant(c) => J::A(vec![s("k"), self.constant(env, &c.const_, root, depth)]),
            Operand::RuntimeChecks(_) => J::A(vec![s("rc")]),
        }
    }
    fn body(&mut self, id: usize, inst: Instance<'tcx>, root: DefId, depth: usize) {
        let tcx = self.tcx;
        let env = TypingEnv::post_analysis(tcx, root);
        let b0 = tcx.instance_mir(inst.def);
        let b = match inst.try_instantiate_mir_and_normalize_erasing_regions(tcx, env, EarlyBinder::bind(tcx, b0.clone())) { Ok(b) => b, Err(_) => { self.bodies[id] = J::O(vec![("path", s(path(tcx, inst.def_id()))), ("error", s("normalize"))]); return; } };
        let mut o = self.def_info(inst.def_id());
        o.push(("span", self.inner_span(tcx.def_span(inst.def_id()))));
        if tcx.is_closure_like(inst.def_id()) { o.push(("closure", J::B(true))); }
        o.push(("argc", i(b.arg_count)));
        o.push(("spread", b.spread_arg.map(|l| i(l.as_usize())).unwrap_or(J::N)));
        let ls: Vec<J> = b.local_decls.iter().map(|l| self.ty(l.ty)).collect();
        o.push(("locals", J::A(ls)));
        let mut names = vec![];
        for v in b.var_debug_info.iter() { if let VarDebugInfoContents::Place(p) = v.value { if p.projection.is_empty() { names.push(J::A(vec![i(p.local.as_usize()), s(v.name.as_str())])); } } }
        o.push(("names", J::A(names)));
        let mut bbs = vec![];
        for bb in b.basic_blocks.iter() {
            let mut st = vec![];
            for x in bb.statements.iter() {
                match &x.kind {
                    StatementKind::Assign(bx) => {
                        let (p, rv) = &**bx;
                        let pj = self.place(p);
                        let rj = self.rvalue(env, rv, root, depth);
                        let sp = self.inner_span(x.source_info.span);
                        st.push(J::A(vec![s("="), pj, rj, sp]));
                    }
                    StatementKind::SetDiscriminant { place, variant_index } => { let pj = self.place(place); st.push(J::A(vec![s("sd"), pj, i(variant_index.as_usize())])); }
                    StatementKind::Intrinsic(x) => { if let NonDivergingIntrinsic::Assume(_) = &**x {} else { st.push(J::A(vec![s("?"), s("copy_nonoverlapping")])); } }
                    _ => {}
                }
            }
            let t = bb.terminator();
            let sp = self.inner_span(t.source_info.span);
            let tj = match &t.kind {
                TerminatorKind::Goto { target, .. } => J::A(vec![s("goto"), i(target.as_usize())]),
                TerminatorKind::SwitchInt { discr, targets } => {
                    let d = self.operand(env, discr, root, depth);
                    let dt = discr.ty(&b.local_decls, tcx);
                    let dt = self.ty(dt);
                    let v: Vec<J> = targets.iter().map(|(v, t)| J::A(vec![s(format!("{}", v)), i(t.as_usize())])).collect();
                    J::A(vec![s("switch"), d, dt, J::A(v), i(targets.otherwise().as_usize()), sp])
                }
                TerminatorKind::Return => J::A(vec![s("ret")]),
                TerminatorKind::Unreachable => J::A(vec![s("unreachable")]),
                TerminatorKind::UnwindResume | TerminatorKind::UnwindTerminate(_) => J::A(vec![s("resume")]),
                TerminatorKind::Drop { place, target, .. } => { let p = self.place(place); let pt = place.ty(&b.local_decls, tcx).ty; let pt = self.ty(pt); J::A(vec![s("drop"), p, i(target.as_usize()), pt]) }
                TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                    let c = self.operand(env, cond, root, depth);
                    let (k, ops): (&str, Vec<&Operand<'tcx>>) = match &**msg {
                        AssertKind::BoundsCheck { len, index } => ("bounds", vec![len, index]),
                        AssertKind::Overflow(op, a, b) => (match op { BinOp::Add => "overflow+", BinOp::Sub => "overflow-", BinOp::Mul => "overflow*", BinOp::Shl => "overflow<<", BinOp::Shr => "overflow>>", BinOp::Div => "overflow/", BinOp::Rem => "overflow%", _ => "overflow" }, vec![a, b]),
                        AssertKind::OverflowNeg(a) => ("overflowneg", vec![a]),
                        AssertKind::DivisionByZero(a) => ("div0", vec![a]),
                        AssertKind::RemainderByZero(a) => ("rem0", vec![a]),
                        _ => ("other", vec![]),
                    };
                    let opsj: Vec<J> = ops.into_iter().map(|x| self.operand(env, x, root, depth)).collect();
                    J::A(vec![s("assert"), c, J::B(*expected), s(k), J::A(opsj), i(target.as_usize()), sp])
                }
                TerminatorKind::Call { func, args, destination, target, .. } => {
                    let ft = func.ty(&b.local_decls, tcx);
                    let f = if let ty::FnDef(d, a) = *ft.kind() {
                        match a.no_bound_vars() { Some(a) => { let c = self.callee(env, d, a, root, depth); J::O(vec![("def", c)]) } None => J::O(vec![("op", self.operand(env, func, root, depth))]) }
                    } else { J::O(vec![("op", self.operand(env, func, root, depth))]) };
                    let av: Vec<J> = args.iter().map(|x| self.operand(env, &x.node, root, depth)).collect();
                    let at: Vec<J> = args.iter().map(|x| { let t = x.node.ty(&b.local_decls, tcx); self.ty(t) }).collect();
                    let dj = self.place(destination);
                    let dt = destination.ty(&b.local_decls, tcx).ty;
                    let dt = self.ty(dt);
                    J::A(vec![s("call"), f, J::A(av), dj, target.map(|t| i(t.as_usize())).unwrap_or(J::N), sp, J::A(at), dt])
                }
                TerminatorKind::FalseEdge { real_target, .. } | TerminatorKind::FalseUnwind { real_target, .. } => J::A(vec![s("goto"), i(real_target.as_usize())]),
                _ => J::A(vec![s("?"), s(format!("{:?}", t.kind))]),
            };
            bbs.push(J::O(vec![("s", J::A(st)), ("t", tj), ("cleanup", J::B(bb.is_cleanup))]));
        }
        o.push(("blocks", J::A(bbs)));
        self.bodies[id] = J::O(o);
    }
    fn rvalue(&mut self, env: TypingEnv<'tcx>, rv: &Rvalue<'tcx>, root: DefId, depth: usize) -> J {
        let tcx = self.tcx;
        match rv {
            Rvalue::Use(op, _) => J::A(vec![s("use"), self.operand(env, op, root, depth)]),
            Rvalue::Repeat(op, n) => { let o = self.operand(env, op, root, depth); J::A(vec![s("repeat"), o, n.try_to_target_usize(tcx).map(|v| J::I(v as i128)).unwrap_or(J::N)]) }
            Rvalue::Ref(_, k, p) => J::A(vec![s("ref"), J::B(matches!(k, BorrowKind::Mut { .. })), self.place(p)]),
            Rvalue::RawPtr(_, p) => J::A(vec![s("rawptr"), self.place(p)]),
            Rvalue::CopyForDeref(p) => J::A(vec![s("use"), J::A(vec![s("cp"), self.place(p)])]),
            Rvalue::Cast(k, op, t) => {
                let o = self.operand(env, op, root, depth);
                let kn = match k { CastKind::PointerCoercion(pc, _) => format!("PC:{:?}", pc), k => format!("{:?}", k) };
                let tt = self.ty(*t);
                J::A(vec![s("cast"), s(kn), o, tt])
            }
            Rvalue::BinaryOp(op, ab) => { let a = self.operand(env, &ab.0, root, depth); let b = self.operand(env, &ab.1, root, depth); J::A(vec![s("bin"), s(format!("{:?}", op)), a, b]) }
            Rvalue::UnaryOp(op, a) => { let a = self.operand(env, a, root, depth); J::A(vec![s("un"), s(format!("{:?}", op)), a]) }
            Rvalue::Discriminant(p) => J::A(vec![s("discr"), self.place(p)]),
            Rvalue::Aggregate(k, ops) => {
                let os: Vec<J> = ops.iter().map(|x| self.operand(env, x, root, depth)).collect();
                let kj = match &**k {
                    AggregateKind::Array(t) => { let t = self.ty(*t); J::A(vec![s("array"), t]) }
                    AggregateKind::Tuple => J::A(vec![s("tuple")]),
                    AggregateKind::Adt(d, vi, args, _, _) => { let t = tcx.type_of(*d).instantiate(tcx, args).skip_norm_wip(); let t = self.ty(t); J::A(vec![s("adt"), t, i(vi.as_usize()), s(path(tcx, *d))]) }
                    AggregateKind::Closure(d, args) => {
                        let t = Ty::new_closure(tcx, *d, args);
                        let tt = self.ty(t);
                        let inst = Instance::new_raw(*d, args);
                        let id = self.inst(env, inst, root, 0);
                        J::A(vec![s("closure"), tt, i(id), s(path(tcx, *d))])
                    }
                    AggregateKind::RawPtr(..) => J::A(vec![s("rawptr")]),
                    _ => J::A(vec![s("?")]),
                };
                J::A(vec![s("agg"), kj, J::A(os)])
            }
            Rvalue::Reborrow(_, m, p) => J::A(vec![s("ref"), J::B(m.is_mut()), self.place(p)]),
            _ => J::A(vec![s("?"), s(format!("{:?}", rv))]),
        }
    }
}

struct Cb;
impl Callbacks for Cb {
    fn config(&mut self, c: &mut rustc_interface::interface::Config) {
        c.opts.unstable_opts.mir_opt_level = Some(0);
        c.opts.unstable_opts.inline_mir = Some(false);
        c.opts.cg.overflow_checks = Some(true);
    }
    fn after_analysis<'tcx>(&mut self, _c: &rustc_interface::interface::Compiler, tcx: TyCtxt<'tcx>) -> Compilation {
        dump(tcx);
        Compilation::Continue
    }
}

fn dump(tcx: TyCtxt<'_>) {
    let out = match std::env::var("GQ_DUMP") { Ok(o) => o, Err(_) => return };
    let want = std::env::var("GQ_CRATE").unwrap_or_default();
    let name = tcx.crate_name(rustc_hir::def_id::LOCAL_CRATE).to_string();
    if name != want { return; }
    let mut cx = Cx { tcx, types: vec![], tyids: HashMap::new(), insts: HashMap::new(), queue: VecDeque::new(), bodies: vec![], statics: vec![], statics_seen: HashSet::new() };
    let ev = tcx.effective_visibilities(());

    // functions
    let mut fns = vec![];
    let keys: Vec<LocalDefId> = tcx.mir_keys(()).iter().copied().collect();
    for k in keys {
        let d = k.to_def_id();
        match tcx.def_kind(d) {
            DefKind::Fn | DefKind::AssocFn => {}
            _ => continue,
        }
        let args = ty::GenericArgs::identity_for_item(tcx, d);
        let env = TypingEnv::post_analysis(tcx, d);
        let inst = Instance::new_raw(d, args);
        let mut o = cx.def_info(d);
        let id = cx.inst(env, inst, d, 0);
        o.push(("inst", i(id)));
        let sig = tcx.fn_sig(d).instantiate_identity().skip_norm_wip().skip_binder();
        let ins: Vec<J> = sig.inputs().iter().map(|t| { let n = tcx.try_normalize_erasing_regions(env, ty::Unnormalized::new_wip(*t)).unwrap_or(*t); cx.ty(n) }).collect();
        let outt = tcx.try_normalize_erasing_regions(env, ty::Unnormalized::new_wip(sig.output())).unwrap_or(sig.output());
        let outj = cx.ty(outt);
        o.push(("inputs", J::A(ins)));
        o.push(("output", outj));
        o.push(("unsafe", J::B(!tcx.fn_sig(d).skip_binder().safety().is_safe())));
        o.push(("const", J::B(tcx.is_const_fn(d))));
        o.push(("vis", cx.vis(tcx.visibility(d))));
        o.push(("exported", J::B(ev.is_exported(k))));
        o.push(("reachable", J::B(ev.is_reachable(k))));
        let preds: Vec<J> = TypingEnv::post_analysis(tcx, d).param_env.caller_bounds().map(|c| s(tystr(c))).collect();
        o.push(("preds", J::A(preds)));
        if let Some(p) = tcx.opt_parent(d) { if matches!(tcx.def_kind(p), DefKind::Impl { .. }) {
            o.push(("derived", J::B(tcx.is_automatically_derived(p))));
            let st = tcx.type_of(p).instantiate_identity().skip_norm_wip();
            let sj = cx.ty(st); o.push(("self_ty", sj));
            if let Some(tr) = tcx.impl_opt_trait_ref(p) { o.push(("trait_ref", s(tystr(tr.skip_binder())))); 
                let ta: Vec<J> = tr.skip_binder().args.types().skip(1).map(|t| cx.ty(t)).collect(); o.push(("trait_args", J::A(ta))); }
        } }
        o.push(("span", cx.span(tcx.def_span(d))));
        o.push(("ispan", cx.inner_span(tcx.def_span(d))));
        fns.push(J::O(o));
    }
    // statics of the crate
    for k in tcx.hir_crate_items(()).definitions() {
        if let DefKind::Static { .. } = tcx.def_kind(k) { cx.add_static(k.to_def_id()); }
    }
    // constants of the crate (named and associated), evaluated
    let mut consts = vec![];
    for k in tcx.hir_crate_items(()).definitions() {
        let d = k.to_def_id();
        if !matches!(tcx.def_kind(d), DefKind::Const { .. } | DefKind::AssocConst { .. }) { continue; }
        if tcx.generics_of(d).requires_monomorphization(tcx) { continue; }
        let t = tcx.type_of(d).instantiate_identity().skip_norm_wip();
        let tj = cx.ty(t);
        let mut o = vec![("path", s(path(tcx, d))), ("ty", tj), ("exported", J::B(ev.is_exported(k))), ("span", cx.span(tcx.def_span(d)))];
        if let Ok(v) = tcx.const_eval_poly(d) { let v = cx.decode(TypingEnv::fully_monomorphized(), v, t, 0); o.push(("v", v)); }
        consts.push(J::O(o));
    }
    // ADTs
    let mut adts = vec![];
    let sendd = tcx.get_diagnostic_item(rustc_span::sym::Send);
    let syncd = tcx.lang_items().sync_trait();
    for k in tcx.hir_crate_items(()).definitions() {
        let d = k.to_def_id();
        if !matches!(tcx.def_kind(d), DefKind::Struct | DefKind::Enum | DefKind::Union) { continue; }
        let t = tcx.type_of(d).instantiate_identity().skip_norm_wip();
        let tj = cx.ty(t);
        let env = TypingEnv::post_analysis(tcx, d);
        let te = tcx.erase_and_anonymize_regions(t);
        let freeze = te.is_freeze(tcx, env);
        let copy = tcx.type_is_copy_modulo_regions(env, te);
        let mut autos = vec![];
        for (n, td) in [("Send", sendd), ("Sync", syncd)] {
            if let Some(td) = td {
                let infcx = tcx.infer_ctxt().build(env.typing_mode());
                let ok = infcx.type_implements_trait(td, [te], env.param_env).must_apply_modulo_regions();
                autos.push((n, J::B(ok)));
            }
        }
        adts.push(J::O(vec![("path", s(path(tcx, d))), ("ty", tj), ("name", s(tcx.item_name(d).as_str())), ("exported", J::B(ev.is_exported(k))), ("reachable", J::B(ev.is_reachable(k))), ("freeze", J::B(freeze)), ("copy", J::B(copy)), ("auto", J::O(autos)), ("span", cx.span(tcx.def_span(d))), ("from_expansion", J::B(tcx.def_span(d).from_expansion()))]));
    }
    // trait impls
    let mut impls = vec![];
    for (tr, ids) in tcx.all_local_trait_impls(()).iter() {
        for id in ids {
            let d = id.to_def_id();
            let hdr = tcx.impl_trait_ref(d).skip_binder();
            let st = hdr.self_ty();
            let sj = cx.ty(st);
            let targs: Vec<J> = hdr.args.types().skip(1).map(|t| cx.ty(t)).collect();
            let mut items = vec![];
            for it in tcx.associated_item_def_ids(d) {
                let nm = tcx.opt_item_name(*it).map(|x| x.to_string()).unwrap_or_default();
                match tcx.def_kind(*it) {
                    DefKind::AssocFn => {
                        let env = TypingEnv::post_analysis(tcx, *it);
                        let a = ty::GenericArgs::identity_for_item(tcx, *it);
                        let iid = cx.inst(env, Instance::new_raw(*it, a), *it, 0);
                        items.push((nm, J::O(vec![("inst", i(iid)), ("path", s(path(tcx, *it)))])));
                    }
                    DefKind::AssocTy => { let t = tcx.type_of(*it).instantiate_identity().skip_norm_wip(); let t = cx.ty(t); items.push((nm, J::O(vec![("ty", t)]))); }
                    _ => items.push((nm, J::O(vec![]))),
                }
            }
            impls.push(J::O(vec![("trait", s(path(tcx, *tr))), ("crate", s(krate(tcx, *tr))), ("self", sj), ("self_s", s(tystr(st))), ("args", J::A(targs)), ("ref", s(tystr(hdr))), ("derived", J::B(tcx.is_automatically_derived(d))), ("polarity", s(format!("{:?}", tcx.impl_polarity(d)))), ("items", J::M(items)), ("span", cx.span(tcx.def_span(d)))]));
        }
    }
    // public items by path (through re-exports)
    let mut pubs = vec![];
    let mut seen = HashSet::new();
    walk_mod(tcx, rustc_hir::def_id::CRATE_DEF_ID.to_def_id(), String::new(), &mut pubs, &mut seen);
    // macros-exported and other crates
    let crates: Vec<J> = tcx.crates(()).iter().map(|c| s(tcx.crate_name(*c).as_str())).collect();
    // body worklist
    while let Some((id, inst, root, depth)) = cx.queue.pop_front() { cx.body(id, inst, root, depth); }

    let mut attrs = vec![];
    for a in tcx.hir_krate_attrs() { let t = format!("{:?}", a); if !t.contains("DocComment") && t.len() < 2000 { attrs.push(s(t)); } }
    let o = J::O(vec![
        ("nonce", s(std::env::var("GQ_NONCE").unwrap_or_default())),
        ("crate", s(name)),
        ("types", J::A(cx.types)),
        ("fns", J::A(fns)),
        ("bodies", J::A(cx.bodies)),
        ("statics", J::M(cx.statics)),
        ("consts", J::A(consts)),
        ("adts", J::A(adts)),
        ("impls", J::A(impls)),
        ("pubs", J::A(pubs)),
        ("crates", J::A(crates)),
        ("krate_attrs", J::A(attrs)),
    ]);
    let mut st = String::new();
    o.w(&mut st);
    let tmp = format!("{}.tmp", out);
    std::fs::write(&tmp, st).unwrap();
    std::fs::rename(&tmp, &out).unwrap();
}

fn walk_mod<'tcx>(tcx: TyCtxt<'tcx>, m: DefId, prefix: String, out: &mut Vec<J>, seen: &mut HashSet<(DefId, String)>) {
    let children: Vec<_> = match m.as_local() { Some(l) => tcx.module_children_local(l).iter().map(|c| (c.ident, c.res, c.vis)).collect(), None => return };
    for (ident, res, vis) in children {
        if !vis.is_public() { continue; }
        if let Some(d) = res.opt_def_id() {
            let p = if prefix.is_empty() { ident.to_string() } else { format!("{}::{}", prefix, ident) };
            if !seen.insert((d, p.clone())) { continue; }
            out.push(J::O(vec![("path", s(p.clone())), ("def", s(path(tcx, d))), ("kind", s(format!("{:?}", tcx.def_kind(d)))), ("local", J::B(d.is_local()))]));
            if matches!(tcx.def_kind(d), DefKind::Mod) && d.is_local() { walk_mod(tcx, d, p, out, seen); }
        }
    }
}

fn main() -> std::process::ExitCode {
    let mut args: Vec<String> = std::env::args().collect();
    if args.len() > 1 && (args[1].ends_with("rustc") || args[1].contains("/rustc")) { args.remove(1); }
    rustc_driver::install_ice_hook("", |_| ());
    rustc_driver::catch_with_exit_code(|| rustc_driver::compiler_entrypoint(&args, &mut Cb))
}

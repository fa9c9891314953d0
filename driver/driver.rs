// rustc driver: dumps the monomorphic MIR of the crate under analysis (plus the few generic
// library bodies the analyses look through) as one JSON file.  It decides nothing.
#![feature(rustc_private)]
#![allow(clippy::all)]
extern crate rustc_abi;
extern crate rustc_driver;
extern crate rustc_driver_impl;
extern crate rustc_hir;
extern crate rustc_infer;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_session;
extern crate rustc_span;
extern crate rustc_trait_selection;

use rustc_hir::def::DefKind;
use rustc_hir::def_id::{DefId, LOCAL_CRATE};
use rustc_infer::infer::TyCtxtInferExt;
use rustc_middle::mir::interpret::{GlobalAlloc, Scalar};
use rustc_middle::mir::{self, ConstValue, Operand, ProjectionElem, Rvalue, StatementKind, TerminatorKind};
use rustc_middle::ty::{self, GenericArgsRef, Instance, InstanceKind, Ty, TyCtxt, TypeVisitableExt};
use rustc_span::Span;
use rustc_trait_selection::infer::InferCtxtExt;
use std::collections::{HashMap, VecDeque};
use std::fmt::Write as _;

fn esc(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

struct Dump<'tcx> {
    tcx: TyCtxt<'tcx>,
    ty_ix: HashMap<Ty<'tcx>, usize>,
    ty_out: Vec<String>,
    fn_ix: HashMap<(Instance<'tcx>, bool), usize>,
    fn_out: Vec<String>,
    work: VecDeque<(Instance<'tcx>, bool, usize)>,
    vt: Vec<String>,
    vt_seen: std::collections::HashSet<(Ty<'tcx>, Ty<'tcx>)>,
    iter_next: Option<DefId>,
    iter_trait: Option<DefId>,
    into_iter: Option<DefId>,
    into_iter_trait: Option<DefId>,
}

const LOOK_THROUGH: &[&str] = &[
    "core::option::",
    "core::result::",
    "core::convert::",
    "core::bool::",
    "core::ops::control_flow::",
    "core::ops::try_trait::",
    "core::iter::adapters::",
    "core::cmp::",
];

impl<'tcx> Dump<'tcx> {
    fn cpath(&self, did: DefId) -> String {
        let tcx = self.tcx;
        let key = tcx.def_key(did);
        let parent = match key.parent {
            None => return tcx.crate_name(did.krate).to_string(),
            Some(p) => DefId { krate: did.krate, index: p },
        };
        use rustc_hir::definitions::DefPathData as D;
        match key.disambiguated_data.data {
            D::Impl => {
                let self_ty = tcx.type_of(did).instantiate_identity().skip_norm_wip();
                let h = self.head(self_ty);
                match tcx.impl_opt_trait_ref(did) {
                    Some(tr) => {
                        let tr = tr.instantiate_identity().skip_norm_wip();
                        format!("<{} as {}>", h, self.cpath(tr.def_id))
                    }
                    None => h,
                }
            }
            D::Ctor => self.cpath(parent),
            D::Closure => {
                format!("{}::{{closure#{}}}", self.cpath(parent), key.disambiguated_data.disambiguator)
            }
            ref d => {
                let n = match d.get_opt_name() {
                    Some(s) => s.to_string(),
                    None => format!("{{{:?}#{}}}", d, key.disambiguated_data.disambiguator),
                };
                format!("{}::{}", self.cpath(parent), n)
            }
        }
    }

    fn head(&self, t: Ty<'tcx>) -> String {
        match t.kind() {
            ty::Adt(d, _) => self.cpath(d.did()),
            ty::Ref(_, i, m) => format!("&{}{}", if m.is_mut() { "mut " } else { "" }, self.head(*i)),
            ty::RawPtr(i, _) => format!("*{}", self.head(*i)),
            ty::Slice(i) => format!("[{}]", self.head(*i)),
            ty::Array(i, _) => format!("[{};N]", self.head(*i)),
            ty::Tuple(ts) => format!("({})", ts.iter().map(|t| self.head(t)).collect::<Vec<_>>().join(",")),
            ty::Dynamic(ps, _) => match ps.principal_def_id() {
                Some(d) => format!("dyn {}", self.cpath(d)),
                None => "dyn".into(),
            },
            ty::Closure(d, _) => self.cpath(*d),
            ty::FnDef(d, _) => self.cpath((*d).into()),
            ty::Param(p) => p.name.to_string(),
            _ => format!("{:?}", t),
        }
    }

    fn ty(&mut self, t: Ty<'tcx>) -> usize {
        let t = self.tcx.erase_and_anonymize_regions(t);
        if let Some(i) = self.ty_ix.get(&t) {
            return *i;
        }
        let ix = self.ty_out.len();
        self.ty_ix.insert(t, ix);
        self.ty_out.push(String::new());
        let tcx = self.tcx;
        let env = ty::TypingEnv::fully_monomorphized();
        let generic = t.has_param() || t.has_infer() || t.has_placeholders();
        let s = esc(&format!("{}", rustc_middle::ty::print::with_no_trimmed_paths!(t.to_string())));
        let mut o = String::new();
        match t.kind() {
            ty::Bool => o.push_str("\"k\":\"bool\""),
            ty::Char => o.push_str("\"k\":\"char\""),
            ty::Int(i) => {
                let _ = write!(o, "\"k\":\"int\",\"n\":{},\"sg\":true", esc(i.name_str()));
            }
            ty::Uint(i) => {
                let _ = write!(o, "\"k\":\"int\",\"n\":{},\"sg\":false", esc(i.name_str()));
            }
            ty::Float(f) => {
                let _ = write!(o, "\"k\":\"float\",\"n\":{}", esc(f.name_str()));
            }
            ty::Str => o.push_str("\"k\":\"str\""),
            ty::Never => o.push_str("\"k\":\"never\""),
            ty::Adt(d, args) => {
                let p = self.cpath(d.did());
                let a: Vec<String> = args.types().map(|t| self.ty(t).to_string()).collect();
                let local = d.did().is_local();
                let with_fields = local
                    || p.starts_with("core::option")
                    || p.starts_with("core::result")
                    || p.starts_with("core::ops::control_flow");
                let kind = if d.is_enum() { "enum" } else if d.is_union() { "union" } else { "struct" };
                let _ = write!(o, "\"k\":\"adt\",\"ak\":\"{}\",\"p\":{},\"a\":[{}],\"l\":{}", kind, esc(&p), a.join(","), local);
                if d.is_box() {
                    o.push_str(",\"box\":true");
                }
                let mut vs = vec![];
                for (vi, v) in d.variants().iter_enumerated() {
                    let disc = if d.is_enum() {
                        d.discriminant_for_variant(tcx, vi).val.to_string()
                    } else {
                        "0".to_string()
                    };
                    let mut fs = vec![];
                    for f in v.fields.iter() {
                        let fty = if with_fields {
                            let ft = f.ty(tcx, args);
                            let ft = if generic { ft.skip_norm_wip() } else {
                                match tcx.try_normalize_erasing_regions(env, ft) { Ok(x) => x, Err(_) => ft.skip_norm_wip() }
                            };
                            self.ty(ft).to_string()
                        } else {
                            "null".to_string()
                        };
                        fs.push(format!("[{},{}]", esc(f.name.as_str()), fty));
                    }
                    // discriminants can exceed 64 bits: keep them as strings
                    vs.push(format!("[{},\"{}\",[{}]]", esc(v.name.as_str()), disc, fs.join(",")));
                }
                let _ = write!(o, ",\"v\":[{}]", vs.join(","));
                if let Some(d2) = tcx.adt_destructor(d.did()) {
                    o.push_str(",\"hasdrop\":true");
                    if local && !generic {
                        if let Ok(Some(i)) = Instance::try_resolve(tcx, env, d2.did, args) {
                            let f = self.func(i, true);
                            let _ = write!(o, ",\"drop\":{}", f);
                        }
                    }
                }
            }
            ty::Ref(_, i, m) => {
                let it = self.ty(*i);
                let _ = write!(o, "\"k\":\"ref\",\"m\":{},\"t\":{}", m.is_mut(), it);
            }
            ty::RawPtr(i, m) => {
                let it = self.ty(*i);
                let _ = write!(o, "\"k\":\"ptr\",\"m\":{},\"t\":{}", m.is_mut(), it);
            }
            ty::Tuple(ts) => {
                let a: Vec<String> = ts.iter().map(|t| self.ty(t).to_string()).collect();
                let _ = write!(o, "\"k\":\"tup\",\"ts\":[{}]", a.join(","));
            }
            ty::Array(i, n) => {
                let it = self.ty(*i);
                let n = n.try_to_target_usize(tcx).map(|x| x.to_string()).unwrap_or("null".into());
                let _ = write!(o, "\"k\":\"array\",\"t\":{},\"n\":{}", it, n);
            }
            ty::Slice(i) => {
                let it = self.ty(*i);
                let _ = write!(o, "\"k\":\"slice\",\"t\":{}", it);
            }
            ty::Dynamic(ps, _) => {
                let p = ps.principal_def_id().map(|d| self.cpath(d)).unwrap_or_default();
                let _ = write!(o, "\"k\":\"dyn\",\"p\":{}", esc(&p));
            }
            ty::Closure(d, cargs) => {
                let p = self.cpath(*d);
                let ca = cargs.as_closure();
                let ups: Vec<String> = if generic { vec![] } else { ca.upvar_tys().iter().map(|t| self.ty(t).to_string()).collect() };
                let names: Vec<String> = if !d.is_local() { vec![] } else { tcx.closure_saved_names_of_captured_variables(*d).iter().map(|s| esc(s.as_str())).collect() };
                let f = if generic { "null".to_string() } else {
                    let i = Instance::new_raw(*d, cargs);
                    self.func(i, false).to_string()
                };
                let _ = write!(o, "\"k\":\"closure\",\"p\":{},\"f\":{},\"up\":[{}],\"upn\":[{}]", esc(&p), f, ups.join(","), names.join(","));
            }
            ty::FnDef(d, fargs) => {
                let fargs = fargs.no_bound_vars();
                let did: DefId = (*d).into();
                let f = match fargs {
                    Some(a) if !generic => self.callee(did, a, env),
                    _ => format!("{{\"unres\":{}}}", esc(&self.cpath(did))),
                };
                let _ = write!(o, "\"k\":\"fndef\",\"c\":{}", f);
            }
            ty::FnPtr(..) => o.push_str("\"k\":\"fnptr\""),
            ty::Param(p) => {
                let _ = write!(o, "\"k\":\"param\",\"n\":{}", esc(p.name.as_str()));
            }
            ty::Alias(..) => o.push_str("\"k\":\"alias\""),
            _ => o.push_str("\"k\":\"other\""),
        }
        if !generic && s.len() < 3000 && matches!(t.kind(), ty::Adt(..) | ty::Ref(..) | ty::Closure(..) | ty::Array(..) | ty::Dynamic(..)) && !t.has_escaping_bound_vars() {
            let infcx = tcx.infer_ctxt().build(ty::TypingMode::PostAnalysis);
            let penv = ty::ParamEnv::empty();
            if let (Some(nx), Some(tr)) = (self.iter_next, self.iter_trait) {
                if t.is_sized(tcx, env) && infcx.type_implements_trait(tr, [t], penv).must_apply_modulo_regions() {
                    let a = tcx.mk_args(&[t.into()]);
                    let c = self.callee(nx, a, env);
                    let _ = write!(o, ",\"next\":{}", c);
                } else if let (Some(ii), Some(itr)) = (self.into_iter, self.into_iter_trait) {
                    if t.is_sized(tcx, env) && infcx.type_implements_trait(itr, [t], penv).must_apply_modulo_regions() {
                        let a = tcx.mk_args(&[t.into()]);
                        let c = self.callee(ii, a, env);
                        let _ = write!(o, ",\"into_iter\":{}", c);
                    }
                }
            }
        }
        self.ty_out[ix] = format!("{{{},\"s\":{}}}", o, s);
        ix
    }

    fn func(&mut self, inst: Instance<'tcx>, _r: bool) -> usize {
        self.func2(inst, false)
    }

    // ident: analyse the body with its own generic parameters (never instantiated locally)
    fn func2(&mut self, inst: Instance<'tcx>, ident: bool) -> usize {
        if let Some(i) = self.fn_ix.get(&(inst, ident)) {
            return *i;
        }
        let ix = self.fn_out.len();
        self.fn_ix.insert((inst, ident), ix);
        self.fn_out.push(String::new());
        self.work.push_back((inst, ident, ix));
        ix
    }

    fn targs(&mut self, args: GenericArgsRef<'tcx>) -> String {
        let v: Vec<String> = args.types().map(|t| self.ty(t).to_string()).collect();
        format!("[{}]", v.join(","))
    }

    fn callee(&mut self, did: DefId, args: GenericArgsRef<'tcx>, env: ty::TypingEnv<'tcx>) -> String {
        let tcx = self.tcx;
        let p = self.cpath(did);
        let kind = tcx.def_kind(did);
        if !matches!(kind, DefKind::Fn | DefKind::AssocFn | DefKind::Ctor(..) | DefKind::Closure) {
            return format!("{{\"unres\":{}}}", esc(&p));
        }
        let args = tcx.erase_and_anonymize_regions(args);
        let args = match tcx.try_normalize_erasing_regions(env, ty::Unnormalized::new_wip(args)) { Ok(a) => a, Err(_) => args };
        match Instance::try_resolve(tcx, env, did, args) {
            Ok(Some(i)) => match i.def {
                InstanceKind::Virtual(d, _) => {
                    let a = self.targs(i.args);
                    format!("{{\"virt\":{},\"a\":{}}}", esc(&self.cpath(d)), a)
                }
                _ => {
                    let ident = args.has_param();
                    let f = if ident { self.opaque(i, did) } else { self.func2(i, false) };
                    // the item as named at the call (trait method when called through a trait)
                    let a = self.targs(args);
                    format!("{{\"f\":{},\"n\":{},\"a\":{}}}", f, esc(&p), a)
                }
            },
            _ => {
                let a = self.targs(args);
                format!("{{\"unres\":{},\"a\":{}}}", esc(&p), a)
            }
        }
    }

    // an entry without a body (used for calls made from generic, never-instantiated code)
    fn opaque(&mut self, i: Instance<'tcx>, _did: DefId) -> usize {
        if let Some(x) = self.fn_ix.get(&(i, true)) {
            return *x;
        }
        let ix = self.fn_out.len();
        self.fn_ix.insert((i, true), ix);
        self.fn_out.push(String::new());
        let h = self.fn_header(i, true);
        self.fn_out[ix] = format!("{{{},\"b\":null}}", h);
        ix
    }

    fn span(&self, sp: Span) -> (String, usize) {
        let sm = self.tcx.sess.source_map();
        let sp = sp.source_callsite();
        if sp.is_dummy() {
            return ("?".into(), 0);
        }
        let lo = sm.lookup_char_pos(sp.lo());
        let f = match &lo.file.name {
            rustc_span::FileName::Real(r) => r.local_path().map(|p| p.display().to_string()).unwrap_or_else(|| "?".into()),
            _ => "?".into(),
        };
        (f, lo.line)
    }

    fn line(&self, sp: Span) -> usize {
        self.span(sp).1
    }

    fn mac(&self, sp: Span) -> Option<String> {
        let mut cur = sp;
        let mut out = None;
        while cur.from_expansion() {
            let d = cur.ctxt().outer_expn_data();
            if let rustc_span::hygiene::ExpnKind::Macro(_, n) = d.kind {
                out = Some(n.to_string());
            }
            cur = d.call_site;
        }
        out
    }

    fn fn_header(&mut self, inst: Instance<'tcx>, ident: bool) -> String {
        let tcx = self.tcx;
        let did = inst.def_id();
        let p = self.cpath(did);
        let mut o = String::new();
        let _ = write!(o, "\"p\":{},\"l\":{},\"cr\":{}", esc(&p), did.is_local(), esc(tcx.crate_name(did.krate).as_str()));
        if let Some(parent) = tcx.opt_parent(did) {
            match tcx.def_kind(parent) {
                DefKind::Trait => {
                    let _ = write!(o, ",\"ti\":{}", esc(&p));
                    if inst.args.types().next().is_some() {
                        let t = self.ty(inst.args.type_at(0));
                        let _ = write!(o, ",\"st\":{}", t);
                    }
                }
                DefKind::Impl { .. } => {
                    let st = tcx.type_of(parent).instantiate(tcx, inst.args);
                    let st = if ident { st.skip_norm_wip() } else {
                        match tcx.try_normalize_erasing_regions(ty::TypingEnv::fully_monomorphized(), st) { Ok(x) => x, Err(_) => st.skip_norm_wip() }
                    };
                    let t = self.ty(st);
                    let _ = write!(o, ",\"st\":{}", t);
                    if let Some(ai) = tcx.opt_associated_item(did) {
                        if let Some(td) = ai.trait_item_def_id() {
                            let _ = write!(o, ",\"ti\":{}", esc(&self.cpath(td)));
                        }
                    }
                }
                _ => {}
            }
        }
        let a = self.targs(inst.args);
        let _ = write!(o, ",\"a\":{}", a);
        let k = match inst.def {
            InstanceKind::Item(_) => match tcx.def_kind(did) {
                DefKind::Ctor(..) => "ctor".to_string(),
                DefKind::Closure => "closure".to_string(),
                DefKind::Static { .. } => "static".to_string(),
                DefKind::Const { .. } | DefKind::AssocConst { .. } => "const".to_string(),
                _ => "fn".to_string(),
            },
            InstanceKind::Intrinsic(_) => "intrinsic".to_string(),
            InstanceKind::Virtual(..) => "virtual".to_string(),
            InstanceKind::Shim(ref s) => {
                let d = format!("{:?}", s);
                let d: String = d.chars().take_while(|c| c.is_alphanumeric()).collect();
                format!("shim:{}", d)
            }
            _ => "other".to_string(),
        };
        let _ = write!(o, ",\"k\":{}", esc(&k));
        if did.is_local() {
            let (f, l) = self.span(tcx.def_span(did));
            let _ = write!(o, ",\"sp\":[{},{}]", esc(&f), l);
            let sp = tcx.def_span(did);
            if let Some(m) = self.mac(sp) {
                let _ = write!(o, ",\"m\":{}", esc(&m));
            }
            if matches!(tcx.def_kind(did), DefKind::Fn | DefKind::AssocFn) {
                let _ = write!(o, ",\"vis\":{}", esc(&format!("{:?}", tcx.visibility(did))));
            }
        }
        o
    }

    fn konst(&mut self, val: ConstValue, ty: Ty<'tcx>, depth: usize) -> String {
        let tcx = self.tcx;
        if depth > 8 {
            return "{\"unk\":\"depth\"}".into();
        }
        let unk = |s: &str| format!("{{\"unk\":{}}}", esc(s));
        match ty.kind() {
            ty::Bool | ty::Int(_) | ty::Uint(_) | ty::Char => match val.try_to_scalar() {
                Some(Scalar::Int(i)) => {
                    let sz = i.size();
                    if let ty::Int(_) = ty.kind() {
                        format!("{{\"c\":{}}}", i.to_int(sz))
                    } else {
                        format!("{{\"c\":{}}}", i.to_uint(sz))
                    }
                }
                _ => {
                    if let ConstValue::Indirect { .. } = val {
                        // read through a one-element tuple
                        let t = Ty::new_tup(tcx, &[ty]);
                        if let Some(d) = tcx.try_destructure_mir_constant_for_user_output(val, t) {
                            if let Some((v, t)) = d.fields.first() {
                                if !matches!(v, ConstValue::Indirect { .. }) {
                                    return self.konst(*v, *t, depth + 1);
                                }
                            }
                        }
                    }
                    unk("scalar")
                }
            },
            ty::Float(_) => match val.try_to_scalar() {
                Some(Scalar::Int(i)) => format!("{{\"fl\":{}}}", i.to_uint(i.size())),
                _ => unk("float"),
            },
            ty::Ref(_, inner, _) | ty::RawPtr(inner, _) => {
                match inner.kind() {
                    ty::Str => {
                        if let Some(b) = val.try_get_slice_bytes_for_diagnostics(tcx) {
                            return format!("{{\"str\":{}}}", esc(&String::from_utf8_lossy(b)));
                        }
                        return unk("str");
                    }
                    ty::Slice(e) => {
                        if matches!(e.kind(), ty::Uint(ty::UintTy::U8)) {
                            if let Some(b) = val.try_get_slice_bytes_for_diagnostics(tcx) {
                                return format!("{{\"ref\":{{\"bytes\":{}}}}}", esc(&b.iter().map(|x| format!("{:02x}", x)).collect::<String>()));
                            }
                        }
                        let (alloc_id, off, len) = match val {
                            ConstValue::Slice { alloc_id, meta } => (alloc_id, rustc_abi::Size::ZERO, meta),
                            ConstValue::Indirect { alloc_id, offset } => {
                                let GlobalAlloc::Memory(m) = tcx.global_alloc(alloc_id) else { return unk("slice alloc") };
                                let m = m.inner();
                                let ps = tcx.data_layout.pointer_size();
                                let Some(prov) = m.provenance().ptrs().get(&offset) else { return unk("slice prov") };
                                let b = m.inspect_with_uninit_and_ptr_outside_interpreter(offset.bytes_usize()..offset.bytes_usize() + 16);
                                let o = u64::from_le_bytes(b[0..8].try_into().unwrap());
                                let l = u64::from_le_bytes(b[8..16].try_into().unwrap());
                                let _ = ps;
                                (prov.alloc_id(), rustc_abi::Size::from_bytes(o), l)
                            }
                            _ => return unk("slice"),
                        };
                        if len > 400 {
                            return unk("long slice");
                        }
                        let at = Ty::new_array(tcx, *e, len);
                        let c = self.konst(ConstValue::Indirect { alloc_id, offset: off }, at, depth + 1);
                        return format!("{{\"ref\":{}}}", c);
                    }
                    ty::Dynamic(..) => return unk("dynref"),
                    _ => {}
                }
                let (aid, off) = match val {
                    ConstValue::Scalar(Scalar::Ptr(p, _)) => {
                        let (prov, off) = p.prov_and_relative_offset();
                        (prov.alloc_id(), off)
                    }
                    ConstValue::Indirect { alloc_id, offset } => {
                        let GlobalAlloc::Memory(m) = tcx.global_alloc(alloc_id) else { return unk("ref alloc") };
                        let m = m.inner();
                        let Some(prov) = m.provenance().ptrs().get(&offset) else { return unk("ref prov") };
                        let b = m.inspect_with_uninit_and_ptr_outside_interpreter(offset.bytes_usize()..offset.bytes_usize() + 8);
                        let o = u64::from_le_bytes(b[0..8].try_into().unwrap());
                        (prov.alloc_id(), rustc_abi::Size::from_bytes(o))
                    }
                    _ => return unk("ref"),
                };
                match tcx.global_alloc(aid) {
                    GlobalAlloc::Static(d) => format!("{{\"static\":{}}}", esc(&self.cpath(d))),
                    GlobalAlloc::Memory(_) => {
                        let c = self.konst(ConstValue::Indirect { alloc_id: aid, offset: off }, *inner, depth + 1);
                        format!("{{\"ref\":{}}}", c)
                    }
                    GlobalAlloc::Function { instance } => {
                        let f = self.func(instance, false);
                        format!("{{\"fp\":{}}}", f)
                    }
                    _ => unk("alloc"),
                }
            }
            ty::FnPtr(..) => match val {
                ConstValue::Scalar(Scalar::Ptr(p, _)) => {
                    let (prov, _) = p.prov_and_relative_offset();
                    match tcx.global_alloc(prov.alloc_id()) {
                        GlobalAlloc::Function { instance } => {
                            let f = self.func(instance, false);
                            format!("{{\"fp\":{}}}", f)
                        }
                        _ => unk("fnptr"),
                    }
                }
                _ => unk("fnptr"),
            },
            ty::FnDef(d, a) => {
                let did: DefId = (*d).into();
                match a.no_bound_vars() {
                    Some(a) => {
                        let c = self.callee(did, a, ty::TypingEnv::fully_monomorphized());
                        format!("{{\"fn\":{}}}", c)
                    }
                    None => unk("fndef binder"),
                }
            }
            ty::Closure(..) => {
                let t = self.ty(ty);
                format!("{{\"clo\":{}}}", t)
            }
            ty::Array(e, n) if matches!(e.kind(), ty::Uint(ty::UintTy::U8)) => {
                if let (ConstValue::Indirect { alloc_id, offset }, Some(n)) = (val, n.try_to_target_usize(tcx)) {
                    if let GlobalAlloc::Memory(m) = tcx.global_alloc(alloc_id) {
                        let b = m.inner().inspect_with_uninit_and_ptr_outside_interpreter(offset.bytes_usize()..offset.bytes_usize() + n as usize);
                        return format!("{{\"bytes\":{}}}", esc(&b.iter().map(|x| format!("{:02x}", x)).collect::<String>()));
                    }
                }
                unk("bytes")
            }
            ty::Tuple(ts) if ts.is_empty() => "{\"agg\":[null,[]]}".into(),
            ty::Adt(d, _) if d.is_union() => unk("union"),
            ty::Adt(..) | ty::Tuple(_) | ty::Array(..) => {
                if let ty::Array(_, n) = ty.kind() {
                    if n.try_to_target_usize(tcx).map(|n| n > 400).unwrap_or(true) {
                        return unk("long array");
                    }
                }
                match tcx.try_destructure_mir_constant_for_user_output(val, ty) {
                    Some(d) => {
                        let v = d.variant.map(|v| v.as_usize().to_string()).unwrap_or("null".into());
                        let fs: Vec<String> = d.fields.iter().map(|(v, t)| self.konst(*v, *t, depth + 1)).collect();
                        format!("{{\"agg\":[{},[{}]]}}", v, fs.join(","))
                    }
                    None => unk("adt"),
                }
            }
            _ => unk("kind"),
        }
    }

    fn operand(&mut self, op: &Operand<'tcx>, env: ty::TypingEnv<'tcx>) -> String {
        match op {
            Operand::Copy(p) => format!("{{\"cp\":{}}}", self.place(p)),
            Operand::Move(p) => format!("{{\"mv\":{}}}", self.place(p)),
            Operand::RuntimeChecks(_) => "{\"k\":0,\"v\":{\"c\":0}}".into(),
            Operand::Constant(c) => {
                let t = c.const_.ty();
                let ti = self.ty(t);
                let mut extra = String::new();
                if let mir::Const::Unevaluated(u, _) = c.const_ {
                    if u.promoted.is_none() {
                        let _ = write!(extra, ",\"cn\":{}", esc(&self.cpath(u.def)));
                    }
                }
                let v = if let ty::FnDef(d, a) = t.kind() {
                    let did: DefId = (*d).into();
                    match a.no_bound_vars() {
                        Some(a) => {
                            let cc = self.callee(did, a, env);
                            format!("{{\"fn\":{}}}", cc)
                        }
                        None => format!("{{\"fn\":{{\"unres\":{}}}}}", esc(&self.cpath(did))),
                    }
                } else if t.has_param() || c.const_.has_param() {
                    "{\"unk\":\"generic\"}".into()
                } else {
                    match c.const_.eval(self.tcx, env, c.span) {
                        Ok(cv) => self.konst(cv, t, 0),
                        Err(_) => "{\"unk\":\"eval\"}".into(),
                    }
                };
                format!("{{\"k\":{},\"v\":{}{}}}", ti, v, extra)
            }
        }
    }

    fn place(&mut self, p: &mir::Place<'tcx>) -> String {
        let mut o = format!("[{},[", p.local.as_usize());
        for (i, e) in p.projection.iter().enumerate() {
            if i > 0 {
                o.push(',');
            }
            match e {
                ProjectionElem::Deref => o.push_str("\"*\""),
                ProjectionElem::Field(f, t) => {
                    let t = self.ty(t);
                    let _ = write!(o, "[\"f\",{},{}]", f.as_usize(), t);
                }
                ProjectionElem::Index(l) => {
                    let _ = write!(o, "[\"i\",{}]", l.as_usize());
                }
                ProjectionElem::ConstantIndex { offset, min_length, from_end } => {
                    let _ = write!(o, "[\"ci\",{},{},{}]", offset, from_end, min_length);
                }
                ProjectionElem::Subslice { from, to, from_end } => {
                    let _ = write!(o, "[\"ss\",{},{},{}]", from, to, from_end);
                }
                ProjectionElem::Downcast(_, v) => {
                    let _ = write!(o, "[\"d\",{}]", v.as_usize());
                }
                _ => o.push_str("\"o\""),
            }
        }
        o.push_str("]]");
        o
    }

    fn record_unsize(&mut self, from: Ty<'tcx>, to: Ty<'tcx>) {
        // find innermost pointee pair: Box<T>->Box<dyn>, &T->&dyn, Arc<T>->Arc<dyn>
        let tcx = self.tcx;
        fn pointee<'tcx>(t: Ty<'tcx>) -> Option<Ty<'tcx>> {
            match t.kind() {
                ty::Ref(_, i, _) | ty::RawPtr(i, _) => Some(*i),
                ty::Adt(_, a) => a.types().next(),
                _ => None,
            }
        }
        let (Some(f), Some(t)) = (pointee(from), pointee(to)) else { return };
        if f.has_param() {
            return;
        }
        if let ty::Dynamic(ps, _) = t.kind() {
            if matches!(f.kind(), ty::Dynamic(..)) {
                return;
            }
            let f = tcx.erase_and_anonymize_regions(f);
            let t2 = tcx.erase_and_anonymize_regions(t);
            if !self.vt_seen.insert((f, t2)) {
                return;
            }
            if let Some(pr) = ps.principal() {
                let env = ty::TypingEnv::fully_monomorphized();
                let pr = tcx.instantiate_bound_regions_with_erased(pr);
                let tr = pr.with_self_ty(tcx, f);
                let tr = tcx.erase_and_anonymize_regions(tr);
                let mut ms = vec![];
                let tpath = self.cpath(tr.def_id);
                if tcx.crate_name(tr.def_id.krate).as_str() != "core" || tpath.contains("iter") {
                    for e in tcx.vtable_entries(tr) {
                        if let ty::VtblEntry::Method(i) = e {
                            // name: the trait item
                            let did = i.def_id();
                            let ti = tcx.opt_associated_item(did).and_then(|a| a.trait_item_def_id()).unwrap_or(did);
                            let ti = self.cpath(ti);
                            let fi = self.func(*i, true);
                            ms.push(format!("[{},{}]", esc(&ti), fi));
                        }
                    }
                }
                let _ = env;
                let (fi, ti) = (self.ty(f), self.ty(t2));
                self.vt.push(format!("{{\"from\":{},\"to\":{},\"tr\":{},\"ms\":[{}]}}", fi, ti, esc(&tpath), ms.join(",")));
            }
        }
    }

    fn body(&mut self, body: &mir::Body<'tcx>, env: ty::TypingEnv<'tcx>) -> String {
        let tcx = self.tcx;
        let mut o = String::new();
        let mut names: HashMap<usize, String> = HashMap::new();
        for d in &body.var_debug_info {
            if let mir::VarDebugInfoContents::Place(p) = d.value {
                if p.projection.is_empty() {
                    names.insert(p.local.as_usize(), d.name.to_string());
                }
            }
        }
        let mut ls = vec![];
        for (i, l) in body.local_decls.iter_enumerated() {
            let t = self.ty(l.ty);
            match names.get(&i.as_usize()) {
                Some(n) => ls.push(format!("[{},{}]", t, esc(n))),
                None => ls.push(format!("[{}]", t)),
            }
        }
        let _ = write!(o, "{{\"n\":{},\"ls\":[{}],\"bb\":[", body.arg_count, ls.join(","));
        if let Some(sa) = body.spread_arg {
            // rare; keep information
            let _ = sa;
        }
        for (bi, bb) in body.basic_blocks.iter_enumerated() {
            if bi.as_usize() > 0 {
                o.push(',');
            }
            let mut ss: Vec<String> = vec![];
            for s in &bb.statements {
                let ln = self.line(s.source_info.span);
                match &s.kind {
                    StatementKind::Assign(b) => {
                        let (p, rv) = &**b;
                        let ps = self.place(p);
                        let r = self.rvalue(rv, body, env);
                        ss.push(format!("[\"=\",{},{},{}]", ps, r, ln));
                    }
                    StatementKind::SetDiscriminant { place, variant_index } => {
                        let ps = self.place(place);
                        ss.push(format!("[\"sd\",{},{},{}]", ps, variant_index.as_usize(), ln));
                    }
                    StatementKind::StorageDead(l) => ss.push(format!("[\"x\",{}]", l.as_usize())),
                    StatementKind::StorageLive(l) => ss.push(format!("[\"l\",{}]", l.as_usize())),
                    _ => {}
                }
            }
            let t = bb.terminator();
            let ln = self.line(t.source_info.span);
            let mac = match self.mac(t.source_info.span) {
                Some(m) => esc(&m),
                None => "null".into(),
            };
            let un = |u: &mir::UnwindAction| match u {
                mir::UnwindAction::Cleanup(b) => b.as_usize().to_string(),
                _ => "null".into(),
            };
            let ts = match &t.kind {
                TerminatorKind::Goto { target, .. } => format!("[\"goto\",{}]", target.as_usize()),
                TerminatorKind::SwitchInt { discr, targets } => {
                    let d = self.operand(discr, env);
                    let dt = self.ty(discr.ty(&body.local_decls, tcx));
                    let v: Vec<String> = targets.iter().map(|(v, b)| format!("[\"{}\",{}]", v, b.as_usize())).collect();
                    format!("[\"sw\",{},{},[{}],{},{}]", d, dt, v.join(","), targets.otherwise().as_usize(), ln)
                }
                TerminatorKind::Return => "[\"ret\"]".into(),
                TerminatorKind::Unreachable => "[\"unr\"]".into(),
                TerminatorKind::UnwindResume => "[\"resume\"]".into(),
                TerminatorKind::UnwindTerminate(_) => "[\"uterm\"]".into(),
                TerminatorKind::Drop { place, target, unwind, .. } => {
                    let ps = self.place(place);
                    let pt = self.ty(place.ty(&body.local_decls, tcx).ty);
                    format!("[\"drop\",{},{},{},{},{}]", ps, pt, target.as_usize(), un(unwind), ln)
                }
                TerminatorKind::Call { func, args, destination, target, unwind, .. } => {
                    let f = self.operand(func, env);
                    let a: Vec<String> = args.iter().map(|a| self.operand(&a.node, env)).collect();
                    let at: Vec<String> = args.iter().map(|a| { let t = a.node.ty(&body.local_decls, tcx); self.ty(t).to_string() }).collect();
                    let d = self.place(destination);
                    let dt = self.ty(destination.ty(&body.local_decls, tcx).ty);
                    let t = target.map(|t| t.as_usize().to_string()).unwrap_or("null".into());
                    format!("[\"call\",{},[{}],{},{},{},{},{},{},[{}]]", f, a.join(","), d, t, un(unwind), ln, mac, dt, at.join(","))
                }
                TerminatorKind::Assert { cond, expected, msg, target, unwind } => {
                    let c = self.operand(cond, env);
                    let k = match &**msg {
                        mir::AssertKind::BoundsCheck { .. } => "bounds".to_string(),
                        mir::AssertKind::Overflow(op, ..) => format!("overflow:{:?}", op),
                        mir::AssertKind::OverflowNeg(_) => "overflow:Neg".into(),
                        mir::AssertKind::DivisionByZero(_) => "div0".into(),
                        mir::AssertKind::RemainderByZero(_) => "rem0".into(),
                        m => format!("{:?}", std::mem::discriminant(m)),
                    };
                    format!("[\"assert\",{},{},{},{},{},{}]", c, expected, esc(&k), target.as_usize(), un(unwind), ln)
                }
                TerminatorKind::FalseEdge { real_target, .. } => format!("[\"goto\",{}]", real_target.as_usize()),
                TerminatorKind::FalseUnwind { real_target, .. } => format!("[\"goto\",{}]", real_target.as_usize()),
                k => format!("[\"other\",{}]", esc(&format!("{:?}", std::mem::discriminant(k)))),
            };
            let _ = write!(o, "{{\"s\":[{}],\"t\":{},\"ln\":{}{}}}", ss.join(","), ts, ln, if bb.is_cleanup { ",\"cl\":true" } else { "" });
        }
        o.push_str("]}");
        o
    }

    fn rvalue(&mut self, rv: &Rvalue<'tcx>, body: &mir::Body<'tcx>, env: ty::TypingEnv<'tcx>) -> String {
        let tcx = self.tcx;
        match rv {
            Rvalue::Use(op, ..) => format!("[\"use\",{}]", self.operand(op, env)),
            Rvalue::Repeat(op, n) => {
                let n = n.try_to_target_usize(tcx).map(|x| x.to_string()).unwrap_or("null".into());
                format!("[\"rep\",{},{}]", self.operand(op, env), n)
            }
            Rvalue::Ref(_, bk, p) => {
                let m = matches!(bk, mir::BorrowKind::Mut { .. });
                format!("[\"ref\",{},{}]", self.place(p), m)
            }
            Rvalue::RawPtr(_, p) => format!("[\"ref\",{},true]", self.place(p)),
            Rvalue::Reborrow(_, _, p) => format!("[\"use\",{{\"cp\":{}}}]", self.place(p)),
            Rvalue::CopyForDeref(p) => format!("[\"use\",{{\"cp\":{}}}]", self.place(p)),
            Rvalue::ThreadLocalRef(d) => format!("[\"tls\",{}]", esc(&self.cpath(*d))),
            Rvalue::Cast(k, op, t) => {
                let from = op.ty(&body.local_decls, tcx);
                if let mir::CastKind::PointerCoercion(ty::adjustment::PointerCoercion::Unsize, _) = k {
                    self.record_unsize(from, *t);
                }
                let ks = format!("{:?}", k);
                let ks: String = match k {
                    mir::CastKind::PointerCoercion(p, _) => {
                        let s = format!("{:?}", p);
                        s.chars().take_while(|c| c.is_alphanumeric()).collect()
                    }
                    _ => ks,
                };
                let (f2, t2) = (self.ty(from), self.ty(*t));
                format!("[\"cast\",{},{},{},{}]", esc(&ks), self.operand(op, env), f2, t2)
            }
            Rvalue::BinaryOp(b, ab) => {
                let (a, c) = &**ab;
                let t = self.ty(a.ty(&body.local_decls, tcx));
                format!("[\"bin\",\"{:?}\",{},{},{}]", b, self.operand(a, env), self.operand(c, env), t)
            }
            Rvalue::UnaryOp(u, a) => format!("[\"un\",\"{:?}\",{}]", u, self.operand(a, env)),
            Rvalue::Discriminant(p) => {
                let t = self.ty(p.ty(&body.local_decls, tcx).ty);
                format!("[\"disc\",{},{}]", self.place(p), t)
            }
            Rvalue::Aggregate(k, ops) => {
                let os: Vec<String> = ops.iter().map(|o| self.operand(o, env)).collect();
                let ty = rv.ty(&body.local_decls, tcx);
                let t = self.ty(ty);
                let v = match &**k {
                    mir::AggregateKind::Adt(_, v, _, _, af) => {
                        if let Some(af) = af { format!("[{},{}]", v.as_usize(), af.as_usize()) } else { v.as_usize().to_string() }
                    }
                    mir::AggregateKind::Array(_) => "\"array\"".into(),
                    mir::AggregateKind::Tuple => "\"tup\"".into(),
                    mir::AggregateKind::Closure(..) => "\"clo\"".into(),
                    mir::AggregateKind::RawPtr(..) => "\"ptr\"".into(),
                    _ => "\"other\"".into(),
                };
                format!("[\"agg\",{},{},[{}]]", t, v, os.join(","))
            }
            _ => "[\"unk\"]".into(),
        }
    }

    fn process(&mut self, inst: Instance<'tcx>, ident: bool, ix: usize) {
        let tcx = self.tcx;
        let h = self.fn_header(inst, ident);
        let did = inst.def_id();
        let p = self.cpath(did);
        let mut want = match inst.def {
            InstanceKind::Item(_) => {
                did.is_local()
                    || matches!(tcx.def_kind(did), DefKind::Ctor(..))
                    || LOOK_THROUGH.iter().any(|x| p.starts_with(x) || p.contains(&format!(" as {}", x)))
                    || matches!(tcx.def_kind(did), DefKind::Closure) && LOOK_THROUGH.iter().any(|x| p.contains(x))
            }
            _ => false,
        };
        if want && p.contains("core::iter::") && !(p.ends_with("::next") || p.ends_with("}")) {
            want = false;
        }
        if want && !did.is_local() && !tcx.is_mir_available(did) {
            want = false;
        }
        if want && did.is_local() && matches!(tcx.def_kind(did), DefKind::AssocFn) {
            // trait method without a default body
            if let Some(ai) = tcx.opt_associated_item(did) {
                if !ai.defaultness(tcx).has_value() {
                    want = false;
                }
            }
        }
        if !want {
            self.fn_out[ix] = format!("{{{},\"b\":null}}", h);
            return;
        }
        let is_const = matches!(tcx.def_kind(did), DefKind::Const { .. } | DefKind::AssocConst { .. } | DefKind::Static { .. });
        let raw = if is_const { tcx.mir_for_ctfe(did) } else { tcx.instance_mir(inst.def) };
        let (body, env) = if ident {
            (raw.clone(), ty::TypingEnv::post_analysis(tcx, did))
        } else {
            let env = ty::TypingEnv::fully_monomorphized();
            let b = inst.try_instantiate_mir_and_normalize_erasing_regions(tcx, env, ty::EarlyBinder::bind(tcx, raw.clone()));
            match b {
                Ok(b) => (b, env),
                Err(_) => {
                    self.fn_out[ix] = format!("{{{},\"b\":null,\"err\":\"normalize\"}}", h);
                    return;
                }
            }
        };
        let b = self.body(&body, env);
        self.fn_out[ix] = format!("{{{},\"b\":{}}}", h, b);
    }

    fn run(&mut self, out: &str) {
        let tcx = self.tcx;
        self.iter_trait = tcx.get_diagnostic_item(rustc_span::sym::Iterator);
        self.into_iter_trait = tcx.get_diagnostic_item(rustc_span::sym::IntoIterator);
        let find = |tr: Option<DefId>, n: &str| tr.and_then(|t| tcx.associated_items(t).in_definition_order().find(|a| a.name().as_str() == n).map(|a| a.def_id));
        self.iter_next = find(self.iter_trait, "next");
        self.into_iter = find(self.into_iter_trait, "into_iter");
        let mut roots = vec![];
        let mut generic = vec![];
        for l in tcx.hir_body_owners() {
            let did = l.to_def_id();
            let kind = tcx.def_kind(did);
            match kind {
                DefKind::Fn | DefKind::AssocFn => {
                    if tcx.generics_of(did).requires_monomorphization(tcx) {
                        generic.push(did);
                        continue;
                    }
                    let i = Instance::mono(tcx, did);
                    roots.push(self.func(i, true));
                }
                DefKind::Static { .. } => {
                    let i = Instance::mono(tcx, did);
                    self.func(i, true);
                }
                _ => {}
            }
        }
        self.drain();
        // generic functions nobody instantiates in this crate
        let have: std::collections::HashSet<DefId> = self.fn_ix.keys().map(|(i, _)| i.def_id()).collect();
        for did in generic {
            if !have.contains(&did) {
                let i = Instance::new_raw(did, ty::GenericArgs::identity_for_item(tcx, did));
                self.func2(i, true);
            }
        }
        self.drain();
        // local trait impls
        let mut impls = vec![];
        for (tr, is) in tcx.all_local_trait_impls(()) {
            let tp = self.cpath(*tr);
            for i in is {
                let idid = i.to_def_id();
                let st = tcx.type_of(idid).instantiate_identity().skip_norm_wip();
                let h = self.head(st);
                let ms: Vec<String> = tcx.associated_items(idid).in_definition_order().map(|a| esc(a.name().as_str())).collect();
                let (f, l) = self.span(tcx.def_span(idid));
                impls.push(format!("{{\"tr\":{},\"self\":{},\"ms\":[{}],\"sp\":[{},{}]}}", esc(&tp), esc(&h), ms.join(","), esc(&f), l));
            }
        }
        let mut o = String::new();
        let _ = write!(o, "{{\"crate\":{},\n\"types\":[\n", esc(tcx.crate_name(LOCAL_CRATE).as_str()));
        o.push_str(&self.ty_out.join(",\n"));
        o.push_str("],\n\"fns\":[\n");
        o.push_str(&self.fn_out.join(",\n"));
        let _ = write!(o, "],\n\"vt\":[\n{}],\n\"impls\":[\n{}],\n\"roots\":{:?}}}\n", self.vt.join(",\n"), impls.join(",\n"), roots);
        let tmp = format!("{}.tmp", out);
        std::fs::write(&tmp, o).expect("write facts");
        std::fs::rename(&tmp, out).expect("rename facts");
    }

    fn drain(&mut self) {
        while let Some((i, ident, ix)) = self.work.pop_front() {
            self.process(i, ident, ix);
        }
    }
}

struct Cb {
    out: String,
}

impl rustc_driver_impl::Callbacks for Cb {
    fn config(&mut self, c: &mut rustc_interface::Config) {
        c.opts.unstable_opts.mir_opt_level = Some(0);
        c.opts.unstable_opts.inline_mir = Some(false);
    }
    fn after_analysis<'tcx>(&mut self, _c: &rustc_interface::interface::Compiler, tcx: TyCtxt<'tcx>) -> rustc_driver_impl::Compilation {
        let mut d = Dump {
            tcx,
            ty_ix: HashMap::new(),
            ty_out: vec![],
            fn_ix: HashMap::new(),
            fn_out: vec![],
            work: VecDeque::new(),
            vt: vec![],
            vt_seen: Default::default(),
            iter_next: None,
            iter_trait: None,
            into_iter: None,
            into_iter_trait: None,
        };
        d.run(&self.out);
        rustc_driver_impl::Compilation::Continue
    }
}

struct Plain;
impl rustc_driver_impl::Callbacks for Plain {}

fn main() -> std::process::ExitCode {
    // RUSTC_WORKSPACE_WRAPPER: argv[1] is the real rustc
    let mut args: Vec<String> = std::env::args().collect();
    args.remove(1);
    let name = args.iter().position(|a| a == "--crate-name").and_then(|i| args.get(i + 1)).cloned().unwrap_or_default();
    let want = std::env::var("VERIF_FACTS_CRATES").unwrap_or_default();
    let is_test = args.iter().any(|a| a == "--test");
    let code = rustc_driver_impl::catch_with_exit_code(|| {
        if want.split(',').any(|w| w == name) && !is_test {
            let out = format!("{}/{}.json", std::env::var("VERIF_FACTS_DIR").expect("VERIF_FACTS_DIR"), name);
            rustc_driver_impl::compiler_entrypoint(&args, &mut Cb { out });
        } else {
            rustc_driver_impl::compiler_entrypoint(&args, &mut Plain);
        }
    });
    code
}

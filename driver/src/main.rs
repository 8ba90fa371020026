//! Fact extractor: runs as RUSTC_WORKSPACE_WRAPPER and dumps, for the selected crates, the MIR
//! (as built, before drop elaboration and before the coroutine transform) of every local function,
//! closure, coroutine and constant, per instance, with resolved callees. It decides nothing.
#![feature(rustc_private)]
extern crate rustc_abi;
extern crate rustc_data_structures;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_index;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_session;
extern crate rustc_span;

use std::collections::{BTreeMap, HashMap, HashSet, VecDeque};
use std::fmt::Write as _;
use std::sync::Mutex;

use rustc_data_structures::steal::Steal;
use rustc_driver::{Callbacks, Compilation};
use rustc_hir::def::DefKind;
use rustc_hir::def_id::{DefId, LocalDefId};
use rustc_index::IndexVec;
use rustc_middle::mir::*;
use rustc_middle::ty::print::{PrintTraitRefExt, with_no_trimmed_paths, with_resolve_crate_name};
use rustc_middle::ty::{
    self, EarlyBinder, GenericArgsRef, Instance, Ty, TyCtxt, TypeFoldable, TypeVisitableExt,
    TypingEnv, Unnormalized,
};
use rustc_span::{ExpnKind, Span};

struct W(HashMap<LocalDefId, (Body<'static>, IndexVec<Promoted, Body<'static>>)>);
unsafe impl Send for W {}
static BODIES: Mutex<Option<W>> = Mutex::new(None);
type Prov = for<'a> fn(
    TyCtxt<'a>,
    LocalDefId,
) -> (&'a Steal<Body<'a>>, &'a Steal<IndexVec<Promoted, Body<'a>>>);
static ORIG: Mutex<Option<Prov>> = Mutex::new(None);

fn my_mir_promoted<'a>(
    tcx: TyCtxt<'a>,
    def: LocalDefId,
) -> (&'a Steal<Body<'a>>, &'a Steal<IndexVec<Promoted, Body<'a>>>) {
    let orig = ORIG.lock().unwrap().unwrap();
    let r = orig(tcx, def);
    let b = r.0.borrow().clone();
    let p = r.1.borrow().clone();
    let b: Body<'static> = unsafe { std::mem::transmute(b) };
    let p: IndexVec<Promoted, Body<'static>> = unsafe { std::mem::transmute(p) };
    BODIES.lock().unwrap().get_or_insert_with(|| W(HashMap::new())).0.insert(def, (b, p));
    r
}

fn esc(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn jl(v: Vec<String>) -> String {
    format!("[{}]", v.join(","))
}

struct Cx<'tcx> {
    tcx: TyCtxt<'tcx>,
    queue: VecDeque<(Instance<'tcx>, DefId)>,
    seen: HashSet<String>,
    out: Vec<String>,
    adts: BTreeMap<String, String>,
}

#[derive(Clone, Copy)]
struct Fx<'tcx> {
    args: GenericArgsRef<'tcx>,
    env: TypingEnv<'tcx>,
    root: DefId,
    identity: bool,
}

impl<'tcx> Cx<'tcx> {
    fn path(&self, d: DefId) -> String {
        with_resolve_crate_name!(with_no_trimmed_paths!(self.tcx.def_path_str(d)))
    }
    fn ty(&self, t: Ty<'tcx>) -> String {
        with_resolve_crate_name!(with_no_trimmed_paths!(format!("{t}")))
    }
    fn mono<T: TypeFoldable<TyCtxt<'tcx>> + Copy>(&self, fx: Fx<'tcx>, x: T) -> T {
        let y: T = if fx.identity {
            x
        } else {
            EarlyBinder::bind(self.tcx, x).instantiate(self.tcx, fx.args).skip_norm_wip()
        };
        let z = self.tcx.erase_and_anonymize_regions(y);
        match self.tcx.try_normalize_erasing_regions(fx.env, Unnormalized::dummy(z)) {
            Ok(v) => v,
            Err(_) => z,
        }
    }
    fn note_adt(&mut self, t: Ty<'tcx>) {
        if let ty::Adt(def, args) = t.kind() {
            let p = self.path(def.did());
            if self.adts.contains_key(&p) {
                return;
            }
            let mut vs = vec![];
            let local = def.did().is_local();
            for (vi, v) in def.variants().iter_enumerated() {
                let d = if def.is_enum() {
                    format!("{}", def.discriminant_for_variant(self.tcx, vi).val)
                } else {
                    "0".into()
                };
                let fs: Vec<String> = v
                    .fields
                    .iter()
                    .map(|f| {
                        let t = if local {
                            let t = f.ty(self.tcx, args).skip_norm_wip();
                            self.ty(t)
                        } else {
                            String::new()
                        };
                        let vis = match f.vis {
                            ty::Visibility::Public => 1,
                            _ => 0,
                        };
                        format!("[{},{},{}]", esc(f.name.as_str()), esc(&t), vis)
                    })
                    .collect();
                vs.push(format!("{{\"n\":{},\"d\":{},\"f\":{}}}", esc(v.name.as_str()), d, jl(fs)));
            }
            self.adts.insert(
                p,
                format!("{{\"enum\":{},\"local\":{},\"v\":{}}}", def.is_enum(), local, jl(vs)),
            );
        }
    }
    fn span(&self, sp: Span) -> String {
        // [file, line, [macro crates/names]]
        let mut ms = vec![];
        for e in sp.macro_backtrace() {
            match e.kind {
                ExpnKind::Macro(_, name) => {
                    let k = e
                        .macro_def_id
                        .map(|d| self.tcx.crate_name(d.krate).to_string())
                        .unwrap_or_default();
                    ms.push(esc(&format!("{k}::{name}")));
                }
                ExpnKind::Desugaring(k) => ms.push(esc(&format!("desugar::{k:?}"))),
                ExpnKind::AstPass(k) => ms.push(esc(&format!("ast::{k:?}"))),
                _ => {}
            }
        }
        let s = sp.source_callsite();
        let loc = self.tcx.sess.source_map().lookup_char_pos(s.lo());
        let f = format!("{}", loc.file.name.prefer_local_unconditionally());
        format!("[{},{},{}]", esc(f.trim_matches('"')), loc.line, jl(ms))
    }

    fn inst_key(&self, d: DefId, args: GenericArgsRef<'tcx>, root: DefId) -> String {
        let args = self.tcx.erase_and_anonymize_regions(args);
        let p = self.path(d);
        let has_ty = args.iter().any(|a| a.as_type().is_some() || a.as_const().is_some());
        if !has_ty {
            return p;
        }
        let ident = self
            .tcx
            .erase_and_anonymize_regions(ty::GenericArgs::identity_for_item(self.tcx, d));
        if ident == args {
            return p;
        }
        // closures: compare only parent args
        if self.tcx.is_closure_like(d) {
            let base = self.tcx.typeck_root_def_id(d);
            let n = self.tcx.generics_of(base).count();
            let bi = self
                .tcx
                .erase_and_anonymize_regions(ty::GenericArgs::identity_for_item(self.tcx, base));
            let pa: Vec<_> = args.iter().take(n).collect();
            if pa.iter().copied().eq(bi.iter()) {
                return p;
            }
            let s = with_resolve_crate_name!(with_no_trimmed_paths!(format!("{pa:?}")));
            let suffix = if args.has_param() { format!("@{}", self.path(root)) } else { String::new() };
            return format!("{p}<{s}>{suffix}");
        }
        let s = with_resolve_crate_name!(with_no_trimmed_paths!(format!("{args:?}")));
        let suffix = if args.has_param() { format!("@{}", self.path(root)) } else { String::new() };
        format!("{p}<{s}>{suffix}")
    }

    fn want(&self, d: DefId) -> bool {
        if d.is_local() {
            return BODIES
                .lock()
                .unwrap()
                .as_ref()
                .map(|w| w.0.contains_key(&d.expect_local()))
                .unwrap_or(false);
        }
        let p = self.path(d);
        let k = self.tcx.crate_name(d.krate);
        let k = k.as_str();
        if k == "core" || k == "alloc" || k == "std" {
            let ok = [
                "core::option::", "core::result::", "core::cmp::", "core::convert::", "core::bool::",
                "core::ops::control_flow::", "core::task::poll::", "core::ops::range", "core::mem::take", "core::mem::replace",
                "std::option::", "std::result::", "std::cmp::", "std::convert::", "std::bool::",
                "std::ops::ControlFlow", "std::task::Poll", "std::ops::Range", "<core::option", "<std::option",
                "<core::result", "<std::result", "<core::cmp", "<std::cmp", "std::ops::Try", "std::ops::FromResidual",
                "<std::ops::ControlFlow", "<std::task::Poll", "std::mem::take", "std::mem::replace", "std::ops::Bound", "std::ops::RangeBounds",
                "<T as std::convert::", "<U as std::convert::", "<&", "<std::ops::Bound", "<! as", "<bool as",
            ];
            if ok.iter().any(|o| p.starts_with(o)) {
                return self.tcx.is_mir_available(d);
            }
            // impls for Option/Result etc. are printed `<X as T>::f` or `core::option::<impl ..>::f`
        }
        false
    }

    fn enqueue(&mut self, d: DefId, args: GenericArgsRef<'tcx>, fx: Fx<'tcx>) -> Option<String> {
        if !self.want(d) {
            return None;
        }
        if args.iter().count() > 60 {
            return None;
        }
        let key = self.inst_key(d, args, fx.root);
        if key.len() > 6000 {
            return None;
        }
        if self.seen.insert(key.clone()) {
            let args = self.tcx.erase_and_anonymize_regions(args);
            self.queue.push_back((Instance { def: ty::InstanceKind::Item(d), args }, fx.root));
        }
        Some(key)
    }

    fn callee(&mut self, fx: Fx<'tcx>, d: DefId, args: GenericArgsRef<'tcx>) -> String {
        let mut o = format!("{{\"path\":{}", esc(&self.path(d)));
        let ga: Vec<String> = args
            .iter()
            .filter_map(|a| a.as_type())
            .take(8)
            .map(|t| {
                let mut s = self.ty(t);
                if s.len() > 400 {
                    let mut n = 400;
                    while !s.is_char_boundary(n) { n -= 1; }
                    s.truncate(n);
                }
                esc(&s)
            })
            .collect();
        let _ = write!(o, ",\"ga\":{}", jl(ga));
        let dk = self.tcx.def_kind(d);
        if let Some(tr) = self.tcx.trait_of_assoc(d) {
            let _ = write!(o, ",\"trait\":{}", esc(&self.path(tr)));
            // default body
            if d.is_local() {
                if let Some(k) = self.enqueue_default(d) {
                    let _ = write!(o, ",\"dflt\":{}", esc(&k));
                }
            }
        }
        let _ = write!(o, ",\"name\":{}", esc(&self.tcx.opt_item_name(d).map(|s| s.to_string()).unwrap_or_default()));
        if matches!(dk, DefKind::Ctor(..)) {
            let parent = self.tcx.parent(d);
            // struct ctor: parent is struct; variant ctor: parent is variant, its parent the enum
            let (adt, vname) = if self.tcx.def_kind(parent) == DefKind::Variant {
                (self.tcx.parent(parent), self.tcx.item_name(parent).to_string())
            } else {
                (parent, self.tcx.item_name(parent).to_string())
            };
            let t = self.tcx.type_of(adt).skip_binder();
            self.note_adt(t);
            let _ = write!(o, ",\"ctor\":[{},{}]", esc(&self.path(adt)), esc(&vname));
        } else if matches!(dk, DefKind::Fn | DefKind::AssocFn) {
            let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
                Instance::try_resolve(self.tcx, fx.env, d, args)
            }));
            if let Ok(Ok(Some(inst))) = r {
                match inst.def {
                    ty::InstanceKind::Item(rd) => {
                        let _ = write!(o, ",\"res\":{}", esc(&self.path(rd)));
                        if let Some(im) = self.tcx.inherent_impl_of_assoc(rd).or_else(|| self.tcx.trait_impl_of_assoc(rd)) {
                            let st = self.tcx.type_of(im).skip_binder();
                            let _ = write!(o, ",\"rself\":{}", esc(&self.ty(st)));
                        }
                        if let Some(k) = self.enqueue(rd, inst.args, fx) {
                            let _ = write!(o, ",\"key\":{}", esc(&k));
                        }
                    }
                    other => {
                        let _ = write!(o, ",\"shim\":{}", esc(&format!("{other:?}").chars().take(60).collect::<String>()));
                    }
                }
            }
        }
        o.push('}');
        o
    }

    fn enqueue_default(&mut self, d: DefId) -> Option<String> {
        if !self.want(d) {
            return None;
        }
        Some(self.path(d))
    }

    fn constval(&mut self, fx: Fx<'tcx>, v: ConstValue, t: Ty<'tcx>, depth: usize) -> String {
        let tcx = self.tcx;
        if depth > 8 {
            return format!("{{\"k\":\"opq\",\"ty\":{}}}", esc(&self.ty(t)));
        }
        match t.kind() {
            ty::Int(_) | ty::Uint(_) | ty::Bool | ty::Char => {
                if let Some(s) = v.try_to_scalar_int() {
                    let size = s.size();
                    let bits = s.to_bits(size);
                    let val = if t.is_signed() { format!("{}", size.sign_extend(bits)) } else { format!("{bits}") };
                    return format!("{{\"k\":\"int\",\"v\":{},\"ty\":{}}}", esc(&val), esc(&self.ty(t)));
                }
            }
            ty::Float(_) => {
                if let Some(s) = v.try_to_scalar_int() {
                    let size = s.size();
                    let bits = s.to_bits(size);
                    let f = if size.bytes() == 8 { f64::from_bits(bits as u64) } else { f32::from_bits(bits as u32) as f64 };
                    return format!("{{\"k\":\"float\",\"v\":{}}}", esc(&format!("{f}")));
                }
            }
            ty::Ref(_, inner, _) if inner.is_str() => {
                if let Some(b) = v.try_get_slice_bytes_for_diagnostics(tcx) {
                    return format!("{{\"k\":\"str\",\"v\":{}}}", esc(&String::from_utf8_lossy(b)));
                }
            }
            ty::Ref(_, inner, _) => {
                // deref through the allocation
                if let ty::Slice(_) | ty::Dynamic(..) = inner.kind() {
                } else if let ConstValue::Scalar(rustc_middle::mir::interpret::Scalar::Ptr(p, _)) = v {
                    let (prov, off) = p.into_raw_parts();
                    let iv = ConstValue::Indirect { alloc_id: prov.alloc_id(), offset: off };
                    let s = self.constval(fx, iv, *inner, depth + 1);
                    return format!("{{\"k\":\"refto\",\"v\":{s}}}");
                }
            }
            ty::FnDef(d, a) => {
                let c = self.callee(fx, *d, a.no_bound_vars().unwrap());
                return format!("{{\"k\":\"fn\",\"c\":{c}}}");
            }
            ty::Adt(..) | ty::Tuple(..) | ty::Array(..) => {
                self.note_adt(t);
                let r = if t.has_param() {
                    None
                } else {
                    std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
                        tcx.try_destructure_mir_constant_for_user_output(v, t)
                    }))
                    .ok()
                    .flatten()
                };
                if let Some(d) = r {
                    let fs: Vec<String> =
                        d.fields.iter().map(|(fv, ft)| self.constval(fx, *fv, *ft, depth + 1)).collect();
                    let (name, vn, fnames) = match t.kind() {
                        ty::Adt(def, _) => {
                            let vi = d.variant.unwrap_or(rustc_abi::FIRST_VARIANT);
                            let vd = def.variant(vi);
                            (
                                self.path(def.did()),
                                vd.name.to_string(),
                                vd.fields.iter().map(|f| esc(f.name.as_str())).collect::<Vec<_>>(),
                            )
                        }
                        ty::Array(..) => ("array".into(), String::new(), vec![]),
                        _ => ("tuple".into(), String::new(), vec![]),
                    };
                    return format!(
                        "{{\"k\":\"agg\",\"adt\":{},\"vn\":{},\"fn\":{},\"f\":{}}}",
                        esc(&name),
                        esc(&vn),
                        jl(fnames),
                        jl(fs)
                    );
                }
            }
            _ => {}
        }
        format!("{{\"k\":\"opq\",\"ty\":{},\"s\":{}}}", esc(&self.ty(t)), esc(&format!("{v:?}").chars().take(80).collect::<String>()))
    }

    fn konst(&mut self, fx: Fx<'tcx>, c: &ConstOperand<'tcx>, fkey: &str) -> String {
        let t = self.mono(fx, c.const_.ty());
        if let ty::FnDef(d, a) = t.kind() {
            let cal = self.callee(fx, *d, a.no_bound_vars().unwrap());
            return format!("{{\"k\":\"fn\",\"c\":{cal}}}");
        }
        if let Const::Unevaluated(u, _) = c.const_ {
            let args = self.mono(fx, u.args);
            if let Some(p) = u.promoted {
                return format!("{{\"k\":\"prom\",\"key\":{},\"ty\":{}}}", esc(&format!("{fkey}::promoted[{}]", p.index())), esc(&self.ty(t)));
            }
            let mut extra = String::new();
            if u.def.is_local() {
                // resolve assoc consts
                let dk = self.tcx.def_kind(u.def);
                let mut target = Some((u.def, args));
                if matches!(dk, DefKind::AssocConst { .. }) {
                    target = match Instance::try_resolve(self.tcx, fx.env, u.def, args) {
                        Ok(Some(i)) => Some((i.def_id(), i.args)),
                        _ => None,
                    };
                }
                if let Some((d, a)) = target {
                    if let Some(k) = self.enqueue(d, a, fx) {
                        let _ = write!(extra, ",\"key\":{}", esc(&k));
                    }
                }
            }
            let val = if args.has_param() {
                None
            } else {
                let m = Const::Unevaluated(UnevaluatedConst { def: u.def, args, promoted: None }, t);
                m.eval(self.tcx, fx.env, c.span).ok()
            };
            let vs = match val {
                Some(v) => self.constval(fx, v, t, 0),
                None => "null".into(),
            };
            let ga: Vec<String> = args.iter().filter_map(|a| a.as_type()).map(|t| esc(&self.ty(t))).collect();
            return format!(
                "{{\"k\":\"un\",\"path\":{},\"ga\":{},\"ty\":{},\"v\":{}{}}}",
                esc(&self.path(u.def)),
                jl(ga),
                esc(&self.ty(t)),
                vs,
                extra
            );
        }
        if let Const::Val(v, _) = c.const_ {
            if matches!(v, ConstValue::ZeroSized) && !matches!(t.kind(), ty::Adt(..) | ty::Tuple(..)| ty::Array(..)) {
                return format!("{{\"k\":\"zst\",\"ty\":{}}}", esc(&self.ty(t)));
            }
            if let Some(d) = c.check_static_ptr(self.tcx) {
                return format!("{{\"k\":\"static\",\"path\":{},\"ty\":{}}}", esc(&self.path(d)), esc(&self.ty(t)));
            }
            return self.constval(fx, v, t, 0);
        }
        if let Const::Ty(_, ct) = c.const_ {
            let ct = self.mono(fx, ct);
            if let Some(v) = ct.try_to_value() {
                let cv = self.tcx.valtree_to_const_val(v);
                return self.constval(fx, cv, t, 0);
            }
        }
        format!("{{\"k\":\"opq\",\"ty\":{},\"s\":{}}}", esc(&self.ty(t)), esc(&format!("{:?}", c.const_).chars().take(80).collect::<String>()))
    }

    fn place(&mut self, fx: Fx<'tcx>, body: &Body<'tcx>, p: &Place<'tcx>) -> String {
        let mut t = self.mono(fx, body.local_decls[p.local].ty);
        let mut var: Option<rustc_abi::VariantIdx> = None;
        let mut v = vec![];
        for e in p.projection.iter() {
            match e {
                ProjectionElem::Deref => {
                    v.push("[\"*\"]".to_string());
                    t = t.builtin_deref(true).unwrap_or(t);
                    var = None;
                }
                ProjectionElem::Field(i, ft) => {
                    let name = match t.kind() {
                        ty::Adt(def, _) => {
                            let vd = match var {
                                Some(x) => def.variant(x),
                                None if def.is_struct() || def.is_union() => def.non_enum_variant(),
                                None => def.variant(rustc_abi::FIRST_VARIANT),
                            };
                            vd.fields.get(i).map(|f| f.name.to_string()).unwrap_or_else(|| format!("{}", i.index()))
                        }
                        _ => format!("{}", i.index()),
                    };
                    let nt = match t.kind() {
                        ty::Adt(def, _) if def.is_struct() => {
                            let vd = def.non_enum_variant();
                            vd.fields.len() == 1
                                && name == "0"
                                && self.tcx.crate_name(def.did().krate).as_str().starts_with("rexecutor")
                        }
                        _ => false,
                    };
                    v.push(format!("[\"f\",{},{},{}]", i.index(), esc(&name), nt as u8));
                    t = self.mono(fx, ft);
                    var = None;
                }
                ProjectionElem::Downcast(n, x) => {
                    let name = match t.kind() {
                        ty::Adt(def, _) => def.variant(x).name.to_string(),
                        _ => n.map(|s| s.to_string()).unwrap_or_default(),
                    };
                    v.push(format!("[\"d\",{},{}]", x.index(), esc(&name)));
                    var = Some(x);
                }
                ProjectionElem::Index(l) => {
                    v.push(format!("[\"i\",{}]", l.index()));
                    t = t.builtin_index().unwrap_or(t);
                }
                ProjectionElem::ConstantIndex { offset, from_end, .. } => {
                    v.push(format!("[\"c\",{offset},{from_end}]"));
                    t = t.builtin_index().unwrap_or(t);
                }
                ProjectionElem::Subslice { from, to, from_end } => {
                    v.push(format!("[\"s\",{from},{to},{from_end}]"));
                }
                _ => {}
            }
        }
        format!("[{},{}]", p.local.index(), jl(v))
    }

    fn place_ty(&mut self, fx: Fx<'tcx>, body: &Body<'tcx>, p: &Place<'tcx>) -> Ty<'tcx> {
        let t = p.ty(&body.local_decls, self.tcx).ty;
        self.mono(fx, t)
    }

    fn operand(&mut self, fx: Fx<'tcx>, body: &Body<'tcx>, o: &Operand<'tcx>, fkey: &str) -> String {
        match o {
            Operand::Copy(p) => format!("[\"cp\",{}]", self.place(fx, body, p)),
            Operand::Move(p) => format!("[\"mv\",{}]", self.place(fx, body, p)),
            Operand::Constant(c) => format!("[\"k\",{}]", self.konst(fx, c, fkey)),
            _ => "[\"k\",{\"k\":\"int\",\"v\":\"0\",\"ty\":\"bool\"}]".into(),
        }
    }

    fn rvalue(&mut self, fx: Fx<'tcx>, body: &Body<'tcx>, r: &Rvalue<'tcx>, fkey: &str) -> String {
        match r {
            Rvalue::Use(o, _) => format!("[\"use\",{}]", self.operand(fx, body, o, fkey)),
            Rvalue::Repeat(o, n) => {
                let n = self.mono(fx, *n);
                format!("[\"repeat\",{},{}]", self.operand(fx, body, o, fkey), esc(&format!("{n:?}")))
            }
            Rvalue::Ref(_, k, p) => {
                let m = match k {
                    BorrowKind::Shared => "s",
                    BorrowKind::Fake(_) => "k",
                    BorrowKind::Mut { .. } => "m",
                };
                format!("[\"ref\",\"{m}\",{}]", self.place(fx, body, p))
            }
            Rvalue::Reborrow(_, _, p) => format!("[\"ref\",\"m\",[{},[[\"*\"]]]]", p.local.index()),
            Rvalue::ThreadLocalRef(d) => format!("[\"tls\",{}]", esc(&self.path(*d))),
            Rvalue::RawPtr(_, p) => format!("[\"ref\",\"r\",{}]", self.place(fx, body, p)),
            Rvalue::Cast(k, o, t) => {
                let t = self.mono(fx, *t);
                let kn = match k {
                    CastKind::IntToInt => "int",
                    CastKind::FloatToInt => "f2i",
                    CastKind::IntToFloat => "i2f",
                    CastKind::FloatToFloat => "f2f",
                    CastKind::PointerCoercion(..) => "coerce",
                    CastKind::Transmute => "transmute",
                    CastKind::PtrToPtr => "ptr",
                    _ => "other",
                };
                let ot = o.ty(&body.local_decls, self.tcx);
                let ot = self.mono(fx, ot);
                format!("[\"cast\",\"{kn}\",{},{},{}]", self.operand(fx, body, o, fkey), esc(&self.ty(t)), esc(&self.ty(ot)))
            }
            Rvalue::BinaryOp(op, ab) => {
                let t = ab.0.ty(&body.local_decls, self.tcx);
                let t = self.mono(fx, t);
                format!(
                    "[\"bin\",\"{op:?}\",{},{},{}]",
                    self.operand(fx, body, &ab.0, fkey),
                    self.operand(fx, body, &ab.1, fkey),
                    esc(&self.ty(t))
                )
            }
            Rvalue::UnaryOp(op, a) => format!("[\"un\",\"{op:?}\",{}]", self.operand(fx, body, a, fkey)),
            Rvalue::Discriminant(p) => {
                let t = self.place_ty(fx, body, p);
                self.note_adt(t);
                let s = match t.kind() {
                    ty::Adt(d, _) => self.path(d.did()),
                    _ => self.ty(t),
                };
                format!("[\"discr\",{},{}]", self.place(fx, body, p), esc(&s))
            }
            Rvalue::Aggregate(k, ops) => {
                let os: Vec<String> = ops.iter().map(|o| self.operand(fx, body, o, fkey)).collect();
                let head = match &**k {
                    AggregateKind::Array(_) => "[\"array\"]".to_string(),
                    AggregateKind::Tuple => "[\"tuple\"]".to_string(),
                    AggregateKind::RawPtr(..) => "[\"rawptr\"]".to_string(),
                    AggregateKind::Adt(d, vi, a, _, _) => {
                        let a = self.mono(fx, *a);
                        let def = self.tcx.adt_def(*d);
                        let t = Ty::new_adt(self.tcx, def, a);
                        self.note_adt(t);
                        let vd = def.variant(*vi);
                        let fs: Vec<String> = vd.fields.iter().map(|f| esc(f.name.as_str())).collect();
                        format!("[\"adt\",{},{},{},{}]", esc(&self.path(*d)), esc(vd.name.as_str()), jl(fs), def.is_enum())
                    }
                    AggregateKind::Closure(d, a) | AggregateKind::CoroutineClosure(d, a) => {
                        let a = self.mono(fx, *a);
                        let k = self.enqueue(*d, a, fx).unwrap_or_default();
                        format!("[\"closure\",{}]", esc(&k))
                    }
                    AggregateKind::Coroutine(d, a) => {
                        let a = self.mono(fx, *a);
                        let k = self.enqueue(*d, a, fx).unwrap_or_default();
                        format!("[\"coroutine\",{}]", esc(&k))
                    }
                };
                format!("[\"agg\",{head},{}]", jl(os))
            }
            Rvalue::CopyForDeref(p) => format!("[\"use\",[\"cp\",{}]]", self.place(fx, body, p)),
            other => format!("[\"other\",{}]", esc(&format!("{other:?}"))),
        }
    }

    fn body(&mut self, fx: Fx<'tcx>, body: &Body<'tcx>, key: &str, did: DefId) -> String {
        let tcx = self.tcx;
        let mut o = String::new();
        let _ = write!(o, "{{\"key\":{},\"path\":{}", esc(key), esc(&self.path(did)));
        let _ = write!(o, ",\"span\":{}", self.span(body.span));
        let _ = write!(o, ",\"kind\":{}", esc(&format!("{:?}", tcx.def_kind(did)).chars().take(30).collect::<String>()));
        if tcx.is_coroutine(did) {
            o.push_str(",\"coroutine\":1");
        }
        let _ = write!(o, ",\"local\":{}", did.is_local());
        let root = tcx.typeck_root_def_id(did);
        let _ = write!(o, ",\"rootpath\":{}", esc(&self.path(root)));
        if matches!(tcx.def_kind(did), DefKind::Fn | DefKind::AssocFn | DefKind::Const{..} | DefKind::AssocConst{..}) {
            let _ = write!(o, ",\"name\":{}", esc(tcx.item_name(did).as_str()));
            let _ = write!(o, ",\"pub\":{}", tcx.visibility(did).is_public());
            if let Some(im) = tcx.inherent_impl_of_assoc(did).or_else(|| tcx.trait_impl_of_assoc(did)) {
                let st = tcx.type_of(im).skip_binder();
                let _ = write!(o, ",\"self\":{}", esc(&self.ty(st)));
                if let Some(tr) = tcx.impl_opt_trait_ref(im) {
                    let tr = tr.skip_binder();
                    let s = with_resolve_crate_name!(with_no_trimmed_paths!(format!("{}", tr.print_only_trait_path())));
                    let _ = write!(o, ",\"trait\":{},\"traitfull\":{}", esc(&self.path(tr.def_id)), esc(&s));
                }
            } else if let Some(tr) = tcx.trait_of_assoc(did) {
                let _ = write!(o, ",\"intrait\":{}", esc(&self.path(tr)));
            }
        }
        let _ = write!(o, ",\"nargs\":{}", body.arg_count);
        let mut names: HashMap<usize, String> = HashMap::new();
        for v in &body.var_debug_info {
            if let VarDebugInfoContents::Place(p) = v.value {
                if p.projection.is_empty() {
                    names.entry(p.local.index()).or_insert(v.name.to_string());
                }
            }
        }
        let ls: Vec<String> = body
            .local_decls
            .iter_enumerated()
            .map(|(l, d)| {
                let t = self.mono(fx, d.ty);
                self.note_adt(t);
                let mut s = self.ty(t);
                if s.len() > 600 {
                    let mut n = 600;
                    while !s.is_char_boundary(n) { n -= 1; }
                    s.truncate(n);
                }
                match names.get(&l.index()) {
                    Some(n) => format!("[{},{}]", esc(&s), esc(n)),
                    None => format!("[{}]", esc(&s)),
                }
            })
            .collect();
        let _ = write!(o, ",\"locals\":{}", jl(ls));
        let _ = write!(o, ",\"spread\":{}", body.spread_arg.map(|l| l.index() as i64).unwrap_or(-1));
        let mut bbs = vec![];
        for bb in body.basic_blocks.iter() {
            let mut ss = vec![];
            for s in &bb.statements {
                let x = match &s.kind {
                    StatementKind::Assign(b) => {
                        let (p, r) = &**b;
                        if matches!(r, Rvalue::Ref(_, BorrowKind::Fake(_), _)) {
                            continue;
                        }
                        format!("[\"=\",{},{},{}]", self.place(fx, body, p), self.rvalue(fx, body, r, key), self.span(s.source_info.span))
                    }
                    StatementKind::SetDiscriminant { place, variant_index } => {
                        let t = self.place_ty(fx, body, place);
                        let n = match t.kind() {
                            ty::Adt(d, _) => d.variant(*variant_index).name.to_string(),
                            _ => String::new(),
                        };
                        format!("[\"sd\",{},{}]", self.place(fx, body, place), esc(&n))
                    }
                    StatementKind::StorageDead(l) => format!("[\"dead\",{}]", l.index()),
                    StatementKind::StorageLive(l) => format!("[\"live\",{}]", l.index()),
                    _ => continue,
                };
                ss.push(x);
            }
            let t = bb.terminator();
            let sp = self.span(t.source_info.span);
            let ts = match &t.kind {
                TerminatorKind::Goto { target, .. } => format!("[\"goto\",{}]", target.index()),
                TerminatorKind::SwitchInt { discr, targets } => {
                    let ty_ = discr.ty(&body.local_decls, tcx);
                    let ty_ = self.mono(fx, ty_);
                    let vs: Vec<String> = targets
                        .iter()
                        .map(|(v, b)| {
                            let vv = if ty_.is_signed() {
                                let sz = tcx.layout_of(fx.env.as_query_input(ty_)).map(|l| l.size).ok();
                                match sz { Some(s) => format!("{}", s.sign_extend(v)), None => format!("{v}") }
                            } else { format!("{v}") };
                            format!("[\"{vv}\",{}]", b.index())
                        })
                        .collect();
                    format!("[\"switch\",{},{},{},{}]", self.operand(fx, body, discr, key), jl(vs), targets.otherwise().index(), esc(&self.ty(ty_)))
                }
                TerminatorKind::Return => "[\"ret\"]".into(),
                TerminatorKind::Unreachable => "[\"unreachable\"]".into(),
                TerminatorKind::Drop { place, target, .. } => {
                    let t = self.place_ty(fx, body, place);
                    let nd = t.needs_drop(tcx, fx.env);
                    let mut s = self.ty(t);
                    if s.len() > 600 {
                        let mut n = 600;
                        while !s.is_char_boundary(n) { n -= 1; }
                        s.truncate(n);
                    }
                    format!("[\"drop\",{},{},{},{}]", self.place(fx, body, place), target.index(), esc(&s), nd)
                }
                TerminatorKind::Call { func, args, destination, target, fn_span, .. } => {
                    let f = self.operand(fx, body, func, key);
                    let a: Vec<String> = args.iter().map(|x| self.operand(fx, body, &x.node, key)).collect();
                    let dt = self.place_ty(fx, body, destination);
                    let mut dts = self.ty(dt);
                    if dts.len() > 600 {
                        let mut n = 600;
                        while !dts.is_char_boundary(n) { n -= 1; }
                        dts.truncate(n);
                    }
                    format!(
                        "[\"call\",{},{},{},{},{},{}]",
                        f,
                        jl(a),
                        self.place(fx, body, destination),
                        target.map(|b| b.index() as i64).unwrap_or(-1),
                        self.span(*fn_span),
                        esc(&dts)
                    )
                }
                TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                    let m = format!("{msg:?}");
                    format!("[\"assert\",{},{},{},{}]", self.operand(fx, body, cond, key), expected, target.index(), esc(&m.chars().take(80).collect::<String>()))
                }
                TerminatorKind::Yield { value, resume, resume_arg, .. } => {
                    format!("[\"yield\",{},{},{}]", self.operand(fx, body, value, key), resume.index(), self.place(fx, body, resume_arg))
                }
                TerminatorKind::FalseEdge { real_target, .. } => format!("[\"goto\",{}]", real_target.index()),
                TerminatorKind::FalseUnwind { real_target, .. } => format!("[\"goto\",{}]", real_target.index()),
                TerminatorKind::UnwindResume => "[\"resume\"]".into(),
                TerminatorKind::CoroutineDrop => "[\"resume\"]".into(),
                other => format!("[\"other\",{}]", esc(&format!("{other:?}").chars().take(80).collect::<String>())),
            };
            bbs.push(format!("{{\"s\":{},\"t\":{},\"sp\":{},\"cl\":{}}}", jl(ss), ts, sp, if bb.is_cleanup {1} else {0}));
        }
        let _ = write!(o, ",\"bbs\":{}}}", jl(bbs));
        o
    }
}

struct Cb {
    out: String,
}
impl Callbacks for Cb {
    fn config(&mut self, config: &mut rustc_interface::interface::Config) {
        config.override_queries = Some(|_s, p| {
            *ORIG.lock().unwrap() = Some(p.queries.mir_promoted);
            p.queries.mir_promoted = my_mir_promoted;
        });
    }
    fn after_analysis<'tcx>(
        &mut self,
        _c: &rustc_interface::interface::Compiler,
        tcx: TyCtxt<'tcx>,
    ) -> Compilation {
        if std::env::var("VP_DEBUG").is_err() { std::panic::set_hook(Box::new(|_| {})); }
        let mut cx = Cx { tcx, queue: VecDeque::new(), seen: HashSet::new(), out: vec![], adts: BTreeMap::new() };
        let mut roots: Vec<LocalDefId> =
            BODIES.lock().unwrap().as_ref().unwrap().0.keys().copied().collect();
        roots.sort_by_key(|d| cx.path(d.to_def_id()));
        // local ADTs
        for id in tcx.hir_crate_items(()).definitions() {
            let d = id.to_def_id();
            if matches!(tcx.def_kind(d), DefKind::Struct | DefKind::Enum) {
                let t = tcx.type_of(d).skip_binder();
                cx.note_adt(t);
            }
        }
        for d in roots {
            let did = d.to_def_id();
            let args = if tcx.is_closure_like(did) {
                continue;
            } else {
                ty::GenericArgs::identity_for_item(tcx, did)
            };
            let key = cx.inst_key(did, args, did);
            if cx.seen.insert(key) {
                let args = tcx.erase_and_anonymize_regions(args);
                cx.queue.push_back((Instance { def: ty::InstanceKind::Item(did), args }, did));
            }
        }
        let mut n = 0;
        while let Some((inst, root)) = cx.queue.pop_front() {
            n += 1;
            if n > 20000 {
                break;
            }
            let did = inst.def_id();
            let root = tcx.typeck_root_def_id(root);
            let env = TypingEnv::post_analysis(tcx, root);
            let ident = if tcx.is_closure_like(did) { false } else {
                tcx.erase_and_anonymize_regions(ty::GenericArgs::identity_for_item(tcx, did)) == inst.args
            };
            let fx = Fx { args: inst.args, env, root, identity: ident };
            let key = cx.inst_key(did, inst.args, root);
            if let Some(l) = did.as_local() {
                let (b, ps): (Body<'tcx>, IndexVec<Promoted, Body<'tcx>>) = {
                    let g = BODIES.lock().unwrap();
                    let x = g.as_ref().unwrap().0.get(&l).unwrap();
                    unsafe { std::mem::transmute((x.0.clone(), x.1.clone())) }
                };
                let s = cx.body(fx, &b, &key, did);
                cx.out.push(s);
                for (i, p) in ps.iter_enumerated() {
                    let pk = format!("{key}::promoted[{}]", i.index());
                    let s = cx.body(fx, p, &pk, did);
                    cx.out.push(s);
                }
            } else {
                let b = tcx.instance_mir(inst.def);
                let s = cx.body(fx, b, &key, did);
                cx.out.push(s);
            }
        }
        let krate = tcx.crate_name(rustc_hir::def_id::LOCAL_CRATE).to_string();
        let mut impls = vec![];
        for id in tcx.hir_crate_items(()).definitions() {
            let d = id.to_def_id();
            if let DefKind::Impl { of_trait: true } = tcx.def_kind(d) {
                let tr = tcx.impl_trait_ref(d).skip_binder();
                impls.push(format!("[{},{}]", esc(&cx.path(tr.def_id)), esc(&cx.ty(tr.self_ty()))));
            }
        }
        let adts: Vec<String> = cx.adts.iter().map(|(k, v)| format!("{}:{}", esc(k), v)).collect();
        let s = format!(
            "{{\"crate\":{},\"adts\":{{{}}},\"impls\":{},\"fns\":{}}}\n",
            esc(&krate),
            adts.join(",\n"),
            jl(impls),
            format!("[\n{}\n]", cx.out.join(",\n"))
        );
        let tmp = format!("{}/{krate}.json.tmp{}", self.out, std::process::id());
        std::fs::write(&tmp, s).unwrap();
        std::fs::rename(&tmp, format!("{}/{krate}.json", self.out)).unwrap();
        Compilation::Continue
    }
}

struct Plain;
impl Callbacks for Plain {}

fn main() {
    let mut args: Vec<String> = std::env::args().collect();
    if args.len() > 1 && args[1].ends_with("rustc") {
        args.remove(1);
    }
    let out = std::env::var("VP_FACTS_DIR").unwrap_or_default();
    let name = args.iter().position(|a| a == "--crate-name").and_then(|i| args.get(i + 1)).cloned().unwrap_or_default();
    let want = std::env::var("VP_CRATES").unwrap_or_default();
    let is_test = args.iter().any(|a| a == "--test");
    if !out.is_empty() && !is_test && want.split(',').any(|w| w == name) {
        rustc_driver::compiler_entrypoint(&args, &mut Cb { out });
    } else {
        rustc_driver::compiler_entrypoint(&args, &mut Plain);
    }
}

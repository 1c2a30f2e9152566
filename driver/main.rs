// MIR extraction driver.
//
// Injected with RUSTC_WORKSPACE_WRAPPER: compiles every crate normally; for the
// crate named by VERIF_CRATE it additionally writes, after type checking, a dump
// of the optimisation-free MIR of every function of the crate, instantiated in
// the function's own (polymorphic) parameter environment, with resolved callees,
// and of the small generic library functions these call (VERIF_INLINE prefixes).
#![feature(rustc_private)]
extern crate rustc_abi;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_session;
extern crate rustc_span;

use rustc_driver::Compilation;
use rustc_hir::def::DefKind;
use rustc_hir::def_id::{DefId, LOCAL_CRATE};
use rustc_middle::mir::interpret::{GlobalAlloc, Scalar};
use rustc_middle::mir::*;
use rustc_middle::ty::print::{with_no_trimmed_paths, with_no_visible_paths, PrintTraitRefExt as _};
use rustc_middle::ty::{self, EarlyBinder, GenericArgs, GenericArgsRef, Instance, InstanceKind, Ty, TyCtxt, TypeVisitableExt as _, TypingEnv};
use std::collections::{HashMap, HashSet, VecDeque};
use std::fmt::Write as _;
use std::io::Write as _;

fn js(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 || (c as u32) > 0x7e => {
                let mut b = [0u16; 2];
                for u in c.encode_utf16(&mut b) {
                    let _ = write!(o, "\\u{:04x}", u);
                }
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn arr<I: IntoIterator<Item = String>>(i: I) -> String {
    let mut o = String::from("[");
    for (k, s) in i.into_iter().enumerate() {
        if k > 0 {
            o.push(',');
        }
        o.push_str(&s);
    }
    o.push(']');
    o
}
fn bytes_json(b: &[u8]) -> String {
    arr(b.iter().map(|x| x.to_string()))
}

struct Cx<'tcx> {
    tcx: TyCtxt<'tcx>,
    out: std::io::BufWriter<std::fs::File>,
    envs: Vec<TypingEnv<'tcx>>,
    types: HashMap<(usize, Ty<'tcx>), usize>,
    ntypes: usize,
    pending_types: VecDeque<(usize, usize, Ty<'tcx>)>,
    queued: HashMap<(usize, Instance<'tcx>), usize>,
    work: VecDeque<(usize, Instance<'tcx>, usize, usize)>, // env, instance, id, depth in foreign code
    ninst: usize,
    inline: Vec<String>,
    noinline: Vec<String>,
    /// the analysed crate when the dumped one is a witness using it
    home: String,
}

impl<'tcx> Cx<'tcx> {
    fn env_id(&mut self, e: TypingEnv<'tcx>) -> usize {
        if let Some(p) = self.envs.iter().position(|x| *x == e) {
            return p;
        }
        self.envs.push(e);
        self.envs.len() - 1
    }
    fn ty(&mut self, env: usize, t: Ty<'tcx>) -> usize {
        let t = self.tcx.erase_and_anonymize_regions(t);
        if let Some(i) = self.types.get(&(env, t)) {
            return *i;
        }
        let i = self.ntypes;
        self.ntypes += 1;
        self.types.insert((env, t), i);
        self.pending_types.push_back((i, env, t));
        i
    }
    fn norm(&self, env: usize, t: Ty<'tcx>) -> Ty<'tcx> {
        let t = self.tcx.erase_and_anonymize_regions(t);
        match self.tcx.try_normalize_erasing_regions(self.envs[env], ty::Unnormalized::new_wip(t)) {
            Ok(t) => t,
            Err(_) => t,
        }
    }
    fn path(&self, d: DefId) -> String {
        if self.home.is_empty() {
            return with_no_trimmed_paths!(self.tcx.def_path_str(d));
        }
        // the dumped crate uses the analysed one: name its items as they are named inside it
        let own = format!("{}::", self.home);
        if !d.is_local() && self.tcx.crate_name(d.krate).as_str() == self.home {
            return with_no_visible_paths!(with_no_trimmed_paths!(self.tcx.def_path_str(d))).replace(&own, "");
        }
        with_no_trimmed_paths!(self.tcx.def_path_str(d)).replace(&own, "iref::")
    }
    /// belongs to the analysed crate
    fn ours(&self, d: DefId) -> bool {
        d.is_local() || !self.home.is_empty() && self.tcx.crate_name(d.krate).as_str() == self.home
    }
    fn wanted(&self, i: &Instance<'tcx>) -> bool {
        let d = i.def_id();
        if self.ours(d) {
            return true;
        }
        let p = self.path(d);
        let q = with_no_trimmed_paths!(format!("{}", i));
        if self.noinline.iter().any(|x| p.starts_with(x.as_str()) || q.starts_with(x.as_str())) {
            return false;
        }
        self.inline.iter().any(|x| p.starts_with(x.as_str()) || q.starts_with(x.as_str()))
    }
    fn enqueue(&mut self, env: usize, i: Instance<'tcx>, depth: usize) -> Option<usize> {
        if let Some(k) = self.queued.get(&(env, i)) {
            return Some(*k);
        }
        let ok = match i.def {
            InstanceKind::Item(d) => self.tcx.is_mir_available(d) && self.wanted(&i),
            InstanceKind::Shim(ty::ShimKind::ClosureOnce { .. }) | InstanceKind::Shim(ty::ShimKind::FnPtr(..)) => true,
            _ => false,
        };
        if !ok || depth > 14 {
            return None;
        }
        let id = self.ninst;
        self.ninst += 1;
        self.queued.insert((env, i), id);
        self.work.push_back((env, i, id, depth));
        Some(id)
    }
    fn callee(&mut self, env: usize, d: DefId, args: GenericArgsRef<'tcx>, depth: usize) -> String {
        let tcx = self.tcx;
        let args = tcx.erase_and_anonymize_regions(args);
        let mut s = String::from("{");
        let _ = write!(s, "\"path\":{}", js(&self.path(d)));
        let ga: Vec<String> = args.iter().filter_map(|a| a.as_type()).map(|t| self.ty(env, t).to_string()).collect();
        let _ = write!(s, ",\"ga\":{}", arr(ga));
        let _ = write!(s, ",\"full\":{}", js(&with_no_trimmed_paths!(tcx.def_path_str_with_args(d, args))));
        if let Some(t) = tcx.trait_of_assoc(d) {
            let _ = write!(s, ",\"trait\":{}", js(&self.path(t)));
        }
        let _ = write!(s, ",\"unsafe\":{}", !tcx.fn_sig(d).skip_binder().skip_binder().safety().is_safe());
        let sig = tcx.instantiate_bound_regions_with_erased(tcx.fn_sig(d).instantiate(tcx, args).skip_norm_wip());
        let ins: Vec<String> = sig.inputs().iter().map(|t| { let t = self.norm(env, *t); self.ty(env, t).to_string() }).collect();
        let out = { let t = self.norm(env, sig.output()); self.ty(env, t) };
        let _ = write!(s, ",\"in\":{},\"out\":{}", arr(ins), out);
        let kind = tcx.def_kind(d);
        if matches!(kind, DefKind::Ctor(..)) {
            let parent = tcx.parent(d);
            let (adt, var) = if tcx.def_kind(parent) == DefKind::Variant {
                let adt = tcx.parent(parent);
                (adt, tcx.adt_def(adt).variant_index_with_id(parent).as_usize())
            } else {
                (parent, 0)
            };
            let t = Ty::new_adt(tcx, tcx.adt_def(adt), args);
            let ti = self.ty(env, t);
            let _ = write!(s, ",\"ctor\":[{},{}]}}", ti, var);
            return s;
        }
        match Instance::try_resolve(tcx, self.envs[env], d, args) {
            Ok(Some(i)) => {
                let i = tcx.erase_and_anonymize_regions(i);
                let rd = i.def_id();
                let _ = write!(s, ",\"rpath\":{}", js(&self.path(rd)));
                let rga: Vec<String> = i.args.iter().filter_map(|a| a.as_type()).map(|t| self.ty(env, t).to_string()).collect();
                let _ = write!(s, ",\"rga\":{}", arr(rga));
                let _ = write!(s, ",\"local\":{}", self.ours(rd));
                let _ = write!(s, ",\"rfull\":{}", js(&with_no_trimmed_paths!(tcx.def_path_str_with_args(rd, i.args))));
                if let Some(im) = tcx.impl_of_assoc(rd) {
                    if let Some(t) = tcx.impl_opt_trait_id(im) { let _ = write!(s, ",\"rtrait\":{}", js(&self.path(t))); }
                }
                let k = match i.def {
                    InstanceKind::Item(_) => "item",
                    InstanceKind::Intrinsic(_) => "intrinsic",
                    InstanceKind::Virtual(..) => "virtual",
                    InstanceKind::Shim(ty::ShimKind::Clone(..)) => "clone_shim",
                    InstanceKind::Shim(ty::ShimKind::ClosureOnce { .. }) => "once_shim",
                    InstanceKind::Shim(ty::ShimKind::FnPtr(..)) => "fnptr_shim",
                    InstanceKind::Shim(ty::ShimKind::DropGlue(..)) => "drop_glue",
                    _ => "other",
                };
                let _ = write!(s, ",\"rk\":{}", js(k));
                let nd = if self.ours(rd) { 0 } else { depth + 1 };
                if let Some(id) = self.enqueue(env, i, nd) {
                    let _ = write!(s, ",\"id\":{}", id);
                }
            }
            _ => {
                // provided methods that loop over `next`: by the contract of the trait an implementation answers like the provided body
                let p = self.path(d);
                if ["for_each", "fold", "try_for_each", "try_fold", "all", "any", "find", "position", "find_map", "by_ref", "map", "filter", "filter_map", "chain", "cloned", "copied", "inspect"].iter().any(|n| p == format!("std::iter::Iterator::{}", n)) {
                    let i = tcx.erase_and_anonymize_regions(Instance::new_raw(d, args));
                    if let Some(id) = self.enqueue(env, i, depth + 1) {
                        let _ = write!(s, ",\"dflt\":{}", id);
                    }
                }
            }
        }
        s.push('}');
        s
    }
    fn dump_type(&mut self, i: usize, env: usize, t: Ty<'tcx>) -> String {
        let tcx = self.tcx;
        let mut s = String::new();
        let _ = write!(s, "{{\"ty\":{},\"s\":{}", i, js(&with_no_trimmed_paths!(format!("{}", t))));
        match *t.kind() {
            ty::Bool => s.push_str(",\"k\":\"bool\""),
            ty::Char => s.push_str(",\"k\":\"char\""),
            ty::Int(x) => {
                let _ = write!(s, ",\"k\":\"int\",\"name\":{}", js(x.name_str()));
            }
            ty::Uint(x) => {
                let _ = write!(s, ",\"k\":\"uint\",\"name\":{}", js(x.name_str()));
            }
            ty::Float(_) => s.push_str(",\"k\":\"float\""),
            ty::Str => s.push_str(",\"k\":\"str\""),
            ty::Never => s.push_str(",\"k\":\"never\""),
            ty::Adt(def, args) => {
                let kind = if def.is_enum() { "enum" } else if def.is_union() { "union" } else { "struct" };
                let _ = write!(s, ",\"k\":\"adt\",\"kind\":\"{}\",\"def\":{},\"local\":{}", kind, js(&self.path(def.did())), self.ours(def.did()));
                let ga: Vec<String> = args.iter().filter_map(|a| a.as_type()).map(|t| self.ty(env, t).to_string()).collect();
                let _ = write!(s, ",\"ga\":{}", arr(ga));
                let mut vs = vec![];
                for (vi, v) in def.variants().iter_enumerated() {
                    let discr = if def.is_enum() { def.discriminant_for_variant(tcx, vi).val as i128 } else { 0 };
                    let mut fs = vec![];
                    for f in v.fields.iter() {
                        let ft = f.ty(tcx, args);
                        let ft = self.norm(env, ft.skip_norm_wip());
                        let ti = self.ty(env, ft);
                        fs.push(format!("[{},{}]", js(f.name.as_str()), ti));
                    }
                    vs.push(format!("{{\"n\":{},\"d\":{},\"f\":{}}}", js(v.name.as_str()), discr, arr(fs)));
                }
                let _ = write!(s, ",\"v\":{}", arr(vs));
            }
            ty::Ref(_, x, m) => {
                let x = self.ty(env, x);
                let _ = write!(s, ",\"k\":\"ref\",\"to\":{},\"mut\":{}", x, m.is_mut());
            }
            ty::RawPtr(x, m) => {
                let x = self.ty(env, x);
                let _ = write!(s, ",\"k\":\"ptr\",\"to\":{},\"mut\":{}", x, m.is_mut());
            }
            ty::Slice(x) => {
                let x = self.ty(env, x);
                let _ = write!(s, ",\"k\":\"slice\",\"to\":{}", x);
            }
            ty::Array(x, n) => {
                let x = self.ty(env, x);
                let n = n.try_to_target_usize(tcx).map(|n| n as i64).unwrap_or(-1);
                let _ = write!(s, ",\"k\":\"array\",\"to\":{},\"n\":{}", x, n);
            }
            ty::Tuple(ts) => {
                let v: Vec<String> = ts.iter().map(|t| self.ty(env, t).to_string()).collect();
                let _ = write!(s, ",\"k\":\"tuple\",\"f\":{}", arr(v));
            }
            ty::Param(p) => {
                let _ = write!(s, ",\"k\":\"param\",\"n\":{}", js(p.name.as_str()));
            }
            ty::Alias(..) => {
                s.push_str(",\"k\":\"alias\"");
            }
            ty::Closure(d, args) => {
                let up: Vec<String> = args.as_closure().upvar_tys().iter().map(|t| { let t = self.norm(env, t); self.ty(env, t).to_string() }).collect();
                let _ = write!(s, ",\"k\":\"closure\",\"def\":{},\"f\":{}", js(&self.path(d)), arr(up));
                let inst = Instance::new_raw(d, args);
                let inst = tcx.erase_and_anonymize_regions(inst);
                let kind = format!("{:?}", args.as_closure().kind());
                let _ = write!(s, ",\"ck\":{}", js(&kind));
                if let Some(id) = self.enqueue(env, inst, 0) {
                    let _ = write!(s, ",\"id\":{}", id);
                }
            }
            ty::FnDef(d, args) => {
                let c = self.callee(env, d.into(), args.no_bound_vars().unwrap_or_else(|| args.skip_binder()), 0);
                let _ = write!(s, ",\"k\":\"fndef\",\"callee\":{}", c);
            }
            ty::FnPtr(..) => s.push_str(",\"k\":\"fnptr\""),
            ty::Dynamic(..) => s.push_str(",\"k\":\"dyn\""),
            _ => s.push_str(",\"k\":\"other\""),
        }
        s.push('}');
        s
    }
    fn place(&mut self, env: usize, p: &Place<'tcx>) -> String {
        let pr: Vec<String> = p
            .projection
            .iter()
            .map(|e| match e {
                ProjectionElem::Deref => "[\"*\"]".into(),
                ProjectionElem::Field(f, t) => format!("[\"f\",{},{}]", f.as_usize(), self.ty(env, t)),
                ProjectionElem::Index(l) => format!("[\"i\",{}]", l.as_usize()),
                ProjectionElem::ConstantIndex { offset, min_length, from_end } => format!("[\"c\",{},{},{}]", offset, min_length, from_end),
                ProjectionElem::Subslice { from, to, from_end } => format!("[\"s\",{},{},{}]", from, to, from_end),
                ProjectionElem::Downcast(_, v) => format!("[\"d\",{}]", v.as_usize()),
                _ => "[\"?\"]".into(),
            })
            .collect();
        format!("[{},{}]", p.local.as_usize(), arr(pr))
    }
    fn const_val(&mut self, env: usize, v: ConstValue, t: Ty<'tcx>) -> String {
        let tcx = self.tcx;
        let ti = self.ty(env, t);
        let unk = format!("{{\"c\":\"unk\",\"t\":{}}}", ti);
        let enumlike = match t.kind() {
            ty::Adt(d, _) => d.is_enum(),
            ty::Tuple(l) => !l.is_empty(),
            _ => false,
        };
        if enumlike && !t.has_param() {
            if let ConstValue::Scalar(_) | ConstValue::Indirect { .. } = v {
                if let Some(d) = tcx.try_destructure_mir_constant_for_user_output(v, t) {
                    let fs: Vec<String> = d.fields.iter().map(|(fv, ft)| self.const_val(env, *fv, *ft)).collect();
                    return format!("{{\"c\":\"agg\",\"var\":{},\"f\":{},\"t\":{}}}", d.variant.map(|x| x.as_usize()).unwrap_or(0), arr(fs), ti);
                }
            }
        }
        match v {
            ConstValue::ZeroSized => format!("{{\"c\":\"zst\",\"t\":{}}}", ti),
            ConstValue::Scalar(Scalar::Int(i)) => {
                let sz = i.size();
                let signed = t.is_signed();
                let val: i128 = if signed { i.to_int(sz) } else { i.to_bits(sz) as i128 };
                format!("{{\"c\":\"int\",\"v\":{},\"t\":{}}}", val, ti)
            }
            ConstValue::Scalar(Scalar::Ptr(p, _)) => {
                let (prov, off) = p.into_raw_parts();
                match tcx.try_get_global_alloc(prov.alloc_id()) {
                    Some(GlobalAlloc::Memory(m)) if m.inner().provenance().ptrs().is_empty() => {
                        let a = m.inner();
                        let n = a.len();
                        let b = a.inspect_with_uninit_and_ptr_outside_interpreter(off.bytes_usize()..n);
                        format!("{{\"c\":\"refbytes\",\"b\":{},\"t\":{}}}", bytes_json(b), ti)
                    }
                    Some(GlobalAlloc::Function { instance }) => {
                        let c = self.callee(env, instance.def_id(), instance.args, 0);
                        format!("{{\"c\":\"fnptr\",\"callee\":{},\"t\":{}}}", c, ti)
                    }
                    _ => unk,
                }
            }
            ConstValue::Slice { alloc_id, meta } => match tcx.try_get_global_alloc(alloc_id) {
                Some(GlobalAlloc::Memory(m)) => {
                    let a = m.inner();
                    let n = (meta as usize).min(a.len());
                    let b = a.inspect_with_uninit_and_ptr_outside_interpreter(0..n);
                    match std::str::from_utf8(b) {
                        Ok(x) => format!("{{\"c\":\"str\",\"v\":{},\"t\":{}}}", js(x), ti),
                        Err(_) => format!("{{\"c\":\"refbytes\",\"b\":{},\"t\":{}}}", bytes_json(b), ti),
                    }
                }
                _ => unk,
            },
            ConstValue::Indirect { alloc_id, offset } => {
                // plain-memory constants (no pointers): raw bytes with type; a fat
                // pointer to text: the text.
                match tcx.try_get_global_alloc(alloc_id) {
                    Some(GlobalAlloc::Memory(m)) => {
                        let a = m.inner();
                        let ptrs = a.provenance().ptrs();
                        if ptrs.is_empty() {
                            let b = a.inspect_with_uninit_and_ptr_outside_interpreter(offset.bytes_usize()..a.len());
                            return format!("{{\"c\":\"bytes\",\"b\":{},\"t\":{}}}", bytes_json(b), ti);
                        }
                        if let ty::Ref(..) = t.kind() {
                            if let Some(prov) = ptrs.get(&offset) {
                                let b = a.inspect_with_uninit_and_ptr_outside_interpreter(offset.bytes_usize()..a.len());
                                if b.len() >= 16 {
                                    let po = u64::from_le_bytes(b[0..8].try_into().unwrap()) as usize;
                                    let n = u64::from_le_bytes(b[8..16].try_into().unwrap()) as usize;
                                    if let Some(GlobalAlloc::Memory(m2)) = tcx.try_get_global_alloc(prov.alloc_id()) {
                                        let a2 = m2.inner();
                                        if po + n <= a2.len() {
                                            let b2 = a2.inspect_with_uninit_and_ptr_outside_interpreter(po..po + n);
                                            if let Ok(x) = std::str::from_utf8(b2) {
                                                return format!("{{\"c\":\"str\",\"v\":{},\"t\":{}}}", js(x), ti);
                                            }
                                        }
                                    }
                                }
                            }
                        }
                        unk
                    }
                    _ => unk,
                }
            }
        }
    }
    fn operand(&mut self, env: usize, owner: usize, o: &Operand<'tcx>, depth: usize) -> String {
        let tcx = self.tcx;
        match o {
            Operand::Copy(p) => format!("{{\"o\":\"cp\",\"p\":{}}}", self.place(env, p)),
            Operand::Move(p) => format!("{{\"o\":\"mv\",\"p\":{}}}", self.place(env, p)),
            Operand::RuntimeChecks(_) => "{\"o\":\"k\",\"k\":{\"c\":\"rtc\"}}".into(),
            Operand::Constant(c) => {
                let t = c.const_.ty();
                let k = match t.kind() {
                    ty::FnDef(d, args) => {
                        let ti = self.ty(env, t);
                        let c = self.callee(env, (*d).into(), args.no_bound_vars().unwrap_or_else(|| args.skip_binder()), depth);
                        format!("{{\"c\":\"fn\",\"callee\":{},\"t\":{}}}", c, ti)
                    }
                    _ => match c.const_ {
                        Const::Unevaluated(u, t) if u.promoted.is_some() => {
                            let ti = self.ty(env, t);
                            format!("{{\"c\":\"promoted\",\"i\":{},\"owner\":{},\"t\":{}}}", u.promoted.unwrap().as_usize(), owner, ti)
                        }
                        k => {
                            let name = match k {
                                Const::Unevaluated(u, _) => Some(self.path(u.def)),
                                _ => None,
                            };
                            let mut r = match k.eval(tcx, self.envs[env], c.span) {
                                Ok(v) => self.const_val(env, v, t),
                                Err(_) => {
                                    let ti = self.ty(env, t);
                                    format!("{{\"c\":\"generic\",\"s\":{},\"t\":{}}}", js(&with_no_trimmed_paths!(format!("{}", k))), ti)
                                }
                            };
                            if let Some(n) = name {
                                r.pop();
                                let _ = write!(r, ",\"name\":{}}}", js(&n));
                            }
                            r
                        }
                    },
                };
                format!("{{\"o\":\"k\",\"k\":{}}}", k)
            }
        }
    }
    fn rvalue(&mut self, env: usize, owner: usize, r: &Rvalue<'tcx>, body: &Body<'tcx>, depth: usize) -> String {
        let tcx = self.tcx;
        match r {
            Rvalue::Use(o, _) => format!("[\"use\",{}]", self.operand(env, owner, o, depth)),
            Rvalue::Repeat(o, n) => format!("[\"repeat\",{},{}]", self.operand(env, owner, o, depth), n.try_to_target_usize(tcx).map(|x| x as i64).unwrap_or(-1)),
            Rvalue::Ref(_, k, p) => format!("[\"ref\",{},{}]", matches!(k, BorrowKind::Mut { .. }), self.place(env, p)),
            Rvalue::RawPtr(_, p) => format!("[\"addr\",{}]", self.place(env, p)),
            Rvalue::Cast(k, o, t) => {
                let src = o.ty(&body.local_decls, tcx);
                let si = self.ty(env, src);
                format!("[\"cast\",{},{},{},{}]", js(&format!("{:?}", k)), self.operand(env, owner, o, depth), self.ty(env, *t), si)
            }
            Rvalue::BinaryOp(b, ops) => {
                let t = ops.0.ty(&body.local_decls, tcx);
                let ti = self.ty(env, t);
                format!("[\"bin\",{},{},{},{}]", js(&format!("{:?}", b)), self.operand(env, owner, &ops.0, depth), self.operand(env, owner, &ops.1, depth), ti)
            }
            Rvalue::UnaryOp(u, o) => {
                let t = o.ty(&body.local_decls, tcx);
                let ti = self.ty(env, t);
                format!("[\"un\",{},{},{}]", js(&format!("{:?}", u)), self.operand(env, owner, o, depth), ti)
            }
            Rvalue::Discriminant(p) => format!("[\"discr\",{}]", self.place(env, p)),
            Rvalue::Aggregate(k, ops) => {
                let v: Vec<String> = ops.iter().map(|o| self.operand(env, owner, o, depth)).collect();
                let (kind, variant, active) = match &**k {
                    AggregateKind::Array(_) => ("array", 0, -1),
                    AggregateKind::Tuple => ("tuple", 0, -1),
                    AggregateKind::Adt(_, v, _, _, a) => ("adt", v.as_usize(), a.map(|x| x.as_usize() as i64).unwrap_or(-1)),
                    AggregateKind::Closure(..) => ("closure", 0, -1),
                    _ => ("other", 0, -1),
                };
                let t = r.ty(&body.local_decls, tcx);
                let t = self.norm(env, t);
                let ti = self.ty(env, t);
                format!("[\"agg\",{},{},{},{},{}]", js(kind), ti, variant, active, arr(v))
            }
            Rvalue::CopyForDeref(p) => format!("[\"use\",{{\"o\":\"cp\",\"p\":{}}}]", self.place(env, p)),
            other => format!("[\"?\",{}]", js(&format!("{:?}", other))),
        }
    }
    fn body(&mut self, env: usize, owner: usize, body: &Body<'tcx>, depth: usize) -> String {
        let tcx = self.tcx;
        let locals: Vec<String> = body.local_decls.iter().map(|l| self.ty(env, l.ty).to_string()).collect();
        let mut names = vec![];
        for v in body.var_debug_info.iter() {
            if let VarDebugInfoContents::Place(p) = v.value {
                if p.projection.is_empty() {
                    names.push(format!("[{},{}]", p.local.as_usize(), js(v.name.as_str())));
                }
            }
        }
        let mut blocks = vec![];
        for bb in body.basic_blocks.iter() {
            let mut st = vec![];
            for s in bb.statements.iter() {
                match &s.kind {
                    StatementKind::Assign(b) => {
                        let (p, r) = &**b;
                        let p = self.place(env, p);
                        let r = self.rvalue(env, owner, r, body, depth);
                        st.push(format!("[\"=\",{},{}]", p, r));
                    }
                    StatementKind::SetDiscriminant { place, variant_index } => {
                        st.push(format!("[\"sd\",{},{}]", self.place(env, place), variant_index.as_usize()));
                    }
                    StatementKind::Intrinsic(i) => st.push(format!("[\"intr\",{}]", js(&format!("{:?}", i)))),
                    _ => {}
                }
            }
            let term = bb.terminator();
            let line = tcx.sess.source_map().lookup_char_pos(term.source_info.span.lo()).line;
            let t = match &term.kind {
                TerminatorKind::Goto { target, .. } => format!("[\"goto\",{}]", target.as_usize()),
                TerminatorKind::SwitchInt { discr, targets } => {
                    let t = discr.ty(&body.local_decls, tcx);
                    let ti = self.ty(env, t);
                    let v: Vec<String> = targets.iter().map(|(v, b)| format!("[{},{}]", v, b.as_usize())).collect();
                    format!("[\"switch\",{},{},{},{}]", self.operand(env, owner, discr, depth), arr(v), targets.otherwise().as_usize(), ti)
                }
                TerminatorKind::Return => "[\"ret\"]".into(),
                TerminatorKind::Unreachable => "[\"unreachable\"]".into(),
                TerminatorKind::UnwindResume | TerminatorKind::UnwindTerminate(_) => "[\"resume\"]".into(),
                TerminatorKind::Drop { place, target, .. } => format!("[\"drop\",{},{}]", self.place(env, place), target.as_usize()),
                TerminatorKind::Call { func, args, destination, target, .. } => {
                    let a: Vec<String> = args.iter().map(|x| self.operand(env, owner, &x.node, depth)).collect();
                    let f = self.operand(env, owner, func, depth);
                    let ft = func.ty(&body.local_decls, tcx);
                    let fti = self.ty(env, ft);
                    format!(
                        "[\"call\",{},{},{},{},{},{}]",
                        f,
                        arr(a),
                        self.place(env, destination),
                        target.map(|t| t.as_usize() as i64).unwrap_or(-1),
                        line,
                        fti
                    )
                }
                TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                    let m = match &**msg {
                        AssertKind::BoundsCheck { .. } => "bounds".to_string(),
                        AssertKind::Overflow(op, ..) => format!("overflow {:?}", op),
                        x => format!("{:?}", x).split(|c: char| !c.is_alphanumeric()).next().unwrap_or("?").to_string(),
                    };
                    format!("[\"assert\",{},{},{},{}]", self.operand(env, owner, cond, depth), expected, js(&m), target.as_usize())
                }
                TerminatorKind::FalseEdge { real_target, .. } | TerminatorKind::FalseUnwind { real_target, .. } => format!("[\"goto\",{}]", real_target.as_usize()),
                x => format!("[\"?\",{}]", js(&format!("{:?}", x))),
            };
            blocks.push(format!("{{\"s\":{},\"t\":{},\"u\":{}}}", arr(st), t, bb.is_cleanup));
        }
        format!("{{\"args\":{},\"locals\":{},\"names\":{},\"blocks\":{}}}", body.arg_count, arr(locals), arr(names), arr(blocks))
    }
    fn flush_types(&mut self) {
        while let Some((i, env, t)) = self.pending_types.pop_front() {
            let s = self.dump_type(i, env, t);
            writeln!(self.out, "{}", s).unwrap();
        }
    }
    fn run(&mut self) {
        let tcx = self.tcx;
        let mut roots = vec![];
        let mut seen = HashSet::new();
        for d in tcx.hir_body_owners() {
            let did = d.to_def_id();
            let kind = tcx.def_kind(did);
            if !matches!(kind, DefKind::Fn | DefKind::AssocFn) || !seen.insert(did) {
                if matches!(kind, DefKind::Const { .. } | DefKind::AssocConst { .. } | DefKind::Static { .. }) {
                    // named constants: value
                    let t = tcx.type_of(did).instantiate_identity().skip_norm_wip();
                    let env = TypingEnv::post_analysis(tcx, did);
                    let env = self.env_id(env);
                    if !tcx.generics_of(did).requires_monomorphization(tcx) && !matches!(kind, DefKind::Static { .. }) {
                        if let Ok(v) = tcx.const_eval_poly(did) {
                            let t = self.norm(env, t);
                            let c = self.const_val(env, v, t);
                            writeln!(self.out, "{{\"const\":{},\"vis\":{},\"value\":{}}}", js(&self.path(did)), js(&format!("{:?}", tcx.visibility(did))), c).unwrap();
                        }
                    }
                }
                continue;
            }
            let env = TypingEnv::post_analysis(tcx, did);
            let env = self.env_id(env);
            let args = GenericArgs::identity_for_item(tcx, did);
            let inst = tcx.erase_and_anonymize_regions(Instance::new_raw(did, args));
            if let Some(id) = self.enqueue(env, inst, 0) {
                roots.push((id, did, env));
            }
        }
        for (id, did, env) in &roots {
            let mut s = format!("{{\"root\":{},\"path\":{}", id, js(&self.path(*did)));
            let _ = write!(s, ",\"name\":{}", js(tcx.item_name(*did).as_str()));
            let _ = write!(s, ",\"vis\":{}", js(&format!("{:?}", tcx.visibility(*did))));
            let _ = write!(s, ",\"eff_pub\":{}", tcx.effective_visibilities(()).is_reachable(did.expect_local()));
            let sp = tcx.def_span(*did);
            let loc = tcx.sess.source_map().lookup_char_pos(sp.lo());
            let _ = write!(s, ",\"file\":{},\"line\":{}", js(&loc.file.name.prefer_local_unconditionally().to_string()), loc.line);
            let _ = write!(s, ",\"module\":{}", js(&self.path(tcx.parent_module_from_def_id(did.expect_local()).to_def_id())));
            let _ = write!(s, ",\"unsafe\":{}", !tcx.fn_sig(*did).skip_binder().skip_binder().safety().is_safe());
            if let Some(im) = tcx.impl_of_assoc(*did) {
                let st = tcx.type_of(im).instantiate_identity().skip_norm_wip();
                let st = self.norm(*env, st);
                let _ = write!(s, ",\"self\":{},\"self_ty\":{}", js(&with_no_trimmed_paths!(format!("{}", st))), self.ty(*env, st));
                if let Some(tr) = tcx.impl_opt_trait_ref(im) {
                    let tr = tcx.erase_and_anonymize_regions(tr.instantiate_identity().skip_norm_wip());
                    let _ = write!(s, ",\"trait\":{},\"traitref\":{}", js(&self.path(tr.def_id)), js(&with_no_trimmed_paths!(format!("{}", tr.print_only_trait_path()))));
                }
                #[allow(deprecated)]
                let derived = tcx.is_builtin_derived(im);
                let _ = write!(s, ",\"derived\":{}", derived);
            } else if let Some(t) = tcx.trait_of_assoc(*did) {
                let _ = write!(s, ",\"intrait\":{}", js(&self.path(t)));
            }
            s.push('}');
            writeln!(self.out, "{}", s).unwrap();
        }
        while let Some((env, inst, id, depth)) = self.work.pop_front() {
            let b = match inst.def {
                InstanceKind::Item(d) if !tcx.is_mir_available(d) => continue,
                _ => tcx.instance_mir(inst.def),
            };
            let body = match inst.try_instantiate_mir_and_normalize_erasing_regions(tcx, self.envs[env], EarlyBinder::bind(tcx, b.clone())) {
                Ok(b) => b,
                Err(_) => {
                    writeln!(self.out, "{{\"inst\":{},\"path\":{},\"error\":\"normalize\"}}", id, js(&self.path(inst.def_id()))).unwrap();
                    continue;
                }
            };
            let bj = self.body(env, id, &body, depth);
            let mut proms = vec![];
            if let InstanceKind::Item(d) = inst.def {
                if d.is_local() || tcx.is_mir_available(d) {
                    let ps = tcx.promoted_mir(d);
                    for p in ps.iter() {
                        if let Ok(pb) = inst.try_instantiate_mir_and_normalize_erasing_regions(tcx, self.envs[env], EarlyBinder::bind(tcx, p.clone())) {
                            proms.push(self.body(env, id, &pb, depth));
                        } else {
                            proms.push("null".into());
                        }
                    }
                }
            }
            let d = inst.def_id();
            let sp = tcx.def_span(d);
            let loc = tcx.sess.source_map().lookup_char_pos(sp.lo());
            let shim = match inst.def {
                InstanceKind::Item(_) => "",
                InstanceKind::Shim(ty::ShimKind::ClosureOnce { .. }) => "once",
                _ => "shim",
            };
            let spread = body.spread_arg.map(|l| l.as_usize() as i64).unwrap_or(-1);
            writeln!(
                self.out,
                "{{\"inst\":{},\"path\":{},\"full\":{},\"local\":{},\"file\":{},\"line\":{},\"shim\":{},\"spread\":{},\"body\":{},\"promoted\":{}}}",
                id,
                js(&self.path(d)),
                js(&with_no_trimmed_paths!(format!("{}", inst))),
                self.ours(d),
                js(&loc.file.name.prefer_local_unconditionally().to_string()),
                loc.line,
                js(shim),
                spread,
                bj,
                arr(proms)
            )
            .unwrap();
            self.flush_types();
        }
        self.flush_types();
        while let Some((env, inst, id, depth)) = self.work.pop_front() {
            // instances discovered only while dumping types
            let _ = (env, inst, id, depth);
        }
        self.out.flush().unwrap();
    }
}

struct Cb;
impl rustc_driver::Callbacks for Cb {
    fn after_analysis<'tcx>(&mut self, _c: &rustc_interface::interface::Compiler, tcx: TyCtxt<'tcx>) -> Compilation {
        let want = std::env::var("VERIF_CRATE").unwrap_or_default();
        if tcx.crate_name(LOCAL_CRATE).as_str() != want {
            return Compilation::Continue;
        }
        let path = std::env::var("VERIF_OUT").expect("VERIF_OUT");
        let tmp = format!("{}.tmp", path);
        let split = |v: &str| -> Vec<String> { std::env::var(v).unwrap_or_default().split(';').filter(|x| !x.is_empty()).map(|x| x.to_string()).collect() };
        let mut cx = Cx {
            tcx,
            out: std::io::BufWriter::new(std::fs::File::create(&tmp).unwrap()),
            envs: vec![],
            types: HashMap::new(),
            ntypes: 0,
            pending_types: VecDeque::new(),
            queued: HashMap::new(),
            work: VecDeque::new(),
            ninst: 0,
            inline: split("VERIF_INLINE"),
            noinline: split("VERIF_NOINLINE"),
            home: std::env::var("VERIF_HOME").unwrap_or_default(),
        };
        cx.run();
        let n = cx.ninst;
        drop(cx);
        std::fs::rename(&tmp, &path).unwrap();
        eprintln!("verif-driver: {} instances", n);
        Compilation::Continue
    }
}

fn main() -> std::process::ExitCode {
    let mut args: Vec<String> = std::env::args().collect();
    // RUSTC_WORKSPACE_WRAPPER: argv[1] is the rustc path
    if args.len() > 1 && args[1].ends_with("rustc") {
        args.remove(1);
    }
    args[0] = "rustc".into();
    if std::env::var("VERIF_CRATE").is_ok() {
        args.push("-Zmir-opt-level=0".into());
        args.push("-Coverflow-checks=off".into());
        args.push("-Cdebug-assertions=off".into());
        args.push("-Awarnings".into());
    }
    rustc_driver::catch_with_exit_code(|| rustc_driver::compiler_entrypoint(&args, &mut Cb))
}

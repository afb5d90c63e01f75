// MIR exporter. Acts as rustc; when compiling the crate named in MIRX_CRATE it
// collects every monomorphic function reachable from that crate's `pub fn`s
// and writes their (substituted, resolved) MIR as JSON to MIRX_OUT.
#![feature(rustc_private)]
extern crate rustc_abi;
extern crate rustc_driver;
extern crate rustc_driver_impl;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_span;

use rustc_driver_impl::{Callbacks, Compilation};
use rustc_hir::def::DefKind;
use rustc_hir::def_id::DefId;
use rustc_middle::mir::{self, interpret::Scalar, *};
use rustc_middle::ty::{self, Instance, InstanceKind, Ty, TyCtxt, TypingEnv};
use std::collections::{HashMap, VecDeque};
use std::fmt::Write as _;

fn esc(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn arr(v: Vec<String>) -> String {
    format!("[{}]", v.join(","))
}

struct X<'tcx> {
    tcx: TyCtxt<'tcx>,
    env: TypingEnv<'tcx>,
    ty_ids: HashMap<Ty<'tcx>, usize>,
    ty_out: Vec<String>,
    inst_ids: HashMap<Instance<'tcx>, usize>,
    inst_out: Vec<String>,
    queue: VecDeque<Instance<'tcx>>,
}

fn walk_std(path: &str) -> bool {
    // std/alloc/core functions whose MIR is exported; everything else in the
    // standard library is left to the analyser's models.
    const P: &[&str] = &[
        "core::option::", "core::result::", "core::convert::", "core::ops::", "core::cmp::",
        "core::mem::", "core::iter::", "core::slice::", "core::array::", "core::num::",
        "core::borrow::", "alloc::borrow::", "core::char::", "core::str::", "core::bool::",
        "core::clone::", "core::default::", "core::any::",
        "std::option::", "std::result::", "std::convert::", "std::ops::", "std::cmp::", "std::mem::",
        "std::iter::", "std::slice::", "std::array::", "std::num::", "std::borrow::", "std::char::",
        "std::str::", "std::bool::", "std::clone::", "std::default::",
    ];
    P.iter().any(|p| path.starts_with(p))
}

impl<'tcx> X<'tcx> {
    fn path(&self, d: DefId) -> String {
        self.tcx.def_path_str(d)
    }
    fn krate(&self, d: DefId) -> String {
        self.tcx.crate_name(d.krate).to_string()
    }
    fn ty(&mut self, t: Ty<'tcx>) -> usize {
        let t = self
            .tcx
            .try_normalize_erasing_regions(self.env, ty::Unnormalized::new_wip(t))
            .unwrap_or(t);
        if let Some(i) = self.ty_ids.get(&t) {
            return *i;
        }
        let id = self.ty_out.len();
        self.ty_ids.insert(t, id);
        self.ty_out.push(String::new());
        let s = self.ty_json(t);
        self.ty_out[id] = s;
        id
    }
    fn gargs(&mut self, args: ty::GenericArgsRef<'tcx>) -> String {
        let mut v = vec![];
        for a in args.iter() {
            if let Some(t) = a.as_type() {
                v.push(format!("{}", self.ty(t)));
            } else if let Some(c) = a.as_const() {
                v.push(match c.try_to_leaf().map(|l| l.to_bits(l.size())) {
                    Some(b) => format!("{{\"const\":\"{}\"}}", b),
                    None => format!("{{\"const\":{}}}", esc(&format!("{c:?}"))),
                });
            }
        }
        arr(v)
    }
    fn ty_json(&mut self, t: Ty<'tcx>) -> String {
        let s = esc(&format!("{t}"));
        match t.kind() {
            ty::Bool => "{\"k\":\"bool\",\"s\":\"bool\"}".into(),
            ty::Char => "{\"k\":\"char\",\"s\":\"char\"}".into(),
            ty::Int(_) | ty::Uint(_) => {
                let signed = matches!(t.kind(), ty::Int(_));
                let bits = match t.kind() {
                    ty::Int(i) => i.bit_width().unwrap_or(64),
                    ty::Uint(i) => i.bit_width().unwrap_or(64),
                    _ => 0,
                };
                format!("{{\"k\":\"int\",\"signed\":{signed},\"bits\":{bits},\"s\":{s}}}")
            }
            ty::Float(_) => format!("{{\"k\":\"float\",\"s\":{s}}}"),
            ty::Str => "{\"k\":\"str\",\"s\":\"str\"}".into(),
            ty::Never => "{\"k\":\"never\",\"s\":\"!\"}".into(),
            ty::Ref(_, t, m) => {
                let i = self.ty(*t);
                format!("{{\"k\":\"ref\",\"mut\":{},\"t\":{i},\"s\":{s}}}", m.is_mut())
            }
            ty::RawPtr(t, m) => {
                let i = self.ty(*t);
                format!("{{\"k\":\"ptr\",\"mut\":{},\"t\":{i},\"s\":{s}}}", m.is_mut())
            }
            ty::Slice(t) => {
                let i = self.ty(*t);
                format!("{{\"k\":\"slice\",\"t\":{i},\"s\":{s}}}")
            }
            ty::Array(t, n) => {
                let i = self.ty(*t);
                let n = n.try_to_target_usize(self.tcx).map(|x| x.to_string()).unwrap_or("null".into());
                format!("{{\"k\":\"array\",\"t\":{i},\"n\":{n},\"s\":{s}}}")
            }
            ty::Tuple(ts) => {
                let v = ts.iter().map(|t| self.ty(t).to_string()).collect();
                format!("{{\"k\":\"tuple\",\"ts\":{},\"s\":{s}}}", arr(v))
            }
            ty::Adt(def, args) => {
                let p = esc(&self.path(def.did()));
                let kr = esc(&self.krate(def.did()));
                let kind = if def.is_enum() { "enum" } else if def.is_union() { "union" } else { "struct" };
                let a = self.gargs(args);
                let mut vs = vec![];
                let discrs: Vec<u128> = if def.is_enum() {
                    def.discriminants(self.tcx).map(|(_, d)| d.val).collect()
                } else {
                    vec![0]
                };
                for (i, v) in def.variants().iter().enumerate() {
                    let mut fs = vec![];
                    for f in v.fields.iter() {
                        let ft = f.ty(self.tcx, args);
                        let ft = self
                            .tcx
                            .try_normalize_erasing_regions(self.env, ft)
                            .unwrap_or(f.ty(self.tcx, args).skip_normalization());
                        let id = self.ty(ft);
                        fs.push(format!("[{},{}]", esc(f.name.as_str()), id));
                    }
                    vs.push(format!(
                        "{{\"n\":{},\"d\":\"{}\",\"f\":{}}}",
                        esc(v.name.as_str()),
                        discrs.get(i).copied().unwrap_or(0),
                        arr(fs)
                    ));
                }
                format!("{{\"k\":\"adt\",\"adt\":\"{kind}\",\"path\":{p},\"crate\":{kr},\"args\":{a},\"v\":{},\"s\":{s}}}", arr(vs))
            }
            ty::FnDef(d, args) => {
                let f = self.callee(*d, args.skip_binder());
                format!("{{\"k\":\"fndef\",\"f\":{f},\"s\":{s}}}")
            }
            ty::Closure(d, args) => {
                let up = args.as_closure().upvar_tys().iter().map(|t| self.ty(t).to_string()).collect();
                let kind = args.as_closure().kind();
                let inst = Instance::new_raw(*d, args);
                let id = self.inst(inst);
                format!(
                    "{{\"k\":\"closure\",\"path\":{},\"inst\":{id},\"kind\":{},\"up\":{},\"s\":{}}}",
                    esc(&self.path(*d)), esc(&format!("{kind:?}")), arr(up), esc(&self.path(*d))
                )
            }
            ty::FnPtr(..) => format!("{{\"k\":\"fnptr\",\"s\":{s}}}"),
            ty::Dynamic(..) => format!("{{\"k\":\"dyn\",\"s\":{s}}}"),
            _ => format!("{{\"k\":\"other\",\"s\":{s}}}"),
        }
    }
    fn inst(&mut self, i: Instance<'tcx>) -> usize {
        if let Some(x) = self.inst_ids.get(&i) {
            return *x;
        }
        let id = self.inst_out.len();
        self.inst_ids.insert(i, id);
        self.inst_out.push(String::new());
        self.queue.push_back(i);
        id
    }
    fn should_walk(&self, inst: &Instance<'tcx>) -> bool {
        let d = inst.def_id();
        let kr = self.krate(d);
        let has = self.tcx.is_mir_available(d);
        match inst.def {
            InstanceKind::Item(_) => {
                if matches!(kr.as_str(), "core" | "std" | "alloc") {
                    has && walk_std(&self.path_full(d))
                } else {
                    has
                }
            }
            k => matches!(kind_name(&k).as_str(), "closureonce" | "fnptrshim"),
        }
    }
    fn path_full(&self, d: DefId) -> String {
        // crate::module path, even for impls
        let mut p = self.krate(d);
        let dp = self.tcx.def_path(d);
        for e in dp.data.iter() {
            p.push_str("::");
            p.push_str(&e.as_sym(false).to_string());
        }
        p
    }
    fn callee(&mut self, d: DefId, args: ty::GenericArgsRef<'tcx>) -> String {
        let tcx = self.tcx;
        let mut o = format!(
            "{{\"path\":{},\"crate\":{},\"args\":{}",
            esc(&self.path(d)), esc(&self.krate(d)), self.gargs(args)
        );
        if let Some(tr) = tcx.trait_of_assoc(d) {
            let st = args.types().next();
            let _ = write!(o, ",\"trait\":{},\"name\":{}", esc(&self.path(tr)), esc(tcx.item_name(d).as_str()));
            if let Some(st) = st {
                let i = self.ty(st);
                let _ = write!(o, ",\"self\":{i}");
            }
        } else if let Some(im) = tcx.impl_of_assoc(d) {
            let st = tcx.type_of(im).instantiate(tcx, args);
            let st = tcx.try_normalize_erasing_regions(self.env, st).unwrap_or_else(|_| st.skip_normalization());
            let i = self.ty(st);
            let _ = write!(o, ",\"impl_self\":{i},\"name\":{}", esc(tcx.item_name(d).as_str()));
        }
        if tcx.is_constructor(d) {
            let t = tcx.fn_sig(d).instantiate(tcx, args).skip_normalization().skip_binder().output();
            let ti = self.ty(t);
            let parent = tcx.parent(d);
            let adt = t.ty_adt_def();
            let vi = match (adt, tcx.def_kind(parent)) {
                (Some(a), DefKind::Variant) => a.variant_index_with_id(parent).as_usize(),
                _ => 0,
            };
            let _ = write!(o, ",\"ctor\":[{ti},{vi}]");
        }
        if let Some(intr) = tcx.intrinsic(d) {
            let _ = write!(o, ",\"intrinsic\":{}", esc(intr.name.as_str()));
        }
        match Instance::try_resolve(tcx, self.env, d, args) {
            Ok(Some(inst)) => {
                let rd = inst.def_id();
                let _ = write!(o, ",\"rpath\":{},\"rcrate\":{},\"rfull\":{},\"kind\":{}",
                    esc(&self.path(rd)), esc(&self.krate(rd)), esc(&self.path_full(rd)), esc(&kind_name(&inst.def)));
                if let Some(im) = tcx.impl_of_assoc(rd) {
                    let st = tcx.type_of(im).instantiate(tcx, inst.args);
                    let st = tcx.try_normalize_erasing_regions(self.env, st).unwrap_or_else(|_| st.skip_normalization());
                    let i = self.ty(st);
                    let _ = write!(o, ",\"rself\":{i},\"rname\":{}", esc(tcx.item_name(rd).as_str()));
                    if let Some(tr) = tcx.impl_opt_trait_ref(im) {
                        let _ = write!(o, ",\"rtrait\":{}", esc(&self.path(tr.skip_binder().def_id)));
                    }
                }
                if self.should_walk(&inst) {
                    let id = self.inst(inst);
                    let _ = write!(o, ",\"inst\":{id}");
                }
            }
            _ => {}
        }
        o.push('}');
        o
    }
    fn place(&mut self, p: &Place<'tcx>) -> String {
        let mut v = vec![];
        for e in p.projection.iter() {
            v.push(match e {
                PlaceElem::Deref => "\"*\"".to_string(),
                PlaceElem::Field(f, t) => format!("[\"f\",{},{}]", f.as_usize(), self.ty(t)),
                PlaceElem::Index(l) => format!("[\"i\",{}]", l.as_usize()),
                PlaceElem::ConstantIndex { offset, min_length, from_end } => {
                    format!("[\"ci\",{offset},{min_length},{from_end}]")
                }
                PlaceElem::Subslice { from, to, from_end } => format!("[\"sub\",{from},{to},{from_end}]"),
                PlaceElem::Downcast(_, v) => format!("[\"dc\",{}]", v.as_usize()),
                o => format!("[\"op\",{}]", esc(&format!("{o:?}"))),
            });
        }
        format!("[{},{}]", p.local.as_usize(), arr(v))
    }
    fn scalar_json(&mut self, s: Scalar, t: Ty<'tcx>) -> String {
        match s {
            Scalar::Int(i) => {
                let bits = i.to_bits(i.size());
                match t.kind() {
                    ty::Int(_) => {
                        let sz = i.size().bits();
                        let v = if sz == 128 { bits as i128 } else {
                            let sh = 128 - sz; ((bits << sh) as i128) >> sh };
                        format!("{{\"k\":\"int\",\"v\":\"{v}\"}}")
                    }
                    ty::Float(_) => format!("{{\"k\":\"float\",\"bits\":\"{bits}\"}}"),
                    ty::Adt(..) | ty::Tuple(..) | ty::Array(..) => String::new(),
                    _ => format!("{{\"k\":\"int\",\"v\":\"{bits}\"}}"),
                }
            }
            _ => String::new(),
        }
    }
    fn const_val(&mut self, v: mir::ConstValue, t: Ty<'tcx>, depth: usize) -> String {
        let tcx = self.tcx;
        if depth > 12 {
            return "{\"k\":\"deep\"}".into();
        }
        if let mir::ConstValue::Scalar(s) = v {
            let r = self.scalar_json(s, t);
            if !r.is_empty() {
                return r;
            }
        }
        match t.kind() {
            ty::Ref(_, inner, _) if inner.is_str() || matches!(inner.kind(), ty::Slice(e) if *e == tcx.types.u8) => {
                if let Some(b) = v.try_get_slice_bytes_for_diagnostics(tcx) {
                    let k = if inner.is_str() { "str" } else { "bytes" };
                    let l: Vec<String> = b.iter().map(|x| x.to_string()).collect();
                    return format!("{{\"k\":\"{k}\",\"b\":{}}}", arr(l));
                }
                "{\"k\":\"opaque\"}".into()
            }
            ty::Ref(_, inner, _) => {
                // pointer to something: read the pointee
                if let mir::ConstValue::Scalar(Scalar::Ptr(p, _)) = v {
                    let (prov, off) = p.into_raw_parts();
                    let aid = prov.alloc_id();
                    if let Some(rustc_middle::mir::interpret::GlobalAlloc::Memory(_)) = tcx.try_get_global_alloc(aid) {
                        if inner.is_sized(tcx, self.env) {
                            let iv = mir::ConstValue::Indirect { alloc_id: aid, offset: off };
                            let x = self.const_val(iv, *inner, depth + 1);
                            return format!("{{\"k\":\"ref\",\"t\":{},\"v\":{x}}}", self.ty(*inner));
                        }
                    }
                    if let Some(rustc_middle::mir::interpret::GlobalAlloc::Static(d)) = tcx.try_get_global_alloc(aid) {
                        return format!("{{\"k\":\"static\",\"path\":{}}}", esc(&self.path(d)));
                    }
                }
                // wide pointer to an ADT around [u8] (e.g. a transparent string wrapper)
                if let Some(b) = self.wide_bytes(v, *inner) {
                    let l: Vec<String> = b.iter().map(|x| x.to_string()).collect();
                    return format!("{{\"k\":\"wbytes\",\"b\":{}}}", arr(l));
                }
                "{\"k\":\"opaque\"}".into()
            }
            ty::FnDef(d, args) => {
                let f = self.callee(*d, args.skip_binder());
                format!("{{\"k\":\"fn\",\"f\":{f}}}")
            }
            ty::Adt(..) | ty::Tuple(..) | ty::Array(..) => {
                let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
                    tcx.try_destructure_mir_constant_for_user_output(v, t)
                }));
                match r {
                    Ok(Some(dc)) => {
                        let vi = dc.variant.map(|x| x.as_usize().to_string()).unwrap_or("0".into());
                        let fs = dc.fields.iter().map(|(fv, ft)| {
                            let x = self.const_val(*fv, *ft, depth + 1);
                            format!("{{\"t\":{},\"c\":{x}}}", self.ty(*ft))
                        }).collect();
                        format!("{{\"k\":\"agg\",\"variant\":{vi},\"f\":{}}}", arr(fs))
                    }
                    _ => "{\"k\":\"opaque\"}".into(),
                }
            }
            _ => {
                if let mir::ConstValue::Indirect { alloc_id, offset } = v {
                    // scalar in memory
                    if let Ok(l) = tcx.layout_of(self.env.as_query_input(t)) {
                        let a = tcx.global_alloc(alloc_id).unwrap_memory().inner();
                        let rng = rustc_middle::mir::interpret::AllocRange { start: offset, size: l.size };
                        if matches!(t.kind(), ty::Int(_) | ty::Uint(_) | ty::Bool | ty::Char | ty::Float(_)) {
                            if let Ok(s) = a.read_scalar(&tcx, rng, false) {
                                let r = self.scalar_json(s, t);
                                if !r.is_empty() {
                                    return r;
                                }
                            }
                        }
                    }
                }
                if matches!(v, mir::ConstValue::ZeroSized) {
                    return "{\"k\":\"zst\"}".into();
                }
                "{\"k\":\"opaque\"}".into()
            }
        }
    }
    fn wide_bytes(&self, v: mir::ConstValue, inner: Ty<'tcx>) -> Option<Vec<u8>> {
        let tcx = self.tcx;
        // unwrap single-field ADTs until [u8]/str
        let mut t = inner;
        loop {
            match t.kind() {
                ty::Adt(d, a) if d.is_struct() => {
                    let f = d.non_enum_variant().fields.iter().last()?;
                    t = f.ty(tcx, a).skip_normalization();
                }
                ty::Str => break,
                ty::Slice(e) if *e == tcx.types.u8 => break,
                _ => return None,
            }
        }
        match v {
            mir::ConstValue::Slice { alloc_id, meta } => {
                let a = tcx.global_alloc(alloc_id).unwrap_memory().inner();
                Some(a.inspect_with_uninit_and_ptr_outside_interpreter(0..meta as usize).to_vec())
            }
            mir::ConstValue::Indirect { alloc_id, offset } => {
                let a = tcx.global_alloc(alloc_id).unwrap_memory().inner();
                let ps = tcx.data_layout.pointer_size();
                let p = a.read_scalar(&tcx, rustc_middle::mir::interpret::AllocRange { start: offset, size: ps }, true).ok()?;
                let n = a.read_scalar(&tcx, rustc_middle::mir::interpret::AllocRange { start: offset + ps, size: ps }, false).ok()?;
                let n = match n { Scalar::Int(i) => i.to_bits(i.size()) as usize, _ => return None };
                if n == 0 { return Some(vec![]); }
                if let Scalar::Ptr(p, _) = p {
                    let (prov, off) = p.into_raw_parts();
                    let a = tcx.global_alloc(prov.alloc_id()).unwrap_memory().inner();
                    let o = off.bytes() as usize;
                    return Some(a.inspect_with_uninit_and_ptr_outside_interpreter(o..o + n).to_vec());
                }
                None
            }
            _ => None,
        }
    }
    fn konst(&mut self, c: &mir::ConstOperand<'tcx>) -> String {
        let t = c.const_.ty();
        let ti = self.ty(t);
        if let ty::FnDef(d, args) = t.kind() {
            let f = self.callee(*d, args.skip_binder());
            return format!("{{\"t\":{ti},\"c\":{{\"k\":\"fn\",\"f\":{f}}}}}");
        }
        let v = c.const_.eval(self.tcx, self.env, c.span);
        let s = match v {
            Ok(v) => self.const_val(v, t, 0),
            Err(_) => "{\"k\":\"err\"}".into(),
        };
        format!("{{\"t\":{ti},\"c\":{s}}}")
    }
    fn op(&mut self, o: &Operand<'tcx>) -> String {
        match o {
            Operand::Copy(p) => format!("[\"cp\",{}]", self.place(p)),
            Operand::Move(p) => format!("[\"mv\",{}]", self.place(p)),
            Operand::Constant(c) => format!("[\"c\",{}]", self.konst(c)),
            o => format!("[\"rt\",{}]", esc(&format!("{o:?}"))),
        }
    }
    fn rv(&mut self, r: &Rvalue<'tcx>) -> String {
        match r {
            Rvalue::Use(o, ..) => format!("[\"use\",{}]", self.op(o)),
            Rvalue::Repeat(o, n) => {
                let n = n.try_to_target_usize(self.tcx).map(|x| x.to_string()).unwrap_or("null".into());
                format!("[\"rep\",{},{n}]", self.op(o))
            }
            Rvalue::Ref(_, b, p) => format!("[\"ref\",{},{}]", self.place(p), matches!(b, BorrowKind::Mut { .. })),
            Rvalue::RawPtr(_, p) => format!("[\"raw\",{}]", self.place(p)),
            Rvalue::Cast(k, o, t) => {
                let ti = self.ty(*t);
                format!("[\"cast\",{},{},{ti}]", esc(&format!("{k:?}")), self.op(o))
            }
            Rvalue::BinaryOp(b, ab) => format!("[\"bin\",{},{},{}]", esc(&format!("{b:?}")), self.op(&ab.0), self.op(&ab.1)),
            Rvalue::UnaryOp(u, o) => format!("[\"un\",{},{}]", esc(&format!("{u:?}")), self.op(o)),
            Rvalue::Discriminant(p) => format!("[\"discr\",{}]", self.place(p)),
            Rvalue::CopyForDeref(p) => format!("[\"use\",[\"cp\",{}]]", self.place(p)),
            Rvalue::Aggregate(k, ops) => {
                let o: Vec<String> = ops.iter().map(|o| self.op(o)).collect();
                let k = match &**k {
                    AggregateKind::Array(t) => format!("[\"array\",{}]", self.ty(*t)),
                    AggregateKind::Tuple => "[\"tuple\"]".into(),
                    AggregateKind::Adt(d, v, args, _, _) => {
                        let t = self.tcx.type_of(*d).instantiate(self.tcx, args).skip_normalization();
                        format!("[\"adt\",{},{}]", self.ty(t), v.as_usize())
                    }
                    AggregateKind::Closure(d, args) => {
                        let t = Ty::new_closure(self.tcx, *d, args);
                        format!("[\"closure\",{}]", self.ty(t))
                    }
                    AggregateKind::RawPtr(..) => "[\"rawptr\"]".into(),
                    k => format!("[\"other\",{}]", esc(&format!("{k:?}"))),
                };
                format!("[\"agg\",{k},{}]", arr(o))
            }
            o => format!("[\"other\",{}]", esc(&format!("{o:?}"))),
        }
    }
    fn body(&mut self, inst: Instance<'tcx>) -> String {
        let tcx = self.tcx;
        let d = inst.def_id();
        let body = tcx.instance_mir(inst.def);
        let body = inst.instantiate_mir_and_normalize_erasing_regions(tcx, self.env, ty::EarlyBinder::bind(tcx, body.clone()));
        let locals = body.local_decls.iter().map(|l| self.ty(l.ty).to_string()).collect();
        let mut names = vec![];
        for v in body.var_debug_info.iter() {
            if let VarDebugInfoContents::Place(p) = v.value {
                names.push(format!("[{},{}]", esc(v.name.as_str()), self.place(&p)));
            }
        }
        let sm = tcx.sess.source_map();
        let line = |sp: rustc_span::Span| -> String {
            let sp = sp.source_callsite();
            if sp.is_dummy() { return "[\"\",0]".into(); }
            let l = sm.lookup_char_pos(sp.lo());
            format!("[{},{}]", esc(&format!("{}", l.file.name.prefer_local_unconditionally())), l.line)
        };
        let mut blocks = vec![];
        for bb in body.basic_blocks.iter() {
            let mut st = vec![];
            for s in bb.statements.iter() {
                match &s.kind {
                    StatementKind::Assign(b) => {
                        let p = self.place(&b.0);
                        let r = self.rv(&b.1);
                        st.push(format!("[\"=\",{p},{r},{}]", line(s.source_info.span)));
                    }
                    StatementKind::SetDiscriminant { place, variant_index } => {
                        st.push(format!("[\"setd\",{},{}]", self.place(place), variant_index.as_usize()));
                    }
                    StatementKind::Intrinsic(i) => st.push(format!("[\"intr\",{}]", esc(&format!("{i:?}")))),
                    _ => {}
                }
            }
            let t = bb.terminator();
            let ln = line(t.source_info.span);
            let term = match &t.kind {
                TerminatorKind::Goto { target, .. } => format!("[\"goto\",{}]", target.as_usize()),
                TerminatorKind::FalseEdge { real_target, .. } => format!("[\"goto\",{}]", real_target.as_usize()),
                TerminatorKind::FalseUnwind { real_target, .. } => format!("[\"goto\",{}]", real_target.as_usize()),
                TerminatorKind::Drop { target, place, .. } => {
                    format!("[\"drop\",{},{}]", target.as_usize(), self.place(place))
                }
                TerminatorKind::Return => "[\"ret\"]".into(),
                TerminatorKind::Unreachable => "[\"unreachable\"]".into(),
                TerminatorKind::SwitchInt { discr, targets } => {
                    let dty = discr.ty(&body.local_decls, tcx);
                    let ti = self.ty(dty);
                    let v: Vec<String> = targets.iter().map(|(v, b)| format!("[\"{v}\",{}]", b.as_usize())).collect();
                    format!("[\"switch\",{},{ti},{},{}]", self.op(discr), arr(v), targets.otherwise().as_usize())
                }
                TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                    let k = format!("{:?}", msg);
                    let kind = match &**msg {
                        AssertKind::BoundsCheck { .. } => "bounds".to_string(),
                        AssertKind::Overflow(op, ..) => format!("overflow:{op:?}"),
                        AssertKind::OverflowNeg(_) => "overflow:Neg".to_string(),
                        AssertKind::DivisionByZero(_) => "div0".to_string(),
                        AssertKind::RemainderByZero(_) => "rem0".to_string(),
                        _ => "other".to_string(),
                    };
                    format!("[\"assert\",{},{expected},{},{},{ln},{}]", self.op(cond), esc(&kind), target.as_usize(), esc(&k))
                }
                TerminatorKind::Call { func, args, destination, target, .. } => {
                    let fty = func.ty(&body.local_decls, tcx);
                    let f = match fty.kind() {
                        ty::FnDef(d, a) => self.callee(*d, a.skip_binder()),
                        _ => format!("{{\"indirect\":{}}}", self.op(func)),
                    };
                    let a: Vec<String> = args.iter().map(|a| self.op(&a.node)).collect();
                    let dst = self.place(destination);
                    let tg = target.map(|t| t.as_usize().to_string()).unwrap_or("null".into());
                    format!("[\"call\",{f},{},{dst},{tg},{ln}]", arr(a))
                }
                TerminatorKind::UnwindResume | TerminatorKind::UnwindTerminate(_) => "[\"resume\"]".into(),
                o => format!("[\"other\",{}]", esc(&format!("{o:?}"))),
            };
            blocks.push(format!("[{},{term},{}]", arr(st), bb.is_cleanup));
        }
        let mut o = format!(
            "{{\"path\":{},\"full\":{},\"crate\":{},\"kind\":{},\"args\":{},\"argc\":{},\"spread\":{},\"locals\":{},\"names\":{},\"loc\":{},\"blocks\":{}",
            esc(&self.path(d)), esc(&self.path_full(d)), esc(&self.krate(d)), esc(&kind_name(&inst.def)),
            self.gargs(inst.args), body.arg_count,
            body.spread_arg.map(|l| l.as_usize().to_string()).unwrap_or("null".into()),
            arr(locals), arr(names), line(tcx.def_span(d)), arr(blocks)
        );
        if let Some(im) = tcx.impl_of_assoc(d) {
            let st = tcx.type_of(im).instantiate(tcx, inst.args);
            let st = tcx.try_normalize_erasing_regions(self.env, st).unwrap_or_else(|_| st.skip_normalization());
            let i = self.ty(st);
            let _ = write!(o, ",\"self\":{i},\"derived\":{}", tcx.is_automatically_derived(im));
            if let Some(tr) = tcx.impl_opt_trait_ref(im) {
                let _ = write!(o, ",\"trait\":{}", esc(&self.path(tr.skip_binder().def_id)));
            }
        }
        if let Some(n) = tcx.opt_item_name(d) {
            let _ = write!(o, ",\"name\":{}", esc(n.as_str()));
        }
        if matches!(tcx.def_kind(d), DefKind::Fn | DefKind::AssocFn) {
            let us = tcx.fn_sig(d).skip_binder().safety().is_unsafe();
            let vis = tcx.visibility(d).is_public();
            let _ = write!(o, ",\"unsafe\":{us},\"pub\":{vis}");
        }
        o.push('}');
        o
    }
}
fn kind_name(k: &InstanceKind<'_>) -> String {
    let s = format!("{k:?}");
    match k {
        InstanceKind::Item(_) => "item".into(),
        InstanceKind::Intrinsic(_) => "intrinsic".into(),
        InstanceKind::Virtual(..) => "virtual".into(),
        _ => {
            for (p, n) in [("ClosureOnce", "closureonce"), ("FnPtrShim", "fnptrshim"), ("FnPtr", "fnptrshim"), ("Clone", "clone"), ("Drop", "drop"), ("Reify", "reify"), ("VTable", "vtable")] {
                if s.contains(p) {
                    return n.into();
                }
            }
            s.chars().take(40).collect()
        }
    }
}

struct Cb {
    out: Option<String>,
}
impl Callbacks for Cb {
    fn after_analysis<'tcx>(&mut self, _c: &rustc_interface::interface::Compiler, tcx: TyCtxt<'tcx>) -> Compilation {
        let Some(out) = &self.out else { return Compilation::Continue };
        let mut x = X {
            tcx,
            env: TypingEnv::fully_monomorphized(),
            ty_ids: HashMap::new(),
            ty_out: vec![],
            inst_ids: HashMap::new(),
            inst_out: vec![],
            queue: VecDeque::new(),
        };
        let mut roots = vec![];
        for ld in tcx.mir_keys(()) {
            let d = ld.to_def_id();
            if tcx.def_kind(d) == DefKind::Fn && tcx.visibility(d).is_public() && !tcx.generics_of(d).requires_monomorphization(tcx) {
                let i = Instance::mono(tcx, d);
                let id = x.inst(i);
                roots.push(format!("[{},{id}]", esc(&x.path(d))));
            }
        }
        // equality, order and hashing of the types of the crates
        let hasher = tcx.mir_keys(()).iter().find(|d| tcx.def_kind(d.to_def_id()) == DefKind::Fn && tcx.item_name(d.to_def_id()).as_str() == "law_hasher")
            .map(|d| tcx.fn_sig(d.to_def_id()).instantiate_identity().skip_binder().inputs()[0]);
        let traits = [tcx.lang_items().eq_trait(), tcx.lang_items().partial_ord_trait(), tcx.get_diagnostic_item(rustc_span::sym::Hash), tcx.get_diagnostic_item(rustc_span::sym::Ord)];
        for tr in traits.into_iter().flatten() {
            for im in tcx.all_impls(tr) {
                let krate = tcx.crate_name(im.krate);
                if !matches!(krate.as_str(), "coffer" | "wtf_8") || tcx.generics_of(im).requires_monomorphization(tcx) {
                    continue;
                }
                for d in tcx.associated_item_def_ids(im) {
                    if tcx.def_kind(*d) != DefKind::AssocFn || !tcx.is_mir_available(*d) {
                        continue;
                    }
                    let own = tcx.generics_of(*d).own_params.iter().filter(|p| !matches!(p.kind, rustc_middle::ty::GenericParamDefKind::Lifetime)).count();
                    let args = rustc_middle::ty::GenericArgs::for_item(tcx, *d, |p, _| match p.kind {
                        rustc_middle::ty::GenericParamDefKind::Lifetime => tcx.lifetimes.re_erased.into(),
                        _ => hasher.unwrap_or(tcx.types.unit).into(),
                    });
                    if own > 1 || own == 1 && (hasher.is_none() || tcx.item_name(*d).as_str() != "hash") {
                        continue;
                    }
                    let id = x.inst(Instance::new_raw(*d, args));
                    roots.push(format!("[{},{id}]", esc(&format!("law::{}", x.path(*d)))));
                }
            }
        }
        while let Some(i) = x.queue.pop_front() {
            let id = x.inst_ids[&i];
            let s = x.body(i);
            x.inst_out[id] = s;
        }
        let s = format!("{{\"roots\":{},\n\"types\":[\n{}\n],\n\"insts\":[\n{}\n]}}\n", arr(roots), x.ty_out.join(",\n"), x.inst_out.join(",\n"));
        std::fs::write(out, s).expect("write MIRX_OUT");
        Compilation::Continue
    }
}

fn main() {
    let mut args: Vec<String> = std::env::args().collect();
    // RUSTC_WORKSPACE_WRAPPER protocol: argv[1] is the real rustc
    if args.len() > 1 && (args[1].ends_with("rustc") || args[1].contains("/rustc")) {
        args.remove(1);
    }
    let want = std::env::var("MIRX_CRATE").unwrap_or_default();
    let mut is = false;
    for w in args.windows(2) {
        if w[0] == "--crate-name" && w[1] == want {
            is = true;
        }
    }
    let out = if is { std::env::var("MIRX_OUT").ok() } else { None };
    rustc_driver_impl::compiler_entrypoint(&args, &mut Cb { out });
}

//! A rustc driver that writes the typed, resolved program of the crate `bumaga` as JSON facts.
//!
//! It is injected with RUSTC_WORKSPACE_WRAPPER under `cargo +nightly check`. For every crate but
//! the target it behaves exactly like rustc. For the target it dumps, after analysis, the MIR of
//! every body (functions, methods, closures, promoted constants) with resolved callees, evaluated
//! constants, field and variant names, plus the definitions of every ADT that is mentioned.
#![feature(rustc_private)]

extern crate rustc_abi;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_span;

use rustc_driver::{Callbacks, Compilation};
use rustc_hir::def::DefKind;
use rustc_hir::def_id::DefId;
use rustc_interface::interface;
use rustc_middle::mir::interpret::{AllocId, GlobalAlloc, Scalar};
use rustc_middle::mir::{
    self, AggregateKind, Body, Const, ConstOperand, ConstValue, Operand, Place, PlaceTy,
    ProjectionElem, Rvalue, StatementKind, TerminatorKind,
};
use rustc_middle::ty::print::with_no_trimmed_paths;
use rustc_middle::ty::{self, Instance, InstanceKind, Ty, TyCtxt, TypingEnv};
use rustc_span::Span;
use std::collections::BTreeMap;
use std::fmt::Write as _;

fn js(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 || c as u32 == 0x7f => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn arr(v: impl IntoIterator<Item = String>) -> String {
    let v: Vec<String> = v.into_iter().collect();
    format!("[{}]", v.join(","))
}

struct Cx<'tcx> {
    tcx: TyCtxt<'tcx>,
    adts: BTreeMap<String, String>,
    root: String,
}

impl<'tcx> Cx<'tcx> {
    fn path(&self, def: DefId) -> String {
        with_no_trimmed_paths!(self.tcx.def_path_str(def))
    }

    fn ty(&mut self, t: Ty<'tcx>) -> String {
        self.note(t);
        with_no_trimmed_paths!(format!("{t}"))
    }

    fn note(&mut self, t: Ty<'tcx>) {
        match *t.kind() {
            ty::Adt(def, args) => {
                let p = self.path(def.did());
                if !self.adts.contains_key(&p) {
                    self.adts.insert(p.clone(), String::new());
                    let kind = if def.is_enum() {
                        "enum"
                    } else if def.is_union() {
                        "union"
                    } else {
                        "struct"
                    };
                    let discrs: Vec<String> = if def.is_enum() {
                        def.discriminants(self.tcx).map(|(_, d)| d.val.to_string()).collect()
                    } else {
                        vec!["0".into()]
                    };
                    let mut vs = vec![];
                    for (i, v) in def.variants().iter_enumerated() {
                        let fields = v.fields.iter().map(|f| {
                            let fty = with_no_trimmed_paths!(format!(
                                "{}",
                                self.tcx.type_of(f.did).instantiate_identity().skip_norm_wip()
                            ));
                            format!("[{},{}]", js(f.name.as_str()), js(&fty))
                        });
                        let fields = arr(fields);
                        vs.push(format!(
                            "{{\"name\":{},\"discr\":{},\"fields\":{}}}",
                            js(v.name.as_str()),
                            js(discrs.get(i.as_usize()).map(|s| s.as_str()).unwrap_or("0")),
                            fields
                        ));
                    }
                    let local = def.did().is_local();
                    let s = format!(
                        "{{\"kind\":{},\"local\":{},\"variants\":{}}}",
                        js(kind),
                        local,
                        arr(vs)
                    );
                    self.adts.insert(p, s);
                    if local {
                        for v in def.variants() {
                            for f in &v.fields {
                                let fty = self.tcx.type_of(f.did).instantiate_identity().skip_norm_wip();
                                self.note(fty);
                            }
                        }
                    }
                }
                for a in args.types() {
                    self.note(a);
                }
            }
            ty::Ref(_, t, _) | ty::RawPtr(t, _) | ty::Slice(t) | ty::Array(t, _) => self.note(t),
            ty::Tuple(ts) => {
                for t in ts {
                    self.note(t);
                }
            }
            _ => {}
        }
    }

    fn span(&self, s: Span) -> String {
        let s = s.source_callsite();
        let sm = self.tcx.sess.source_map();
        let lo = sm.lookup_char_pos(s.lo());
        let name = format!("{}", lo.file.name.prefer_local_unconditionally());
        let name = name.strip_prefix(&self.root).unwrap_or(&name).trim_start_matches('/').to_string();
        format!("[{},{}]", js(&name), lo.line)
    }

    fn place(&mut self, body: &Body<'tcx>, p: Place<'tcx>) -> String {
        let mut pt = PlaceTy::from_ty(body.local_decls[p.local].ty);
        let mut out = vec![];
        for e in p.projection.iter() {
            let s = match e {
                ProjectionElem::Deref => "[\"*\"]".to_string(),
                ProjectionElem::Field(i, _) => {
                    let name = match *pt.ty.kind() {
                        ty::Adt(def, _) => {
                            let v = match pt.variant_index {
                                Some(v) => def.variant(v),
                                None if def.is_enum() => def.variant(rustc_abi::FIRST_VARIANT),
                                None => def.non_enum_variant(),
                            };
                            v.fields[i].name.to_string()
                        }
                        _ => i.as_usize().to_string(),
                    };
                    format!("[\"f\",{},{}]", js(&name), i.as_usize())
                }
                ProjectionElem::Index(l) => format!("[\"i\",{}]", l.as_usize()),
                ProjectionElem::ConstantIndex { offset, min_length, from_end } => {
                    format!("[\"c\",{offset},{min_length},{from_end}]")
                }
                ProjectionElem::Subslice { from, to, from_end } => {
                    format!("[\"s\",{from},{to},{from_end}]")
                }
                ProjectionElem::Downcast(_, v) => {
                    let name = match *pt.ty.kind() {
                        ty::Adt(def, _) => def.variant(v).name.to_string(),
                        _ => v.as_usize().to_string(),
                    };
                    format!("[\"v\",{},{}]", js(&name), v.as_usize())
                }
                _ => "[\"?\"]".to_string(),
            };
            out.push(s);
            pt = pt.projection_ty(self.tcx, e);
        }
        format!("[{},{}]", p.local.as_usize(), arr(out))
    }

    fn bytes(&self, id: AllocId, off: u64, len: u64) -> Option<Vec<u8>> {
        match self.tcx.global_alloc(id) {
            GlobalAlloc::Memory(a) => {
                let a = a.inner();
                let off = off as usize;
                let len = len as usize;
                if off + len > a.len() {
                    return None;
                }
                Some(a.inspect_with_uninit_and_ptr_outside_interpreter(off..off + len).to_vec())
            }
            _ => None,
        }
    }

    fn bytestr(b: &[u8]) -> String {
        arr(b.iter().map(|x| x.to_string()))
    }

    fn scalar(&mut self, t: Ty<'tcx>, bits: u128, size: u64) -> String {
        match t.kind() {
            ty::Bool => format!("{{\"k\":\"bool\",\"v\":{}}}", bits != 0),
            ty::Char => format!(
                "{{\"k\":\"char\",\"v\":{}}}",
                js(&char::from_u32(bits as u32).map(|c| c.to_string()).unwrap_or_default())
            ),
            ty::Int(_) => {
                let shift = 128 - size * 8;
                let v = ((bits << shift) as i128) >> shift;
                format!("{{\"k\":\"int\",\"v\":\"{v}\"}}")
            }
            ty::Uint(_) => format!("{{\"k\":\"int\",\"v\":\"{bits}\"}}"),
            ty::Float(ty::FloatTy::F32) => {
                format!("{{\"k\":\"float\",\"v\":{}}}", js(&format!("{:?}", f32::from_bits(bits as u32))))
            }
            ty::Float(ty::FloatTy::F64) => {
                format!("{{\"k\":\"float\",\"v\":{}}}", js(&format!("{:?}", f64::from_bits(bits as u64))))
            }
            ty::Adt(def, _) if def.is_enum() => {
                for (v, d) in def.discriminants(self.tcx) {
                    if d.val == bits {
                        let var = def.variant(v);
                        if var.fields.is_empty() {
                            return format!(
                                "{{\"k\":\"variant\",\"adt\":{},\"v\":{}}}",
                                js(&self.path(def.did())),
                                js(var.name.as_str())
                            );
                        }
                    }
                }
                format!("{{\"k\":\"opaque\",\"v\":\"{bits}\"}}")
            }
            _ => format!("{{\"k\":\"opaque\",\"v\":\"{bits}\"}}"),
        }
    }

    fn constant(&mut self, owner: DefId, c: &ConstOperand<'tcx>) -> String {
        let tcx = self.tcx;
        let env = TypingEnv::post_analysis(tcx, owner);
        let t = c.const_.ty();
        let tys = js(&self.ty(t));
        match *t.kind() {
            ty::FnDef(def, args) => {
                let f = self.func(owner, def, args.skip_binder());
                return format!("{{\"k\":\"fn\",\"ty\":{tys},\"fn\":{f}}}");
            }
            _ => {}
        }
        let mut named = String::from("null");
        // a constant of this crate (or one without a name) is given by its value, one of another crate by its name
        let mut local = true;
        if let Const::Unevaluated(u, _) = c.const_ {
            if let Some(p) = u.promoted {
                return format!(
                    "{{\"k\":\"promoted\",\"ty\":{tys},\"owner\":{},\"v\":{}}}",
                    js(&self.path(u.def)),
                    p.as_usize()
                );
            }
            named = js(&self.path(u.def));
            local = u.def.is_local();
        }
        let inner = match c.const_.eval(tcx, env, c.span) {
            Ok(ConstValue::Scalar(Scalar::Int(i))) => {
                let size = i.size().bytes();
                self.scalar(t, i.to_bits(i.size()), size)
            }
            Ok(ConstValue::Scalar(Scalar::Ptr(p, _))) => {
                // references to byte strings or constant data
                let (prov, off) = p.into_raw_parts();
                let inner_ty = match *t.kind() {
                    ty::Ref(_, i, _) => Some(i),
                    _ => None,
                };
                let mut r = String::from("{\"k\":\"opaque\",\"v\":\"ptr\"}");
                if let Some(i) = inner_ty {
                    if let ty::Array(e, n) = *i.kind() {
                        if let (ty::Uint(ty::UintTy::U8), Some(n)) =
                            (e.kind(), n.try_to_target_usize(tcx))
                        {
                            if let Some(b) = self.bytes(prov.alloc_id(), off.bytes(), n) {
                                r = format!("{{\"k\":\"bytes\",\"v\":{}}}", Self::bytestr(&b));
                            }
                        }
                    } else if let Ok(l) = tcx.layout_of(env.as_query_input(i)) {
                        if i.is_scalar() {
                            if let Some(b) = self.bytes(prov.alloc_id(), off.bytes(), l.size.bytes()) {
                                let mut v: u128 = 0;
                                for (k, x) in b.iter().enumerate() {
                                    v |= (*x as u128) << (8 * k);
                                }
                                let s = self.scalar(i, v, l.size.bytes());
                                r = format!("{{\"k\":\"refto\",\"v\":{s}}}");
                            }
                        }
                    }
                }
                r
            }
            Ok(ConstValue::ZeroSized) => {
                if let ty::Adt(def, _) = *t.kind() {
                    let p = js(&self.path(def.did()));
                    format!("{{\"k\":\"zst\",\"adt\":{p}}}")
                } else if let ty::Closure(def, _) = *t.kind() {
                    format!("{{\"k\":\"zst\",\"def\":{}}}", js(&self.path(def)))
                } else {
                    "{\"k\":\"zst\"}".to_string()
                }
            }
            Ok(ConstValue::Slice { alloc_id, meta }) => match self.bytes(alloc_id, 0, meta) {
                Some(b) => match *t.kind() {
                    ty::Ref(_, i, _) if i.is_str() => {
                        format!("{{\"k\":\"str\",\"v\":{}}}", js(&String::from_utf8_lossy(&b)))
                    }
                    _ => format!("{{\"k\":\"bytes\",\"v\":{}}}", Self::bytestr(&b)),
                },
                None => "{\"k\":\"opaque\",\"v\":\"slice\"}".into(),
            },
            Ok(ConstValue::Indirect { alloc_id, offset }) => {
                // arrays/tuples/structs of scalars: destructure when possible
                match self.indirect(env, t, alloc_id, offset.bytes(), 0) {
                    Some(s) => s,
                    None => "{\"k\":\"opaque\",\"v\":\"indirect\"}".into(),
                }
            }
            Err(_) => "{\"k\":\"opaque\",\"v\":\"generic\"}".into(),
        };
        let inner = if inner.starts_with("{\"k\":\"opaque\"") && local {
            match c.const_.eval(tcx, env, c.span) {
                Ok(v) => self.constant_value(t, v, 0).unwrap_or(inner),
                Err(_) => inner,
            }
        } else {
            inner
        };
        // merge
        let body = &inner[1..inner.len() - 1];
        format!("{{{body},\"ty\":{tys},\"name\":{named}}}")
    }

    /// The memory a reference points to, as a constant of the given type.
    fn behind(&mut self, t: Ty<'tcx>, prov: AllocId, off: u64, depth: usize) -> Option<String> {
        let tcx = self.tcx;
        let id = match tcx.try_get_global_alloc(prov)? {
            GlobalAlloc::Memory(_) => prov,
            GlobalAlloc::Static(def) => {
                if tcx.is_foreign_item(def) || tcx.is_mutable_static(def) || !t.is_freeze(tcx, TypingEnv::fully_monomorphized()) {
                    return None;
                }
                let a = tcx.eval_static_initializer(def).ok()?;
                tcx.reserve_and_set_memory_alloc(a)
            }
            _ => return None,
        };
        self.constant_value(t, ConstValue::Indirect { alloc_id: id, offset: rustc_abi::Size::from_bytes(off) }, depth + 1)
    }

    /// A constant by its parts, through references.
    fn constant_value(&mut self, t: Ty<'tcx>, v: ConstValue, depth: usize) -> Option<String> {
        if depth > 8 {
            return None;
        }
        let tcx = self.tcx;
        let env = TypingEnv::fully_monomorphized();
        if t.is_bool() || t.is_char() || t.is_integral() || t.is_floating_point() {
            let l = tcx.layout_of(env.as_query_input(t)).ok()?.size;
            let bits = match v {
                ConstValue::Scalar(Scalar::Int(i)) => i.to_bits(i.size()),
                ConstValue::Indirect { alloc_id, offset } => {
                    let b = self.bytes(alloc_id, offset.bytes(), l.bytes())?;
                    b.iter().enumerate().fold(0u128, |a, (k, x)| a | (*x as u128) << (8 * k))
                }
                _ => return None,
            };
            return Some(self.scalar(t, bits, l.bytes()));
        }
        match *t.kind() {
            ty::Ref(_, i, ty::Mutability::Not) => {
                // (memory, offset, length)
                let (prov, off, meta) = match v {
                    ConstValue::Scalar(Scalar::Ptr(p, _)) => {
                        let (prov, off) = p.into_raw_parts();
                        (prov.alloc_id(), off.bytes(), None)
                    }
                    ConstValue::Slice { alloc_id, meta } => (alloc_id, 0, Some(meta)),
                    ConstValue::Indirect { alloc_id, offset } => {
                        let GlobalAlloc::Memory(a) = tcx.try_get_global_alloc(alloc_id)? else { return None };
                        let a = a.inner();
                        let prov = a.provenance().get_ptr(offset)?.alloc_id();
                        let o = self.bytes(alloc_id, offset.bytes(), 8)?;
                        let o = u64::from_le_bytes(o.try_into().ok()?);
                        let fat = i.is_str() || i.is_slice();
                        let meta = if fat {
                            let m = self.bytes(alloc_id, offset.bytes() + 8, 8)?;
                            Some(u64::from_le_bytes(m.try_into().ok()?))
                        } else {
                            None
                        };
                        (prov, o, meta)
                    }
                    _ => return None,
                };
                match *i.kind() {
                    ty::Str => {
                        let b = self.bytes(prov, off, meta?)?;
                        Some(format!("{{\"k\":\"str\",\"v\":{}}}", js(&String::from_utf8_lossy(&b))))
                    }
                    ty::Slice(e) => {
                        let n = meta?;
                        if n > 1024 {
                            return None;
                        }
                        let el = tcx.layout_of(env.as_query_input(e)).ok()?.size.bytes();
                        let mut out = vec![];
                        for k in 0..n {
                            out.push(self.behind(e, prov, off + k * el, depth)?);
                        }
                        Some(format!("{{\"k\":\"array\",\"v\":{}}}", arr(out)))
                    }
                    _ => self.behind(i, prov, off, depth),
                }
            }
            ty::FnPtr(..) => None,
            ty::Array(..) | ty::Tuple(..) | ty::Adt(..) => {
                if let ty::Adt(def, _) = *t.kind() {
                    if def.is_union() {
                        return None;
                    }
                }
                if let ty::Array(_, n) = *t.kind() {
                    if n.try_to_target_usize(tcx)? > 1024 {
                        return None;
                    }
                }
                let d = tcx.try_destructure_mir_constant_for_user_output(v, t)?;
                let mut out = vec![];
                for (fv, ft) in d.fields.iter() {
                    out.push(self.constant_value(*ft, *fv, depth + 1)?);
                }
                match *t.kind() {
                    ty::Array(..) => Some(format!("{{\"k\":\"array\",\"v\":{}}}", arr(out))),
                    ty::Adt(def, _) => {
                        let var = match d.variant {
                            Some(x) => def.variant(x),
                            None => def.non_enum_variant(),
                        };
                        let fields = var.fields.iter().zip(out).map(|(f, x)| format!("[{},{}]", js(f.name.as_str()), x)).collect::<Vec<_>>();
                        Some(format!(
                            "{{\"k\":\"struct\",\"adt\":{},\"variant\":{},\"v\":{}}}",
                            js(&self.path(def.did())),
                            js(var.name.as_str()),
                            arr(fields)
                        ))
                    }
                    _ => Some(format!("{{\"k\":\"tuple\",\"v\":{}}}", arr(out))),
                }
            }
            _ => None,
        }
    }

    fn indirect(
        &mut self,
        env: TypingEnv<'tcx>,
        t: Ty<'tcx>,
        id: AllocId,
        off: u64,
        depth: usize,
    ) -> Option<String> {
        if depth > 4 {
            return None;
        }
        let tcx = self.tcx;
        let layout = tcx.layout_of(env.as_query_input(t)).ok()?;
        if t.is_bool() || t.is_char() || t.is_integral() || t.is_floating_point() {
            let b = self.bytes(id, off, layout.size.bytes())?;
            let mut v: u128 = 0;
            for (k, x) in b.iter().enumerate() {
                v |= (*x as u128) << (8 * k);
            }
            return Some(self.scalar(t, v, layout.size.bytes()));
        }
        match *t.kind() {
            ty::Array(e, n) => {
                let n = n.try_to_target_usize(tcx)?;
                let el = tcx.layout_of(env.as_query_input(e)).ok()?.size.bytes();
                if n > 64 {
                    return None;
                }
                let mut out = vec![];
                for k in 0..n {
                    out.push(self.indirect(env, e, id, off + k * el, depth + 1)?);
                }
                Some(format!("{{\"k\":\"array\",\"v\":{}}}", arr(out)))
            }
            ty::Tuple(ts) => {
                let mut out = vec![];
                for (k, ft) in ts.iter().enumerate() {
                    let o = layout.fields.offset(k).bytes();
                    out.push(self.indirect(env, ft, id, off + o, depth + 1)?);
                }
                Some(format!("{{\"k\":\"tuple\",\"v\":{}}}", arr(out)))
            }
            ty::Adt(def, args) if def.is_struct() => {
                let mut out = vec![];
                for (k, f) in def.non_enum_variant().fields.iter().enumerate() {
                    let ft = f.ty(tcx, args).skip_norm_wip();
                    let o = layout.fields.offset(k).bytes();
                    out.push(format!(
                        "[{},{}]",
                        js(f.name.as_str()),
                        self.indirect(env, ft, id, off + o, depth + 1)?
                    ));
                }
                Some(format!(
                    "{{\"k\":\"struct\",\"adt\":{},\"v\":{}}}",
                    js(&self.path(def.did())),
                    arr(out)
                ))
            }
            _ => None,
        }
    }

    fn func(&mut self, owner: DefId, def: DefId, args: ty::GenericArgsRef<'tcx>) -> String {
        let tcx = self.tcx;
        let env = TypingEnv::post_analysis(tcx, owner);
        let p = js(&self.path(def));
        let targs = arr(args.types().map(|t| js(&self.ty(t))).collect::<Vec<_>>());
        let kind = tcx.def_kind(def);
        let mut res = "null".to_string();
        let mut rk = "none";
        let mut local = def.is_local();
        if matches!(kind, DefKind::Fn | DefKind::AssocFn) {
            let erased = tcx.erase_and_anonymize_regions(args);
            if let Ok(Some(inst)) = Instance::try_resolve(tcx, env, def, erased) {
                let d = inst.def_id();
                rk = match inst.def {
                    InstanceKind::Item(_) => "item",
                    InstanceKind::Virtual(..) => "virtual",
                    _ => "shim",
                };
                res = js(&self.path(d));
                local = d.is_local();
            }
        } else {
            rk = "ctor";
        }
        let tr = match tcx.trait_of_assoc(def) {
            Some(t) => js(&self.path(t)),
            None => "null".into(),
        };
        format!(
            "{{\"p\":{p},\"targs\":{targs},\"res\":{res},\"rk\":{},\"local\":{local},\"trait\":{tr}}}",
            js(rk)
        )
    }

    fn operand(&mut self, owner: DefId, body: &Body<'tcx>, o: &Operand<'tcx>) -> String {
        match o {
            Operand::Copy(p) => format!("{{\"o\":\"copy\",\"p\":{}}}", self.place(body, *p)),
            Operand::Move(p) => format!("{{\"o\":\"move\",\"p\":{}}}", self.place(body, *p)),
            Operand::Constant(c) => format!("{{\"o\":\"const\",\"c\":{}}}", self.constant(owner, c)),
            _ => "{\"o\":\"rt\"}".into(),
        }
    }

    fn rvalue(&mut self, owner: DefId, body: &Body<'tcx>, r: &Rvalue<'tcx>) -> String {
        match r {
            Rvalue::Use(o, _) => format!("{{\"r\":\"use\",\"a\":{}}}", self.operand(owner, body, o)),
            Rvalue::Repeat(o, n) => {
                let n = n.try_to_target_usize(self.tcx).map(|n| n.to_string()).unwrap_or("null".into());
                format!("{{\"r\":\"repeat\",\"a\":{},\"n\":{n}}}", self.operand(owner, body, o))
            }
            Rvalue::Ref(_, k, p) => format!(
                "{{\"r\":\"ref\",\"mut\":{},\"p\":{}}}",
                matches!(k, mir::BorrowKind::Mut { .. }),
                self.place(body, *p)
            ),
            Rvalue::RawPtr(_, p) => {
                format!("{{\"r\":\"ref\",\"mut\":true,\"raw\":true,\"p\":{}}}", self.place(body, *p))
            }
            Rvalue::Reborrow(_, _, p) => {
                format!("{{\"r\":\"ref\",\"mut\":true,\"p\":{}}}", self.place(body, *p))
            }
            Rvalue::Cast(k, o, t) => {
                let from = o.ty(&body.local_decls, self.tcx);
                format!(
                    "{{\"r\":\"cast\",\"kind\":{},\"a\":{},\"from\":{},\"ty\":{}}}",
                    js(&format!("{k:?}")),
                    self.operand(owner, body, o),
                    js(&self.ty(from)),
                    js(&self.ty(*t))
                )
            }
            Rvalue::BinaryOp(op, ab) => {
                let t = ab.0.ty(&body.local_decls, self.tcx);
                format!(
                    "{{\"r\":\"bin\",\"op\":{},\"a\":{},\"b\":{},\"ty\":{}}}",
                    js(&format!("{op:?}")),
                    self.operand(owner, body, &ab.0),
                    self.operand(owner, body, &ab.1),
                    js(&self.ty(t))
                )
            }
            Rvalue::UnaryOp(op, a) => format!(
                "{{\"r\":\"un\",\"op\":{},\"a\":{}}}",
                js(&format!("{op:?}")),
                self.operand(owner, body, a)
            ),
            Rvalue::Discriminant(p) => {
                let t = p.ty(&body.local_decls, self.tcx).ty;
                let adt = match *t.kind() {
                    ty::Adt(d, _) => js(&self.path(d.did())),
                    _ => "null".into(),
                };
                let _ = self.ty(t);
                format!("{{\"r\":\"discr\",\"p\":{},\"adt\":{adt}}}", self.place(body, *p))
            }
            Rvalue::Aggregate(k, ops) => {
                let args = arr(ops.iter().map(|o| self.operand(owner, body, o)).collect::<Vec<_>>());
                match &**k {
                    AggregateKind::Array(_) => format!("{{\"r\":\"agg\",\"k\":\"array\",\"a\":{args}}}"),
                    AggregateKind::Tuple => format!("{{\"r\":\"agg\",\"k\":\"tuple\",\"a\":{args}}}"),
                    AggregateKind::Adt(d, v, ga, _, _) => {
                        let t = self.tcx.type_of(*d).instantiate(self.tcx, ga).skip_norm_wip();
                        self.note(t);
                        let def = self.tcx.adt_def(*d);
                        let var = def.variant(*v);
                        let names = arr(var.fields.iter().map(|f| js(f.name.as_str())));
                        format!(
                            "{{\"r\":\"agg\",\"k\":\"adt\",\"adt\":{},\"v\":{},\"names\":{names},\"a\":{args}}}",
                            js(&self.path(*d)),
                            js(var.name.as_str())
                        )
                    }
                    AggregateKind::Closure(d, _) => {
                        format!("{{\"r\":\"agg\",\"k\":\"closure\",\"def\":{},\"a\":{args}}}", js(&self.path(*d)))
                    }
                    _ => format!("{{\"r\":\"agg\",\"k\":\"other\",\"a\":{args}}}"),
                }
            }
            Rvalue::CopyForDeref(p) => {
                format!("{{\"r\":\"use\",\"a\":{{\"o\":\"copy\",\"p\":{}}}}}", self.place(body, *p))
            }
            _ => "{\"r\":\"other\"}".into(),
        }
    }

    fn body(&mut self, owner: DefId, body: &Body<'tcx>) -> String {
        let mut names: BTreeMap<usize, String> = BTreeMap::new();
        for v in &body.var_debug_info {
            if let mir::VarDebugInfoContents::Place(p) = v.value {
                if p.projection.is_empty() {
                    names.entry(p.local.as_usize()).or_insert(v.name.to_string());
                }
            }
        }
        let mut locals = vec![];
        for (l, d) in body.local_decls.iter_enumerated() {
            let n = names.get(&l.as_usize()).map(|s| js(s)).unwrap_or("null".into());
            locals.push(format!("[{},{}]", js(&self.ty(d.ty)), n));
        }
        let mut blocks = vec![];
        for bb in body.basic_blocks.iter() {
            let mut st = vec![];
            for s in &bb.statements {
                match &s.kind {
                    StatementKind::Assign(b) => {
                        let (p, r) = &**b;
                        st.push(format!(
                            "[{},{},{}]",
                            self.place(body, *p),
                            self.rvalue(owner, body, r),
                            self.span(s.source_info.span)
                        ));
                    }
                    StatementKind::SetDiscriminant { place, variant_index } => {
                        let t = place.ty(&body.local_decls, self.tcx).ty;
                        let v = match *t.kind() {
                            ty::Adt(d, _) => d.variant(*variant_index).name.to_string(),
                            _ => variant_index.as_usize().to_string(),
                        };
                        st.push(format!(
                            "[{},{{\"r\":\"setdiscr\",\"v\":{}}},{}]",
                            self.place(body, **place),
                            js(&v),
                            self.span(s.source_info.span)
                        ));
                    }
                    _ => {}
                }
            }
            let term = bb.terminator();
            let sp = self.span(term.source_info.span);
            let t = match &term.kind {
                TerminatorKind::Goto { target, .. } => format!("{{\"t\":\"goto\",\"to\":{}}}", target.as_usize()),
                TerminatorKind::SwitchInt { discr, targets } => {
                    let t = discr.ty(&body.local_decls, self.tcx);
                    let vals = arr(targets.iter().map(|(v, b)| {
                        let v = match t.kind() {
                            ty::Int(_) => {
                                let size = 8 * t.primitive_size(self.tcx).bytes();
                                let sh = 128 - size;
                                ((((v << sh) as i128) >> sh)).to_string()
                            }
                            _ => v.to_string(),
                        };
                        format!("[\"{}\",{}]", v, b.as_usize())
                    }));
                    format!(
                        "{{\"t\":\"switch\",\"d\":{},\"ty\":{},\"vals\":{},\"else\":{}}}",
                        self.operand(owner, body, discr),
                        js(&self.ty(t)),
                        vals,
                        targets.otherwise().as_usize()
                    )
                }
                TerminatorKind::Return => "{\"t\":\"return\"}".into(),
                TerminatorKind::Unreachable => "{\"t\":\"unreachable\"}".into(),
                TerminatorKind::Drop { place, target, .. } => {
                    let ty = place.ty(&body.local_decls, self.tcx).ty;
                    format!("{{\"t\":\"drop\",\"p\":{},\"ty\":{},\"to\":{}}}", self.place(body, *place), js(&self.ty(ty)), target.as_usize())
                }
                TerminatorKind::Call { func, args, destination, target, .. } => {
                    let a = arr(args.iter().map(|a| self.operand(owner, body, &a.node)).collect::<Vec<_>>());
                    let at = arr(args.iter().map(|a| { let t = a.node.ty(&body.local_decls, self.tcx); js(&self.ty(t)) }).collect::<Vec<_>>());
                    let dt = destination.ty(&body.local_decls, self.tcx).ty;
                    format!(
                        "{{\"t\":\"call\",\"f\":{},\"a\":{a},\"at\":{at},\"d\":{},\"dty\":{},\"to\":{}}}",
                        self.operand(owner, body, func),
                        self.place(body, *destination),
                        js(&self.ty(dt)),
                        target.map(|t| t.as_usize().to_string()).unwrap_or("null".into())
                    )
                }
                TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                    let kind = match &**msg {
                        mir::AssertKind::BoundsCheck { .. } => "bounds",
                        mir::AssertKind::Overflow(..) => "overflow",
                        mir::AssertKind::OverflowNeg(..) => "overflow_neg",
                        mir::AssertKind::DivisionByZero(..) => "div_zero",
                        mir::AssertKind::RemainderByZero(..) => "rem_zero",
                        _ => "other",
                    };
                    let ops = match &**msg {
                        mir::AssertKind::BoundsCheck { len, index } => {
                            arr([self.operand(owner, body, len), self.operand(owner, body, index)])
                        }
                        mir::AssertKind::Overflow(_, a, b) => {
                            arr([self.operand(owner, body, a), self.operand(owner, body, b)])
                        }
                        _ => "[]".into(),
                    };
                    let op = match &**msg {
                        mir::AssertKind::Overflow(op, ..) => format!("{op:?}"),
                        _ => String::new(),
                    };
                    format!(
                        "{{\"t\":\"assert\",\"c\":{},\"exp\":{},\"kind\":{},\"op\":{},\"ops\":{ops},\"to\":{}}}",
                        self.operand(owner, body, cond),
                        expected,
                        js(kind),
                        js(&op),
                        target.as_usize()
                    )
                }
                TerminatorKind::FalseEdge { real_target, .. } => {
                    format!("{{\"t\":\"goto\",\"to\":{}}}", real_target.as_usize())
                }
                TerminatorKind::FalseUnwind { real_target, .. } => {
                    format!("{{\"t\":\"goto\",\"to\":{}}}", real_target.as_usize())
                }
                TerminatorKind::UnwindResume | TerminatorKind::UnwindTerminate(_) => "{\"t\":\"resume\"}".into(),
                _ => "{\"t\":\"other\"}".into(),
            };
            blocks.push(format!(
                "{{\"cleanup\":{},\"s\":{},\"t\":{},\"sp\":{}}}",
                bb.is_cleanup,
                arr(st),
                t,
                sp
            ));
        }
        format!(
            "{{\"args\":{},\"locals\":{},\"blocks\":{},\"span\":{}}}",
            body.arg_count,
            arr(locals),
            arr(blocks),
            self.span(body.span)
        )
    }
}

struct Dump {
    out: String,
    nonce: String,
}

impl Callbacks for Dump {
    fn after_analysis<'tcx>(&mut self, _c: &interface::Compiler, tcx: TyCtxt<'tcx>) -> Compilation {
        let root = std::env::var("MIRFACTS_ROOT").unwrap_or_default();
        let mut cx = Cx { tcx, adts: BTreeMap::new(), root };
        let mut fns: BTreeMap<String, String> = BTreeMap::new();
        let mut skipped = 0usize;
        let mut consts = vec![];
        for def in tcx.hir_body_owners() {
            let did = def.to_def_id();
            let kind = tcx.def_kind(did);
            let p = cx.path(did);
            if p.contains("::rules::") || p.contains("CssParser") || p.contains("HtmlParser") {
                skipped += 1;
                continue;
            }
            match kind {
                DefKind::Fn | DefKind::AssocFn | DefKind::Closure => {
                    let body = tcx.optimized_mir(did);
                    let b = cx.body(did, body);
                    let pr = arr(tcx.promoted_mir(did).iter().map(|pb| cx.body(did, pb)).collect::<Vec<_>>());
                    let k = if matches!(kind, DefKind::Closure) { "closure" } else { "fn" };
                    let parent = if matches!(kind, DefKind::Closure) {
                        js(&cx.path(tcx.typeck_root_def_id(did)))
                    } else {
                        "null".into()
                    };
                    let (unsafe_fn, tr, imp, self_ty) = if matches!(kind, DefKind::Fn | DefKind::AssocFn) {
                        let sig = tcx.fn_sig(did).instantiate_identity().skip_norm_wip();
                        let imp = tcx.impl_of_assoc(did);
                        let tr = imp.and_then(|i| tcx.impl_opt_trait_ref(i)).map(|t| {
                            let t = t.instantiate_identity().skip_norm_wip();
                            js(&cx.path(t.def_id))
                        });
                        let st = imp.map(|i| {
                            let t = tcx.type_of(i).instantiate_identity().skip_norm_wip();
                            js(&cx.ty(t))
                        });
                        (
                            sig.safety().is_unsafe(),
                            tr.unwrap_or("null".into()),
                            imp.is_some(),
                            st.unwrap_or("null".into()),
                        )
                    } else {
                        (false, "null".into(), false, "null".into())
                    };
                    let vis = if matches!(kind, DefKind::Closure) {
                        false
                    } else {
                        tcx.effective_visibilities(()).is_reachable(def)
                    };
                    let derived = {
                        let s = tcx.def_span(did);
                        s.from_expansion()
                    };
                    let name = tcx.opt_item_name(did).map(|s| s.to_string()).unwrap_or_default();
                    // names of the type parameters, in the order of `args.types()`
                    let tps = if matches!(kind, DefKind::Fn | DefKind::AssocFn) {
                        let args = ty::GenericArgs::identity_for_item(tcx, did);
                        arr(args.types().map(|t| js(&cx.ty(t))).collect::<Vec<_>>())
                    } else {
                        "[]".into()
                    };
                    let exist = fns.insert(
                        p.clone(),
                        format!(
                            "{{\"kind\":{},\"name\":{},\"parent\":{},\"unsafe\":{},\"trait\":{},\"impl\":{},\"self\":{},\"reachable\":{},\"expn\":{},\"tps\":{tps},\"body\":{},\"promoted\":{}}}",
                            js(k), js(&name), parent, unsafe_fn, tr, imp, self_ty, vis, derived, b, pr
                        ),
                    );
                    if exist.is_some() {
                        consts.push(js(&format!("DUP {p}")));
                    }
                }
                DefKind::Const { .. } | DefKind::AssocConst { .. } | DefKind::Static { .. } => {
                    consts.push(js(&p));
                }
                _ => {}
            }
        }
        // unsafe blocks
        let mut s = String::new();
        s.push_str("{\"nonce\":");
        s.push_str(&js(&self.nonce));
        let _ = write!(s, ",\"skipped\":{skipped},\"consts\":{}", arr(consts));
        s.push_str(",\"fns\":{");
        let mut first = true;
        for (k, v) in &fns {
            if !first {
                s.push(',');
            }
            first = false;
            s.push_str(&js(k));
            s.push(':');
            s.push_str(v);
            s.push('\n');
        }
        s.push_str("},\"adts\":{");
        let mut first = true;
        for (k, v) in &cx.adts {
            if v.is_empty() {
                continue;
            }
            if !first {
                s.push(',');
            }
            first = false;
            s.push_str(&js(k));
            s.push(':');
            s.push_str(v);
            s.push('\n');
        }
        s.push_str("}}");
        let tmp = format!("{}.tmp.{}", self.out, std::process::id());
        std::fs::write(&tmp, s).expect("write facts");
        std::fs::rename(&tmp, &self.out).expect("rename facts");
        Compilation::Continue
    }
}

struct Plain;
impl Callbacks for Plain {}

fn main() {
    let mut args: Vec<String> = std::env::args().collect();
    // RUSTC_WORKSPACE_WRAPPER: argv[1] is the path of rustc
    if args.len() > 1 && (args[1].ends_with("rustc") || args[1].contains("/rustc")) {
        args.remove(1);
    }
    let target = std::env::var("MIRFACTS_CRATE").unwrap_or_default();
    let is_target = args.windows(2).any(|w| w[0] == "--crate-name" && w[1] == target);
    let out = std::env::var("MIRFACTS_OUT").unwrap_or_default();
    let nonce = std::env::var("MIRFACTS_NONCE").unwrap_or_default();
    if is_target && !out.is_empty() {
        args.push("-Zmir-opt-level=0".into());
        args.push("-Zalways-encode-mir".into());
        rustc_driver::compiler_entrypoint(&args, &mut Dump { out, nonce });
    } else {
        rustc_driver::compiler_entrypoint(&args, &mut Plain);
    }
}

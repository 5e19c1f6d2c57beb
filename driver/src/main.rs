//! mirfacts: a rustc driver that dumps the monomorphised MIR of the crate being compiled as JSON
//! facts (one file per crate) for the static rules in /verif/lib. Nothing of the crate is executed.
//!
//! Used as RUSTC_WORKSPACE_WRAPPER. Environment:
//!   MIRFACTS_OUT   directory that receives <crate>.json (no output when unset)
#![feature(rustc_private)]

extern crate rustc_abi;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_span;

use rustc_driver::Compilation;
use rustc_hir::def::DefKind;
use rustc_middle::mir::interpret::{GlobalAlloc, Scalar};
use rustc_middle::mir::{self, *};
use rustc_middle::ty::print::with_no_trimmed_paths;
use rustc_middle::ty::{self, EarlyBinder, Instance, InstanceKind, ShimKind, Ty, TyCtxt, TypingEnv};
use rustc_span::def_id::{DefId, LOCAL_CRATE};
use std::collections::{HashMap, HashSet, VecDeque};
use std::fmt::Write as _;

fn esc(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn hexs(b: &[u8]) -> String {
    let mut o = String::from("\"");
    for x in b {
        let _ = write!(o, "{:02x}", x);
    }
    o.push('"');
    o
}

struct Cx<'tcx> {
    tcx: TyCtxt<'tcx>,
    env: TypingEnv<'tcx>,
    types: Vec<(Ty<'tcx>, String)>,
    tyidx: HashMap<Ty<'tcx>, usize>,
    typending: VecDeque<usize>,
    queue: VecDeque<Instance<'tcx>>,
    seen: HashSet<Instance<'tcx>>,
    bodies: Vec<String>,
    constq: VecDeque<(String, DefId, ty::GenericArgsRef<'tcx>, Option<Promoted>)>,
    constseen: HashSet<String>,
}

fn wants_foreign_body(path: &str) -> bool {
    let p = path.trim_start_matches('<');
    p.contains("option::Option") || p.contains("result::Result") || p.contains("ops::ControlFlow")
        || p.contains("ops::control_flow::ControlFlow")
        || p.contains("std::iter::") || p.contains("core::iter::") || p.contains("slice::Iter")
        || p.contains("slice::iter::") || p.contains("core::bool::") || p.contains("convert::Into")
        || p.contains("convert::AsRef") || p.contains("convert::From<T>") || p.contains("convert::TryInto")
        || p.contains("cmp::PartialOrd") || p.contains("cmp::Ord::") || p.contains("std::array::")
}

impl<'tcx> Cx<'tcx> {
    fn ty(&mut self, t: Ty<'tcx>) -> usize {
        if let Some(i) = self.tyidx.get(&t) {
            return *i;
        }
        let i = self.types.len();
        self.tyidx.insert(t, i);
        self.types.push((t, String::new()));
        self.typending.push_back(i);
        i
    }

    fn flush_types(&mut self) {
        while let Some(i) = self.typending.pop_front() {
            let t = self.types[i].0;
            let s = with_no_trimmed_paths!(t.to_string());
            let mut o = format!("{{\"s\":{}", esc(&s));
            match t.kind() {
                ty::Bool => o.push_str(",\"k\":\"bool\""),
                ty::Char => o.push_str(",\"k\":\"char\""),
                ty::Int(_) => o.push_str(",\"k\":\"int\""),
                ty::Uint(_) => o.push_str(",\"k\":\"uint\""),
                ty::Float(_) => o.push_str(",\"k\":\"float\""),
                ty::Str => o.push_str(",\"k\":\"str\""),
                ty::Never => o.push_str(",\"k\":\"never\""),
                ty::Slice(e) => {
                    let e = self.ty(*e);
                    let _ = write!(o, ",\"k\":\"slice\",\"e\":{}", e);
                }
                ty::Array(e, n) => {
                    let e = self.ty(*e);
                    let n = n.try_to_target_usize(self.tcx).map(|x| x as i64).unwrap_or(-1);
                    let _ = write!(o, ",\"k\":\"array\",\"e\":{},\"n\":{}", e, n);
                }
                ty::Ref(_, e, m) => {
                    let e = self.ty(*e);
                    let _ = write!(o, ",\"k\":\"ref\",\"e\":{},\"mut\":{}", e, m.is_mut());
                }
                ty::RawPtr(e, m) => {
                    let e = self.ty(*e);
                    let _ = write!(o, ",\"k\":\"ptr\",\"e\":{},\"mut\":{}", e, m.is_mut());
                }
                ty::Tuple(es) => {
                    let v: Vec<String> = es.iter().map(|e| self.ty(e).to_string()).collect();
                    let _ = write!(o, ",\"k\":\"tuple\",\"es\":[{}]", v.join(","));
                }
                ty::FnDef(d, fargs) => {
                    let p = with_no_trimmed_paths!(self.tcx.def_path_str(*d));
                    let _ = write!(o, ",\"k\":\"fndef\",\"path\":{}", esc(&p));
                    if let Some(fa) = fargs.no_bound_vars() {
                        let c = self.callee(*d, fa);
                        let _ = write!(o, ",\"fn\":{}", c);
                    }
                }
                ty::FnPtr(..) => o.push_str(",\"k\":\"fnptr\""),
                ty::Dynamic(..) => o.push_str(",\"k\":\"dyn\""),
                ty::Closure(d, args) => {
                    let p = with_no_trimmed_paths!(self.tcx.def_path_str(*d));
                    let ups: Vec<String> =
                        args.as_closure().upvar_tys().iter().map(|e| self.ty(e).to_string()).collect();
                    let _ = write!(o, ",\"k\":\"closure\",\"path\":{},\"ups\":[{}]", esc(&p), ups.join(","));
                    let inst = Instance { def: InstanceKind::Item(*d), args };
                    let key = self.inst_key(inst);
                    self.enqueue(inst);
                    let _ = write!(o, ",\"key\":{}", esc(&key));
                }
                ty::Adt(def, args) => {
                    let p = with_no_trimmed_paths!(self.tcx.def_path_str(def.did()));
                    let targs: Vec<String> = args.types().map(|e| self.ty(e).to_string()).collect();
                    let _ = write!(
                        o,
                        ",\"k\":\"adt\",\"path\":{},\"enum\":{},\"local\":{},\"args\":[{}]",
                        esc(&p),
                        def.is_enum(),
                        def.did().is_local(),
                        targs.join(",")
                    );
                    let detail = def.did().is_local()
                        || def.is_enum()
                        || self.tcx.crate_name(def.did().krate).as_str() == "quick_xml";
                    if detail && !def.is_union() {
                        let mut vs = Vec::new();
                        for (vi, v) in def.variants().iter_enumerated() {
                            let discr = if def.is_enum() {
                                def.discriminant_for_variant(self.tcx, vi).val.to_string()
                            } else {
                                "0".to_string()
                            };
                            let mut fs = Vec::new();
                            for f in v.fields.iter() {
                                let fty = f.ty(self.tcx, args);
                                let fty = self.tcx.normalize_erasing_regions(self.env, fty);
                                let fi = self.ty(fty);
                                fs.push(format!("[{},{}]", esc(f.name.as_str()), fi));
                            }
                            vs.push(format!(
                                "{{\"n\":{},\"d\":{},\"f\":[{}]}}",
                                esc(v.name.as_str()),
                                discr,
                                fs.join(",")
                            ));
                        }
                        let _ = write!(o, ",\"vs\":[{}]", vs.join(","));
                    }
                }
                _ => o.push_str(",\"k\":\"other\""),
            }
            o.push('}');
            self.types[i].1 = o;
        }
    }

    fn inst_key(&self, inst: Instance<'tcx>) -> String {
        let base = with_no_trimmed_paths!(self.tcx.def_path_str_with_args(inst.def_id(), inst.args));
        match inst.def {
            InstanceKind::Item(d) => {
                if self.tcx.is_closure_like(d) {
                    // generics of the parent are part of the closure's identity
                    format!("{}@{:?}", base, self.tcx.def_path_hash(d).local_hash())
                } else {
                    base
                }
            }
            InstanceKind::Intrinsic(_) | InstanceKind::LlvmIntrinsic(_) => base,
            InstanceKind::Virtual(..) => format!("dyn {}", base),
            InstanceKind::Shim(s) => match s {
                ShimKind::ClosureOnce { .. } => format!("shim-once {} {:?}", base, inst.args),
                ShimKind::DropGlue(_, t) => format!("drop {:?}", t),
                ShimKind::Clone(_, t) => with_no_trimmed_paths!(format!("<{} as std::clone::Clone>::clone", t)),
                _ => format!("shim {} {:?}", base, inst.args),
            },
        }
    }

    fn callee(&mut self, did: DefId, args: ty::GenericArgsRef<'tcx>) -> String {
        let tcx = self.tcx;
        let path = with_no_trimmed_paths!(tcx.def_path_str(did));
        let mut o = format!("{{\"path\":{}", esc(&path));
        if let Some(tr) = tcx.trait_of_assoc(did) {
            let _ = write!(o, ",\"trait\":{}", esc(&with_no_trimmed_paths!(tcx.def_path_str(tr))));
            if let Some(t0) = args.types().next() {
                let i = self.ty(t0);
                let _ = write!(o, ",\"self\":{}", i);
            }
        }
        let targs: Vec<String> = args.types().map(|t| self.ty(t).to_string()).collect();
        let _ = write!(o, ",\"targs\":[{}]", targs.join(","));
        if matches!(tcx.def_kind(did), DefKind::Ctor(..)) {
            let ctor_parent = tcx.parent(did);
            let _ = write!(o, ",\"ctor\":{}", esc(&with_no_trimmed_paths!(tcx.def_path_str(ctor_parent))));
            o.push('}');
            return o;
        }
        if let Ok(Some(inst)) = Instance::try_resolve(tcx, self.env, did, args) {
            let rp = with_no_trimmed_paths!(tcx.def_path_str(inst.def_id()));
            let key = self.inst_key(inst);
            let kind = match inst.def {
                InstanceKind::Item(_) => "item",
                InstanceKind::Intrinsic(_) | InstanceKind::LlvmIntrinsic(_) => "intrinsic",
                InstanceKind::Virtual(..) => "virtual",
                InstanceKind::Shim(ShimKind::ClosureOnce { .. }) => "closureonce",
                InstanceKind::Shim(ShimKind::FnPtr(..)) => "fnptr",
                InstanceKind::Shim(ShimKind::Clone(..)) => "clone",
                InstanceKind::Shim(_) => "shim",
            };
            let _ = write!(
                o,
                ",\"rpath\":{},\"key\":{},\"kind\":\"{}\",\"crate\":{}",
                esc(&rp),
                esc(&key),
                kind,
                esc(tcx.crate_name(inst.def_id().krate).as_str())
            );
            if let InstanceKind::Item(d) = inst.def {
                if tcx.is_closure_like(d) {
                    o.push_str(",\"closure\":true");
                }
            }
            if let InstanceKind::Shim(ShimKind::ClosureOnce { closure, .. }) = inst.def {
                // the closure body itself
                if let ty::Closure(cd, cargs) = inst.args.type_at(0).kind() {
                    let ci = Instance { def: InstanceKind::Item(*cd), args: cargs };
                    let _ = closure;
                    let ck = self.inst_key(ci);
                    let _ = write!(o, ",\"ckey\":{}", esc(&ck));
                    self.enqueue(ci);
                }
            }
            self.enqueue(inst);
        }
        // consumers of iterators: the `next` they will drive
        let path0 = with_no_trimmed_paths!(tcx.def_path_str(did));
        if path0.contains("Argument::") || path0.contains("ToString::to_string") {
            let sym = if path0.contains("new_debug") { rustc_span::sym::Debug } else { rustc_span::sym::Display };
            let dt = if sym == rustc_span::sym::Debug {
                tcx.get_diagnostic_item(sym)
            } else {
                tcx.get_diagnostic_item(sym).or_else(|| tcx.lang_items().iter().find(|_| false).map(|x| x.1))
            };
            if let (Some(dt), Some(t)) = (dt, args.types().next()) {
                let t = t.peel_refs();
                let f = tcx.associated_items(dt).in_definition_order().find(|i| i.is_fn()).map(|i| i.def_id);
                if let (Some(f), ty::Adt(def, _)) = (f, t.kind()) {
                    if def.did().is_local() {
                        if let Ok(Some(fi)) = Instance::try_resolve(tcx, self.env, f, tcx.mk_args(&[t.into()])) {
                            let k = self.inst_key(fi);
                            self.enqueue(fi);
                            let _ = write!(o, ",\"disp\":{}", esc(&k));
                        }
                    }
                }
            }
        }
        if path0.contains("Iterator::") || path0.contains("Extend::") || path0.contains("FromIterator::") {
            if let Some(it) = tcx.get_diagnostic_item(rustc_span::sym::Iterator) {
                let next = tcx.associated_items(it).in_definition_order().find(|i| i.is_fn()).map(|i| i.def_id);
                if let Some(next) = next {
                    let mut v = Vec::new();
                    for (n, t) in args.types().enumerate() {
                        if !matches!(t.kind(), ty::Adt(..)) {
                            continue;
                        }
                        let a = tcx.mk_args(&[t.into()]);
                        if let Ok(Some(ni)) = Instance::try_resolve(tcx, self.env, next, a) {
                            let k = self.inst_key(ni);
                            self.enqueue(ni);
                            v.push(format!("[{},{}]", n, esc(&k)));
                        }
                    }
                    let _ = write!(o, ",\"nexts\":[{}]", v.join(","));
                }
            }
        }
        o.push('}');
        o
    }

    fn enqueue(&mut self, inst: Instance<'tcx>) {
        let InstanceKind::Item(d) = inst.def else { return };
        if self.seen.contains(&inst) {
            return;
        }
        let local = d.is_local();
        if !local {
            let p = with_no_trimmed_paths!(self.tcx.def_path_str(d));
            let closure_in = self.tcx.is_closure_like(d);
            let krate = self.tcx.crate_name(d.krate);
            if !(krate.as_str() == "core") {
                return;
            }
            if !(wants_foreign_body(&p) || closure_in) {
                return;
            }
        }
        if !matches!(
            self.tcx.def_kind(d),
            DefKind::Fn | DefKind::AssocFn | DefKind::Closure
        ) {
            return;
        }
        if !self.tcx.is_mir_available(d) {
            return;
        }
        self.seen.insert(inst);
        self.queue.push_back(inst);
    }

    fn place(&mut self, body: &Body<'tcx>, p: &Place<'tcx>) -> String {
        let mut o = format!("[{}", p.local.as_usize());
        let mut pty = mir::PlaceTy::from_ty(body.local_decls[p.local].ty);
        for e in p.projection.iter() {
            match e {
                ProjectionElem::Deref => o.push_str(",[\"*\"]"),
                ProjectionElem::Field(f, _) => {
                    let mut name = f.as_usize().to_string();
                    let mut owner = String::new();
                    if let ty::Adt(def, _) = pty.ty.kind() {
                        let vi = pty.variant_index.unwrap_or(rustc_abi::FIRST_VARIANT);
                        if !def.is_union() {
                            name = def.variant(vi).fields[f].name.to_string();
                        }
                        owner = with_no_trimmed_paths!(self.tcx.def_path_str(def.did()));
                        if def.is_enum() {
                            owner = format!("{}::{}", owner, def.variant(vi).name);
                        }
                    }
                    let _ = write!(o, ",[\".\",{},{},{}]", f.as_usize(), esc(&name), esc(&owner));
                }
                ProjectionElem::Downcast(_, v) => {
                    let _ = write!(o, ",[\"v\",{}]", v.as_usize());
                }
                ProjectionElem::Index(l) => {
                    let _ = write!(o, ",[\"[]\",{}]", l.as_usize());
                }
                ProjectionElem::ConstantIndex { offset, from_end, .. } => {
                    let _ = write!(o, ",[\"[c]\",{},{}]", offset, from_end);
                }
                ProjectionElem::Subslice { from, to, from_end } => {
                    let _ = write!(o, ",[\"[s]\",{},{},{}]", from, to, from_end);
                }
                _ => o.push_str(",[\"?\"]"),
            }
            pty = pty.projection_ty(self.tcx, e);
        }
        o.push(']');
        o
    }

    fn alloc_bytes(&self, id: mir::interpret::AllocId, off: u64, len: u64) -> Option<Vec<u8>> {
        match self.tcx.try_get_global_alloc(id)? {
            GlobalAlloc::Memory(a) => {
                let a = a.inner();
                let r = off as usize..(off + len) as usize;
                if r.end > a.len() {
                    return None;
                }
                Some(a.inspect_with_uninit_and_ptr_outside_interpreter(r).to_vec())
            }
            _ => None,
        }
    }

    fn constant(&mut self, c: &ConstOperand<'tcx>) -> String {
        let tcx = self.tcx;
        let t = c.const_.ty();
        let ti = self.ty(t);
        if let ty::FnDef(d, args) = t.kind() {
            let cl = self.callee(*d, args.no_bound_vars().unwrap());
            return format!("{{\"c\":\"fn\",\"ty\":{},\"fn\":{}}}", ti, cl);
        }
        if let Const::Unevaluated(u, _) = c.const_ {
            let key = with_no_trimmed_paths!(tcx.def_path_str_with_args(u.def, u.args));
            let key = match u.promoted {
                Some(p) => format!("{}::promoted[{}]", key, p.as_usize()),
                None => key,
            };
            let scalarish = matches!(t.kind(), ty::Bool | ty::Char | ty::Int(_) | ty::Uint(_));
            if scalarish {
                if let Some(s) = c.const_.try_eval_scalar_int(tcx, self.env) {
                    return format!(
                        "{{\"c\":\"int\",\"ty\":{},\"v\":{},\"name\":{}}}",
                        ti,
                        s.to_bits_unchecked(),
                        esc(&key)
                    );
                }
            }
            let is_local_body = u.def.is_local() || u.promoted.is_some();
            if is_local_body {
                if self.constseen.insert(key.clone()) {
                    self.constq.push_back((key.clone(), u.def, u.args, u.promoted));
                }
                return format!("{{\"c\":\"body\",\"ty\":{},\"key\":{}}}", ti, esc(&key));
            }
            return format!("{{\"c\":\"named\",\"ty\":{},\"name\":{}}}", ti, esc(&key));
        }
        if let Const::Val(v, _) = c.const_ {
            match v {
                ConstValue::ZeroSized => return format!("{{\"c\":\"zst\",\"ty\":{}}}", ti),
                ConstValue::Slice { alloc_id, meta } => {
                    if let Some(b) = self.alloc_bytes(alloc_id, 0, meta) {
                        if let ty::Ref(_, e, _) = t.kind() {
                            if e.is_str() {
                                return format!(
                                    "{{\"c\":\"str\",\"ty\":{},\"v\":{}}}",
                                    ti,
                                    esc(&String::from_utf8_lossy(&b))
                                );
                            }
                        }
                        return format!("{{\"c\":\"bytes\",\"ty\":{},\"v\":{}}}", ti, hexs(&b));
                    }
                }
                ConstValue::Scalar(Scalar::Int(i)) => {
                    return format!("{{\"c\":\"int\",\"ty\":{},\"v\":{}}}", ti, i.to_bits_unchecked());
                }
                ConstValue::Scalar(Scalar::Ptr(p, _)) => {
                    let (prov, off) = p.prov_and_relative_offset();
                    if let Some(GlobalAlloc::Static(sd)) = tcx.try_get_global_alloc(prov.alloc_id()) {
                        if off.bytes() == 0 {
                            let key = format!("static {}", with_no_trimmed_paths!(tcx.def_path_str(sd)));
                            if sd.is_local() && self.constseen.insert(key.clone()) {
                                self.constq.push_back((key.clone(), sd, ty::GenericArgs::empty(), None));
                            }
                            return format!("{{\"c\":\"static\",\"ty\":{},\"key\":{}}}", ti, esc(&key));
                        }
                    }
                    if let ty::Ref(_, e, _) = t.kind() {
                        if let ty::Array(el, n) = e.kind() {
                            if matches!(el.kind(), ty::Uint(ty::UintTy::U8)) {
                                if let Some(n) = n.try_to_target_usize(tcx) {
                                    let (prov, off) = p.prov_and_relative_offset();
                                    if let Some(b) = self.alloc_bytes(prov.alloc_id(), off.bytes(), n) {
                                        return format!("{{\"c\":\"bytes\",\"ty\":{},\"v\":{}}}", ti, hexs(&b));
                                    }
                                }
                            }
                        }
                    }
                }
                _ => {}
            }
        }
        if let Some(s) = c.const_.try_eval_scalar_int(tcx, self.env) {
            return format!("{{\"c\":\"int\",\"ty\":{},\"v\":{}}}", ti, s.to_bits_unchecked());
        }
        if let Const::Ty(_, ct) = c.const_ {
            if let Some(v) = ct.try_to_value() {
                let mut e = v.ty;
                while let ty::Ref(_, i, _) = e.kind() {
                    e = *i;
                }
                if e.is_str() {
                    if let Some(bs) = v.try_to_branch() {
                        let mut out = Vec::new();
                        for b in bs.iter() {
                            if let Some(l) = b.try_to_leaf() {
                                out.push(l.to_u8());
                            }
                        }
                        return format!(
                            "{{\"c\":\"str\",\"ty\":{},\"v\":{}}}",
                            ti,
                            esc(&String::from_utf8_lossy(&out))
                        );
                    }
                }
            }
        }
        format!(
            "{{\"c\":\"opaque\",\"ty\":{},\"s\":{}}}",
            ti,
            esc(&with_no_trimmed_paths!(format!("{}", c.const_)))
        )
    }

    fn operand(&mut self, body: &Body<'tcx>, op: &Operand<'tcx>) -> String {
        match op {
            Operand::Copy(p) => format!("{{\"o\":\"copy\",\"p\":{}}}", self.place(body, p)),
            Operand::Move(p) => format!("{{\"o\":\"move\",\"p\":{}}}", self.place(body, p)),
            Operand::Constant(c) => format!("{{\"o\":\"const\",\"c\":{}}}", self.constant(c)),
            #[allow(unreachable_patterns)]
            _ => "{\"o\":\"rt\"}".to_string(),
        }
    }

    fn rvalue(&mut self, body: &Body<'tcx>, rv: &Rvalue<'tcx>) -> String {
        match rv {
            Rvalue::Use(op, ..) => format!("{{\"r\":\"use\",\"a\":{}}}", self.operand(body, op)),
            Rvalue::Repeat(op, n) => format!(
                "{{\"r\":\"repeat\",\"a\":{},\"n\":{}}}",
                self.operand(body, op),
                n.try_to_target_usize(self.tcx).map(|x| x as i64).unwrap_or(-1)
            ),
            Rvalue::Ref(_, bk, p) => {
                let m = matches!(bk, BorrowKind::Mut { .. });
                format!("{{\"r\":\"ref\",\"mut\":{},\"p\":{}}}", m, self.place(body, p))
            }
            Rvalue::RawPtr(k, p) => {
                let m = format!("{:?}", k).contains("Mut");
                format!("{{\"r\":\"ref\",\"raw\":true,\"mut\":{},\"p\":{}}}", m, self.place(body, p))
            }
            Rvalue::Cast(k, op, t) => {
                let ti = self.ty(*t);
                format!(
                    "{{\"r\":\"cast\",\"k\":{},\"a\":{},\"ty\":{}}}",
                    esc(&format!("{:?}", k)),
                    self.operand(body, op),
                    ti
                )
            }
            Rvalue::BinaryOp(b, ops) => format!(
                "{{\"r\":\"bin\",\"op\":\"{:?}\",\"a\":{},\"b\":{}}}",
                b,
                self.operand(body, &ops.0),
                self.operand(body, &ops.1)
            ),
            Rvalue::UnaryOp(u, op) => {
                format!("{{\"r\":\"un\",\"op\":\"{:?}\",\"a\":{}}}", u, self.operand(body, op))
            }
            Rvalue::Discriminant(p) => {
                let t = p.ty(&body.local_decls, self.tcx).ty;
                let ti = self.ty(t);
                format!("{{\"r\":\"discr\",\"p\":{},\"ty\":{}}}", self.place(body, p), ti)
            }
            Rvalue::Aggregate(k, ops) => {
                let os: Vec<String> = ops.iter().map(|o| self.operand(body, o)).collect();
                let kk = match &**k {
                    AggregateKind::Array(_) => "\"k\":\"array\"".to_string(),
                    AggregateKind::Tuple => "\"k\":\"tuple\"".to_string(),
                    AggregateKind::Adt(d, vi, args, _, _) => {
                        let t = self.tcx.type_of(*d).instantiate(self.tcx, args).skip_norm_wip();
                        let t = self.tcx.normalize_erasing_regions(self.env, ty::Unnormalized::new_wip(t));
                        let ti = self.ty(t);
                        format!("\"k\":\"adt\",\"ty\":{},\"v\":{}", ti, vi.as_usize())
                    }
                    AggregateKind::Closure(d, args) => {
                        let inst = Instance { def: InstanceKind::Item(*d), args };
                        let key = self.inst_key(inst);
                        self.enqueue(inst);
                        format!("\"k\":\"closure\",\"key\":{}", esc(&key))
                    }
                    _ => "\"k\":\"other\"".to_string(),
                };
                format!("{{\"r\":\"agg\",{},\"ops\":[{}]}}", kk, os.join(","))
            }
            Rvalue::CopyForDeref(p) => {
                format!("{{\"r\":\"use\",\"a\":{{\"o\":\"copy\",\"p\":{}}}}}", self.place(body, p))
            }
            Rvalue::Reborrow(_, m, p) => {
                format!("{{\"r\":\"use\",\"a\":{{\"o\":\"copy\",\"p\":{}}},\"reborrow\":{}}}", self.place(body, p), m.is_mut())
            }
            other => format!("{{\"r\":\"other\",\"s\":{}}}", esc(&format!("{:?}", other))),
        }
    }

    fn body(&mut self, name: &str, rpath: &str, body: &Body<'tcx>, extra: &str) -> String {
        let mut o = format!("{{\"name\":{},\"path\":{}{}", esc(name), esc(rpath), extra);
        let sm = self.tcx.sess.source_map();
        let lo = sm.lookup_char_pos(body.span.lo());
        let _ = write!(
            o,
            ",\"file\":{},\"line\":{},\"argc\":{}",
            esc(&format!("{}", lo.file.name.prefer_local_unconditionally())),
            lo.line,
            body.arg_count
        );
        let ls: Vec<String> = body.local_decls.iter().map(|d| self.ty(d.ty).to_string()).collect();
        let _ = write!(o, ",\"locals\":[{}]", ls.join(","));
        let mut names = Vec::new();
        for vdi in &body.var_debug_info {
            if let VarDebugInfoContents::Place(p) = &vdi.value {
                if p.projection.is_empty() {
                    names.push(format!("[{},{}]", p.local.as_usize(), esc(vdi.name.as_str())));
                }
            }
        }
        let _ = write!(o, ",\"names\":[{}]", names.join(","));
        if let Some(s) = body.spread_arg {
            let _ = write!(o, ",\"spread\":{}", s.as_usize());
        }
        o.push_str(",\"blocks\":[");
        for (bi, bb) in body.basic_blocks.iter_enumerated() {
            if bi.as_usize() > 0 {
                o.push(',');
            }
            o.push_str("{\"s\":[");
            let mut first = true;
            for st in &bb.statements {
                let s = match &st.kind {
                    StatementKind::Assign(b) => {
                        let (p, rv) = &**b;
                        let ps = self.place(body, p);
                        let rs = self.rvalue(body, rv);
                        format!("{{\"t\":\"=\",\"p\":{},\"r\":{}}}", ps, rs)
                    }
                    StatementKind::SetDiscriminant { place, variant_index } => format!(
                        "{{\"t\":\"sd\",\"p\":{},\"v\":{}}}",
                        self.place(body, place),
                        variant_index.as_usize()
                    ),
                    StatementKind::StorageDead(l) => format!("{{\"t\":\"dead\",\"l\":{}}}", l.as_usize()),
                    _ => continue,
                };
                if !first {
                    o.push(',');
                }
                first = false;
                o.push_str(&s);
            }
            o.push_str("],\"t\":");
            let term = bb.terminator();
            let line = sm.lookup_char_pos(term.source_info.span.source_callsite().lo()).line;
            let exp = term.source_info.span.from_expansion();
            let ts = match &term.kind {
                TerminatorKind::Goto { target, .. } => format!("{{\"t\":\"goto\",\"to\":{}}}", target.as_usize()),
                TerminatorKind::FalseEdge { real_target, .. } => {
                    format!("{{\"t\":\"goto\",\"to\":{}}}", real_target.as_usize())
                }
                TerminatorKind::FalseUnwind { real_target, .. } => {
                    format!("{{\"t\":\"goto\",\"to\":{}}}", real_target.as_usize())
                }
                TerminatorKind::SwitchInt { discr, targets } => {
                    let dt = discr.ty(&body.local_decls, self.tcx);
                    let ti = self.ty(dt);
                    let d = self.operand(body, discr);
                    let vs: Vec<String> =
                        targets.iter().map(|(v, t)| format!("[{},{}]", v, t.as_usize())).collect();
                    format!(
                        "{{\"t\":\"switch\",\"d\":{},\"ty\":{},\"vs\":[{}],\"else\":{}}}",
                        d,
                        ti,
                        vs.join(","),
                        targets.otherwise().as_usize()
                    )
                }
                TerminatorKind::Return => "{\"t\":\"ret\"}".to_string(),
                TerminatorKind::Unreachable => "{\"t\":\"unreachable\"}".to_string(),
                TerminatorKind::UnwindResume | TerminatorKind::UnwindTerminate(_) => "{\"t\":\"unwind\"}".to_string(),
                TerminatorKind::Drop { place, target, .. } => {
                    let t = place.ty(&body.local_decls, self.tcx).ty;
                    let ti = self.ty(t);
                    let p = self.place(body, place);
                    format!("{{\"t\":\"drop\",\"p\":{},\"ty\":{},\"to\":{}}}", p, ti, target.as_usize())
                }
                TerminatorKind::Call { func, args, destination, target, .. } => {
                    let f = self.operand(body, func);
                    let a: Vec<String> = args.iter().map(|a| self.operand(body, &a.node)).collect();
                    let at: Vec<String> = args
                        .iter()
                        .map(|a| {
                            let t = a.node.ty(&body.local_decls, self.tcx);
                            self.ty(t).to_string()
                        })
                        .collect();
                    let dty = destination.ty(&body.local_decls, self.tcx).ty;
                    let dti = self.ty(dty);
                    format!(
                        "{{\"t\":\"call\",\"f\":{},\"a\":[{}],\"at\":[{}],\"d\":{},\"dt\":{},\"to\":{}}}",
                        f,
                        a.join(","),
                        at.join(","),
                        self.place(body, destination),
                        dti,
                        target.map(|t| t.as_usize() as i64).unwrap_or(-1)
                    )
                }
                TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                    let m = format!("{:?}", msg);
                    let kind = match &**msg {
                        AssertKind::BoundsCheck { .. } => "bounds",
                        AssertKind::Overflow(..) => "overflow",
                        AssertKind::OverflowNeg(..) => "overflow",
                        AssertKind::DivisionByZero(..) => "div0",
                        AssertKind::RemainderByZero(..) => "rem0",
                        _ => "other",
                    };
                    let ops = match &**msg {
                        AssertKind::BoundsCheck { len, index } => {
                            format!("[{},{}]", self.operand(body, len), self.operand(body, index))
                        }
                        AssertKind::Overflow(_, a, b) => {
                            format!("[{},{}]", self.operand(body, a), self.operand(body, b))
                        }
                        _ => "[]".to_string(),
                    };
                    let op = match &**msg {
                        AssertKind::Overflow(op, ..) => format!("{:?}", op),
                        _ => String::new(),
                    };
                    format!(
                        "{{\"t\":\"assert\",\"c\":{},\"e\":{},\"k\":\"{}\",\"op\":\"{}\",\"ops\":{},\"m\":{},\"to\":{}}}",
                        self.operand(body, cond),
                        expected,
                        kind,
                        op,
                        ops,
                        esc(&m),
                        target.as_usize()
                    )
                }
                other => format!("{{\"t\":\"other\",\"s\":{}}}", esc(&format!("{:?}", other))),
            };
            o.push_str(&ts);
            let _ = write!(o, ",\"l\":{},\"x\":{},\"cu\":{}}}", line, exp, bb.is_cleanup);
        }
        o.push_str("]}");
        o
    }

    fn run(&mut self) -> String {
        let tcx = self.tcx;
        // roots: every non-generic local fn and method, plus every provided method of a local
        // trait for each local impl of that trait
        for ldid in tcx.mir_keys(()).iter() {
            let d = ldid.to_def_id();
            if !matches!(tcx.def_kind(d), DefKind::Fn | DefKind::AssocFn) {
                continue;
            }
            let g = tcx.generics_of(d);
            if g.requires_monomorphization(tcx) {
                continue;
            }
            let args = ty::GenericArgs::identity_for_item(tcx, d);
            let args = tcx.erase_and_anonymize_regions(args);
            let inst = Instance { def: InstanceKind::Item(d), args };
            self.enqueue(inst);
        }
        for (tr, impls) in tcx.all_local_trait_impls(()).iter() {
            for imp in impls {
                let impd = imp.to_def_id();
                if tcx.generics_of(impd).requires_monomorphization(tcx) {
                    continue;
                }
                if !tr.is_local() {
                    continue;
                }
                let tref = tcx.impl_trait_ref(impd).instantiate_identity().skip_norm_wip();
                for it in tcx.associated_items(*tr).in_definition_order() {
                    if !it.is_fn() {
                        continue;
                    }
                    if tcx.generics_of(it.def_id).own_requires_monomorphization() {
                        continue;
                    }
                    let args = tcx.erase_and_anonymize_regions(tref.args);
                    // own late-bound lifetimes only
                    let args = ty::GenericArgs::for_item(tcx, it.def_id, |p, _| {
                        if (p.index as usize) < args.len() {
                            args[p.index as usize]
                        } else {
                            tcx.lifetimes.re_erased.into()
                        }
                    });
                    if let Ok(Some(inst)) = Instance::try_resolve(tcx, self.env, it.def_id, args) {
                        self.enqueue(inst);
                    }
                }
            }
        }
        loop {
        while let Some(inst) = self.queue.pop_front() {
            let InstanceKind::Item(d) = inst.def else { continue };
            let raw = tcx.instance_mir(inst.def);
            let body = inst.instantiate_mir_and_normalize_erasing_regions(
                tcx,
                self.env,
                EarlyBinder::bind(tcx, raw.clone()),
            );
            let key = self.inst_key(inst);
            let path = with_no_trimmed_paths!(tcx.def_path_str(d));
            let mut extra = format!(
                ",\"crate\":{},\"local\":{}",
                esc(tcx.crate_name(d.krate).as_str()),
                d.is_local()
            );
            if tcx.is_closure_like(d) {
                extra.push_str(",\"closure\":true");
                let parent = tcx.typeck_root_def_id(d);
                let _ = write!(extra, ",\"parent\":{}", esc(&with_no_trimmed_paths!(tcx.def_path_str(parent))));
            }
            if let Some(imp) = tcx.impl_of_assoc(d) {
                let st = tcx.type_of(imp).instantiate_identity().skip_norm_wip();
                let _ = write!(extra, ",\"implself\":{}", esc(&with_no_trimmed_paths!(st.to_string())));
                if let Some(tr) = tcx.impl_opt_trait_ref(imp) {
                    let tr = tr.instantiate_identity().skip_norm_wip();
                    let _ = write!(
                        extra,
                        ",\"impltrait\":{}",
                        esc(&with_no_trimmed_paths!(tcx.def_path_str(tr.def_id)))
                    );
                }
                if tcx.is_automatically_derived(imp) {
                    extra.push_str(",\"derived\":true");
                }
            }
            if matches!(tcx.def_kind(d), DefKind::Fn | DefKind::AssocFn) {
                let vis = tcx.visibility(d).is_public();
                let name = tcx.item_name(d);
                let _ = write!(extra, ",\"pub\":{},\"fname\":{}", vis, esc(name.as_str()));
            }
            let s = self.body(&key, &path, &body, &extra);
            self.bodies.push(s);
            self.flush_consts();
        }
            self.flush_types();
            self.flush_consts();
            if self.queue.is_empty() && self.constq.is_empty() && self.typending.is_empty() {
                break;
            }
        }
        let mut out = String::from("{\"crate\":");
        out.push_str(&esc(tcx.crate_name(LOCAL_CRATE).as_str()));
        out.push_str(",\n\"types\":[\n");
        for (i, (_, s)) in self.types.iter().enumerate() {
            if i > 0 {
                out.push_str(",\n");
            }
            out.push_str(s);
        }
        out.push_str("],\n\"bodies\":[\n");
        out.push_str(&self.bodies.join(",\n"));
        out.push_str("]}\n");
        out
    }

    fn flush_consts(&mut self) {
        let tcx = self.tcx;
        while let Some((key, def, args, promoted)) = self.constq.pop_front() {
            let raw: Body<'tcx> = match promoted {
                Some(p) => tcx.promoted_mir(def)[p].clone(),
                None => {
                    if !tcx.is_mir_available(def) && !def.is_local() {
                        continue;
                    }
                    tcx.mir_for_ctfe(def).clone()
                }
            };
            let inst = Instance { def: InstanceKind::Item(def), args };
            let body =
                inst.instantiate_mir_and_normalize_erasing_regions(tcx, self.env, EarlyBinder::bind(tcx, raw));
            let s = self.body(&key, &key, &body, ",\"constbody\":true");
            self.bodies.push(s);
        }
    }
}

struct Cb {
    out: Option<String>,
}

impl rustc_driver::Callbacks for Cb {
    fn after_analysis<'tcx>(&mut self, _c: &rustc_interface::interface::Compiler, tcx: TyCtxt<'tcx>) -> Compilation {
        if let Some(out) = &self.out {
            let name = tcx.crate_name(LOCAL_CRATE).to_string();
            let mut cx = Cx {
                tcx,
                env: TypingEnv::fully_monomorphized(),
                types: vec![],
                tyidx: HashMap::new(),
                typending: VecDeque::new(),
                queue: VecDeque::new(),
                seen: HashSet::new(),
                bodies: vec![],
                constq: VecDeque::new(),
                constseen: HashSet::new(),
            };
            let s = cx.run();
            let path = format!("{}/{}.json", out, name);
            std::fs::write(&path, s).expect("writing facts");
        }
        Compilation::Continue
    }
}

fn main() -> std::process::ExitCode {
    let mut args: Vec<String> = std::env::args().collect();
    // RUSTC_WORKSPACE_WRAPPER: argv = [wrapper, rustc, args...]
    args.remove(0);
    let probe = !args.iter().any(|a| a == "--crate-name") || args.iter().any(|a| a.starts_with("--print"));
    let out = if probe { None } else { std::env::var("MIRFACTS_OUT").ok() };
    if out.is_some() {
        args.push("-Zmir-opt-level=0".into());
        args.push("-Zalways-encode-mir".into());
        //the checks of debug builds for misaligned and null pointers, and boxes as raw pointers, are of no interest
        args.push("-Zmir-enable-passes=-CheckAlignment,-CheckNull,-CheckEnums,-ElaborateBoxDerefs".into());
    }
    let mut cb = Cb { out };
    rustc_driver::catch_with_exit_code(move || rustc_driver::compiler_entrypoint(&args, &mut cb))
}

// MIR exporter: a rustc driver that compiles exactly like rustc and, for the
// primary package, writes the resolved, type-checked program (MIR of every
// local body, plus the MIR of the small std combinators those bodies call) as
// JSON.  It decides nothing: the rules live in ../engine.
#![feature(rustc_private)]
extern crate rustc_abi;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_session;
extern crate rustc_span;

use rustc_driver::Compilation;
use rustc_hir::def::DefKind;
use rustc_hir::intravisit;
use rustc_hir::def_id::{DefId, LOCAL_CRATE};
use rustc_middle::mir::interpret::{GlobalAlloc, Scalar};
use rustc_middle::mir::*;
use rustc_middle::ty::print::with_no_trimmed_paths;
use rustc_middle::ty::{self, EarlyBinder, GenericArgsRef, Instance, InstanceKind, Ty, TyCtxt, TypingEnv};
use rustc_span::Span;
use std::collections::{BTreeMap, BTreeSet, VecDeque};
use std::fmt::Write as _;

fn js(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 => { let _ = write!(o, "\\u{:04x}", c as u32); }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

struct Cx<'tcx> {
    tcx: TyCtxt<'tcx>,
    queue: VecDeque<(String, Instance<'tcx>, TypingEnv<'tcx>)>,
    seen: BTreeSet<String>,
    bodies: BTreeMap<String, String>,
    adts: BTreeMap<String, String>,
    adt_todo: VecDeque<DefId>,
    adt_seen: std::collections::HashSet<DefId>,
}

// std items whose MIR is exported so that combinators are analysed, not assumed
fn inline_std(path: &str) -> bool {
    const PRE: &[&str] = &[
        "core::option::", "core::result::", "core::ops::control_flow::", "core::ops::try_trait::",
        "core::bool::", "core::convert::", "core::cmp::", "core::tuple::",
        "core::ops::function::", "core::ops::range::", "core::array::equality",
        "core::mem::maybe", "core::default::", "core::hint::must_use", "core::borrow::",
    ];
    PRE.iter().any(|p| path.starts_with(p))
}

fn full_path(tcx: TyCtxt<'_>, d: DefId) -> String {
    format!("{}{}", tcx.crate_name(d.krate), tcx.def_path(d).to_string_no_crate_verbose())
}

impl<'tcx> Cx<'tcx> {
    fn ty(&self, t: Ty<'tcx>) -> String {
        with_no_trimmed_paths!(format!("{}", t))
    }
    fn path(&self, d: DefId) -> String {
        with_no_trimmed_paths!(self.tcx.def_path_str(d))
    }
    fn span(&self, sp: Span) -> String {
        let sp = sp.source_callsite();
        let sm = self.tcx.sess.source_map();
        let lo = sm.lookup_char_pos(sp.lo());
        format!("{}:{}", lo.file.name.prefer_remapped_unconditionally(), lo.line)
    }
    fn note_ty(&mut self, t: Ty<'tcx>) {
        let mut it = t.walk();
        while let Some(g) = it.next() {
            if let ty::GenericArgKind::Type(t) = g.kind() {
                if let ty::Adt(a, _) = t.kind() {
                    self.note_adt(a.did());
                }
            }
        }
    }
    fn note_adt(&mut self, d: DefId) {
        if self.adt_seen.insert(d) { self.adt_todo.push_back(d); }
    }
    fn key(&self, inst: Instance<'tcx>) -> String {
        let d = inst.def_id();
        let mut s = full_path(self.tcx, d);
        if !inst.args.is_empty() && !d.is_local() {
            s.push_str(&with_no_trimmed_paths!(format!("<{}>", inst.args.iter().map(|a| a.to_string()).collect::<Vec<_>>().join(","))));
        }
        s
    }
    fn request(&mut self, inst: Instance<'tcx>, env: TypingEnv<'tcx>) -> Option<String> {
        let d = inst.def_id();
        match inst.def {
            InstanceKind::Item(_) => {}
            _ => return None,
        }
        if d.is_local() {
            // local bodies are exported once, with their own generics
            if !self.tcx.is_mir_available(d) { return None; }
            return Some(self.key(inst));
        }
        let p = full_path(self.tcx, d);
        if !inline_std(&p) || !self.tcx.is_mir_available(d) { return None; }
        let k = self.key(inst);
        if self.seen.insert(k.clone()) {
            self.queue.push_back((k.clone(), inst, env));
        }
        Some(k)
    }
    fn fnref(&mut self, d: DefId, args: GenericArgsRef<'tcx>, env: TypingEnv<'tcx>) -> String {
        let tcx = self.tcx;
        let mut o = String::new();
        let targs: Vec<String> = args.iter().map(|a| js(&with_no_trimmed_paths!(a.to_string()))).collect();
        let tr = tcx.trait_of_assoc(d).map(|t| self.path(t));
        let name = tcx.opt_item_name(d).map(|s| s.to_string()).unwrap_or_default();
        let self_ty = if let Some(imp) = tcx.impl_of_assoc(d) {
            let st = tcx.type_of(imp).instantiate_identity().skip_norm_wip();
            let tt = tcx.impl_opt_trait_ref(imp).map(|t| self.path(t.skip_binder().def_id));
            Some((self.ty(st), tt))
        } else { None };
        let _ = write!(o, "{{\"k\":\"fn\",\"def\":{},\"full\":{},\"name\":{},\"args\":[{}]", js(&self.path(d)), js(&full_path(tcx, d)), js(&name), targs.join(","));
        if let Some(t) = tr { let _ = write!(o, ",\"trait\":{}", js(&t)); }
        if let Some((st, tt)) = self_ty {
            let _ = write!(o, ",\"impl_self\":{}", js(&st));
            if let Some(tt) = tt { let _ = write!(o, ",\"impl_trait\":{}", js(&tt)); }
        }
        let dk = tcx.def_kind(d);
        if matches!(dk, DefKind::Fn | DefKind::AssocFn) {
            if let Ok(Some(inst)) = Instance::try_resolve(tcx, env, d, args) {
                let rd = inst.def_id();
                if rd != d || matches!(inst.def, InstanceKind::Item(_)) {
                    let _ = write!(o, ",\"rdef\":{},\"rfull\":{},\"rlocal\":{}", js(&self.path(rd)), js(&full_path(tcx, rd)), rd.is_local());
                    if let Some(imp) = tcx.impl_of_assoc(rd) {
                        let st = tcx.type_of(imp).instantiate_identity().skip_norm_wip();
                        let _ = write!(o, ",\"rself\":{}", js(&self.ty(st)));
                    }
                }
                let _ = write!(o, ",\"rkind\":{}", js(&format!("{:?}", std::mem::discriminant(&inst.def)).chars().take(40).collect::<String>()));
                if let InstanceKind::Virtual(..) = inst.def { o.push_str(",\"virtual\":true"); }
                if let Some(k) = self.request(inst, env) {
                    let _ = write!(o, ",\"body\":{}", js(&k));
                }
            }
            let sig = tcx.fn_sig(d).instantiate_identity().skip_norm_wip().skip_binder();
            let _ = write!(o, ",\"unsafe\":{}", sig.safety() == rustc_hir::Safety::Unsafe);
        } else if let DefKind::Ctor(of, _) = dk {
            // tuple-struct / variant constructor used as a function
            let parent = tcx.parent(d);
            let (adt, vidx, vname) = match of {
                rustc_hir::def::CtorOf::Struct => (parent, 0usize, tcx.item_name(parent).to_string()),
                rustc_hir::def::CtorOf::Variant => {
                    let a = tcx.parent(parent);
                    let ad = tcx.adt_def(a);
                    (a, ad.variant_index_with_ctor_id(d).as_usize(), tcx.item_name(parent).to_string())
                }
            };
            self.note_adt(adt);
            let _ = write!(o, ",\"ctor\":[{},{},{}]", js(&self.path(adt)), vidx, js(&vname));
        }
        o.push('}');
        o
    }
    fn constant(&mut self, c: &ConstOperand<'tcx>, env: TypingEnv<'tcx>, inst: Instance<'tcx>) -> String {
        let tcx = self.tcx;
        let ct = inst.instantiate_mir_and_normalize_erasing_regions(tcx, env, EarlyBinder::bind(tcx, c.const_));
        let t = ct.ty();
        self.note_ty(t);
        match t.kind() {
            ty::FnDef(d, a) => { let a = a.no_bound_vars().unwrap_or_else(|| a.skip_binder()); return self.fnref(*d, a, env); }
            ty::Closure(d, _) => {
                return format!("{{\"k\":\"closure\",\"ty\":{},\"body\":{}}}", js(&self.ty(t)), js(&full_path(tcx, *d)));
            }
            _ => {}
        }
        let mut unev = String::new();
        if let Const::Unevaluated(u, _) = ct {
            if let Some(p) = u.promoted {
                return format!("{{\"k\":\"promoted\",\"ty\":{},\"owner\":{},\"idx\":{}}}", js(&self.ty(t)), js(&full_path(tcx, u.def)), p.as_usize());
            }
            unev = self.path(u.def);
        }
        let ev = ct.eval(tcx, env, c.span);
        let base = format!("\"ty\":{},\"from\":{}", js(&self.ty(t)), js(&unev));
        match ev {
            Ok(v) => self.constval(v, t, &base, env),
            Err(_) => {
                // too generic to evaluate
                let s = with_no_trimmed_paths!(format!("{}", ct));
                format!("{{\"k\":\"opaque\",{},\"s\":{}}}", base, js(&s))
            }
        }
    }
    fn constval(&mut self, v: ConstValue, t: Ty<'tcx>, base: &str, env: TypingEnv<'tcx>) -> String {
        let tcx = self.tcx;
        match v {
            ConstValue::ZeroSized => {
                if let ty::FnDef(d, a) = t.kind() { let a = a.no_bound_vars().unwrap_or_else(|| a.skip_binder()); return self.fnref(*d, a, env); }
                let adt = if let ty::Adt(a, _) = t.kind() { self.note_adt(a.did()); js(&self.path(a.did())) } else { "null".into() };
                format!("{{\"k\":\"zst\",{},\"adt\":{}}}", base, adt)
            }
            ConstValue::Scalar(Scalar::Int(i)) => match t.kind() {
                ty::Bool => format!("{{\"k\":\"bool\",{},\"v\":{}}}", base, i.to_bits(i.size()) != 0),
                ty::Float(_) => {
                    let bits = i.to_bits(i.size());
                    let f = if i.size().bytes() == 8 { f64::from_bits(bits as u64) } else { f32::from_bits(bits as u32) as f64 };
                    format!("{{\"k\":\"float\",{},\"v\":{}}}", base, js(&format!("{:e}", f)))
                }
                ty::Int(_) => {
                    let v = i.to_int(i.size());
                    format!("{{\"k\":\"int\",{},\"v\":{}}}", base, v)
                }
                ty::Uint(_) => format!("{{\"k\":\"int\",{},\"v\":{}}}", base, i.to_bits(i.size())),
                ty::Char => format!("{{\"k\":\"char\",{},\"v\":{}}}", base, i.to_bits(i.size())),
                ty::Adt(a, _) => { self.note_adt(a.did()); self.destructure(v, t, base, env) }
                _ => format!("{{\"k\":\"bits\",{},\"v\":{}}}", base, js(&i.to_bits(i.size()).to_string())),
            },
            ConstValue::Scalar(Scalar::Ptr(p, _)) => {
                let (prov, off) = p.into_raw_parts();
                match tcx.global_alloc(prov.alloc_id()) {
                    GlobalAlloc::Function { instance } => self.fnref(instance.def_id(), instance.args, env),
                    GlobalAlloc::Static(d) => format!("{{\"k\":\"static\",{},\"def\":{},\"mutable\":{}}}", base, js(&self.path(d)), tcx.is_mutable_static(d)),
                    GlobalAlloc::Memory(m) => {
                        let m = m.inner();
                        // reference to bytes (e.g. &[u8; N], &&str)
                        if let ty::Ref(_, inner, _) = t.kind() {
                            if let ty::Array(et, _) = inner.kind() {
                                if *et == tcx.types.u8 {
                                    let n = m.len();
                                    let b = m.inspect_with_uninit_and_ptr_outside_interpreter(off.bytes_usize()..n);
                                    return format!("{{\"k\":\"bytes\",{},\"v\":{:?}}}", base, b);
                                }
                            }
                            let r = self.read_alloc(*inner, prov.alloc_id(), off, env);
                            return format!("{{\"k\":\"refto\",{},\"v\":{}}}", base, r);
                        }
                        format!("{{\"k\":\"opaque\",{},\"s\":\"ptr\"}}", base)
                    }
                    _ => format!("{{\"k\":\"opaque\",{},\"s\":\"vt\"}}", base),
                }
            }
            ConstValue::Slice { alloc_id, meta } => {
                if let GlobalAlloc::Memory(m) = tcx.global_alloc(alloc_id) {
                    let m = m.inner();
                    let b = m.inspect_with_uninit_and_ptr_outside_interpreter(0..meta as usize);
                    if let ty::Ref(_, inner, _) = t.kind() {
                        if inner.is_str() {
                            return format!("{{\"k\":\"str\",{},\"v\":{}}}", base, js(&String::from_utf8_lossy(b)));
                        }
                    }
                    return format!("{{\"k\":\"bytes\",{},\"v\":{:?}}}", base, b);
                }
                format!("{{\"k\":\"opaque\",{},\"s\":\"slice\"}}", base)
            }
            ConstValue::Indirect { alloc_id, offset } => {
                let _ = (alloc_id, offset);
                self.destructure(v, t, base, env)
            }
        }
    }
    fn read_alloc(&mut self, t: Ty<'tcx>, alloc_id: interpret::AllocId, off: rustc_abi::Size, env: TypingEnv<'tcx>) -> String {
        let v = ConstValue::Indirect { alloc_id, offset: off };
        let base = format!("\"ty\":{},\"from\":\"\"", js(&self.ty(t)));
        self.destructure(v, t, &base, env)
    }
    fn destructure(&mut self, v: ConstValue, t: Ty<'tcx>, base: &str, env: TypingEnv<'tcx>) -> String {
        let tcx = self.tcx;
        if matches!(t.kind(), ty::Adt(..) | ty::Tuple(..) | ty::Array(..)) {
            if let Some(d) = tcx.try_destructure_mir_constant_for_user_output(v, t) {
                let fs: Vec<String> = d.fields.iter().map(|(fv, ft)| {
                    let b = format!("\"ty\":{},\"from\":\"\"", js(&self.ty(*ft)));
                    self.constval(*fv, *ft, &b, env)
                }).collect();
                let (adt, var) = match t.kind() {
                    ty::Adt(a, _) => (js(&self.path(a.did())), d.variant.map(|x| x.as_usize()).unwrap_or(0)),
                    ty::Tuple(..) => ("\"tuple\"".to_string(), 0),
                    _ => ("\"array\"".to_string(), 0),
                };
                return format!("{{\"k\":\"agg\",{},\"adt\":{},\"variant\":{},\"fields\":[{}]}}", base, adt, var, fs.join(","));
            }
        }
        // scalars and str slices stored in memory
        if let ConstValue::Indirect { alloc_id, offset } = v {
            if let GlobalAlloc::Memory(m) = tcx.global_alloc(alloc_id) {
                let m = m.inner();
                let psz = tcx.data_layout.pointer_size();
                if let ty::Ref(_, inner, _) = t.kind() {
                    if inner.is_str() {
                        let p = m.read_scalar(&tcx, interpret::alloc_range(offset, psz), true);
                        let l = m.read_scalar(&tcx, interpret::alloc_range(offset + psz, psz), false);
                        if let (Ok(Scalar::Ptr(p, _)), Ok(Scalar::Int(l))) = (p, l) {
                            let (prov, o2) = p.into_raw_parts();
                            let n = l.to_bits(l.size()) as usize;
                            if let GlobalAlloc::Memory(mm) = tcx.global_alloc(prov.alloc_id()) {
                                let o = o2.bytes_usize();
                                let b = mm.inner().inspect_with_uninit_and_ptr_outside_interpreter(o..o + n);
                                return format!("{{\"k\":\"str\",{},\"v\":{}}}", base, js(&String::from_utf8_lossy(b)));
                            }
                        }
                    }
                }
                if let ty::Float(_) | ty::Int(_) | ty::Uint(_) | ty::Bool = t.kind() {
                    let sz = tcx.layout_of(env.as_query_input(t)).map(|l| l.size).unwrap_or(psz);
                    if let Ok(s) = m.read_scalar(&tcx, interpret::alloc_range(offset, sz), false) {
                        if let Scalar::Int(_) = s { return self.constval(ConstValue::Scalar(s), t, base, env); }
                    }
                }
            }
        }
        format!("{{\"k\":\"opaque\",{},\"s\":\"agg\"}}", base)
    }
    fn place(&mut self, p: Place<'tcx>) -> String {
        let mut o = format!("[{},[", p.local.as_usize());
        for (i, e) in p.projection.iter().enumerate() {
            if i > 0 { o.push(','); }
            match e {
                ProjectionElem::Deref => o.push_str("\"*\""),
                ProjectionElem::Field(f, _) => { let _ = write!(o, "[\"f\",{}]", f.as_usize()); }
                ProjectionElem::Index(l) => { let _ = write!(o, "[\"i\",{}]", l.as_usize()); }
                ProjectionElem::ConstantIndex { offset, min_length, from_end } => { let _ = write!(o, "[\"ci\",{},{},{}]", offset, min_length, from_end); }
                ProjectionElem::Subslice { from, to, from_end } => { let _ = write!(o, "[\"sub\",{},{},{}]", from, to, from_end); }
                ProjectionElem::Downcast(_, v) => { let _ = write!(o, "[\"d\",{}]", v.as_usize()); }
                _ => o.push_str("\"?\""),
            }
        }
        o.push_str("]]");
        o
    }
    fn operand(&mut self, op: &Operand<'tcx>, env: TypingEnv<'tcx>, inst: Instance<'tcx>) -> String {
        match op {
            Operand::Copy(p) => format!("[\"cp\",{}]", self.place(*p)),
            Operand::Move(p) => format!("[\"mv\",{}]", self.place(*p)),
            Operand::Constant(c) => format!("[\"c\",{}]", self.constant(c, env, inst)),
            #[allow(unreachable_patterns)]
            _ => "[\"rtchk\"]".to_string(),
        }
    }
    fn rvalue(&mut self, b: &Body<'tcx>, r: &Rvalue<'tcx>, env: TypingEnv<'tcx>, inst: Instance<'tcx>) -> String {
        let tcx = self.tcx;
        let oty = |cx: &mut Self, o: &Operand<'tcx>| { let t = o.ty(&b.local_decls, tcx); let t = inst.instantiate_mir_and_normalize_erasing_regions(tcx, env, EarlyBinder::bind(tcx, t)); js(&cx.ty(t)) };
        match r {
            Rvalue::Use(o, ..) => format!("[\"use\",{}]", self.operand(o, env, inst)),
            Rvalue::Repeat(o, n) => {
                let n = inst.instantiate_mir_and_normalize_erasing_regions(tcx, env, EarlyBinder::bind(tcx, *n));
                format!("[\"repeat\",{},{}]", self.operand(o, env, inst), js(&with_no_trimmed_paths!(n.to_string())))
            }
            Rvalue::Ref(_, bk, p) => format!("[\"ref\",{},{}]", matches!(bk, BorrowKind::Mut { .. }), self.place(*p)),
            Rvalue::RawPtr(k, p) => format!("[\"raw\",{},{}]", js(&format!("{:?}", k)), self.place(*p)),
            Rvalue::Cast(k, o, t) => {
                let ft = oty(self, o);
                let t = inst.instantiate_mir_and_normalize_erasing_regions(tcx, env, EarlyBinder::bind(tcx, *t));
                format!("[\"cast\",{},{},{},{}]", js(&format!("{:?}", k)), self.operand(o, env, inst), js(&self.ty(t)), ft)
            }
            Rvalue::BinaryOp(op, ab) => { let t = oty(self, &ab.0); format!("[\"bin\",{},{},{},{}]", js(&format!("{:?}", op)), self.operand(&ab.0, env, inst), self.operand(&ab.1, env, inst), t) }
            Rvalue::UnaryOp(op, o) => { let t = oty(self, o); format!("[\"un\",{},{},{}]", js(&format!("{:?}", op)), self.operand(o, env, inst), t) }
            Rvalue::Discriminant(p) => {
                let t = p.ty(&b.local_decls, tcx).ty;
                let t = inst.instantiate_mir_and_normalize_erasing_regions(tcx, env, EarlyBinder::bind(tcx, t));
                let a = if let ty::Adt(a, _) = t.kind() { self.note_adt(a.did()); js(&self.path(a.did())) } else { "null".into() };
                format!("[\"discr\",{},{}]", self.place(*p), a)
            }
            Rvalue::Aggregate(k, fs) => {
                let ops: Vec<String> = fs.iter().map(|o| self.operand(o, env, inst)).collect();
                let h = match &**k {
                    AggregateKind::Array(_) => "[\"array\"]".to_string(),
                    AggregateKind::Tuple => "[\"tuple\"]".to_string(),
                    AggregateKind::Adt(d, v, _, _, _) => { self.note_adt(*d); format!("[\"adt\",{},{}]", js(&self.path(*d)), v.as_usize()) }
                    AggregateKind::Closure(d, _) => format!("[\"closure\",{}]", js(&full_path(tcx, *d))),
                    AggregateKind::RawPtr(..) => "[\"rawptr\"]".to_string(),
                    _ => "[\"other\"]".to_string(),
                };
                format!("[\"agg\",{},[{}]]", h, ops.join(","))
            }
            Rvalue::CopyForDeref(p) => format!("[\"use\",[\"cp\",{}]]", self.place(*p)),
            Rvalue::ThreadLocalRef(d) => format!("[\"tls\",{}]", js(&self.path(*d))),
            _ => format!("[\"other\",{}]", js(&format!("{:?}", r))),
        }
    }
    fn body(&mut self, b: &Body<'tcx>, inst: Instance<'tcx>, env: TypingEnv<'tcx>) -> String {
        let tcx = self.tcx;
        let mut o = String::new();
        let _ = write!(o, "\"argc\":{},\"locals\":[", b.arg_count);
        for (i, l) in b.local_decls.iter().enumerate() {
            if i > 0 { o.push(','); }
            let t = inst.instantiate_mir_and_normalize_erasing_regions(tcx, env, EarlyBinder::bind(tcx, l.ty));
            self.note_ty(t);
            o.push_str(&js(&self.ty(t)));
        }
        o.push_str("],\"names\":{");
        let mut first = true;
        for v in b.var_debug_info.iter() {
            if let VarDebugInfoContents::Place(p) = v.value {
                if p.projection.is_empty() {
                    if !first { o.push(','); }
                    first = false;
                    let _ = write!(o, "\"{}\":{}", p.local.as_usize(), js(v.name.as_str()));
                }
            }
        }
        let _ = write!(o, "}},\"spread\":{},\"blocks\":[", b.spread_arg.map(|l| l.as_usize() as i64).unwrap_or(-1));
        for (bi, bb) in b.basic_blocks.iter().enumerate() {
            if bi > 0 { o.push(','); }
            if bb.is_cleanup { o.push_str("null"); continue; }
            o.push_str("{\"s\":[");
            let mut fst = true;
            for s in &bb.statements {
                let t = match &s.kind {
                    StatementKind::Assign(a) => {
                        let (p, r) = &**a;
                        format!("[\"=\",{},{},{}]", self.place(*p), self.rvalue(b, r, env, inst), js(&self.span(s.source_info.span)))
                    }
                    StatementKind::SetDiscriminant { place, variant_index } => format!("[\"setd\",{},{}]", self.place(**place), variant_index.as_usize()),
                    StatementKind::Intrinsic(i) => format!("[\"intr\",{}]", js(&format!("{:?}", i))),
                    _ => continue,
                };
                if !fst { o.push(','); }
                fst = false;
                o.push_str(&t);
            }
            o.push_str("],\"t\":");
            let term = bb.terminator();
            let sp = js(&self.span(term.source_info.span));
            match &term.kind {
                TerminatorKind::Goto { target, .. } => { let _ = write!(o, "[\"goto\",{}]", target.as_usize()); }
                TerminatorKind::SwitchInt { discr, targets } => {
                    let d = self.operand(discr, env, inst);
                    let ts: Vec<String> = targets.iter().map(|(v, t)| format!("[{},{}]", v, t.as_usize())).collect();
                    let _ = write!(o, "[\"switch\",{},[{}],{},{}]", d, ts.join(","), targets.otherwise().as_usize(), sp);
                }
                TerminatorKind::Return => o.push_str("[\"ret\"]"),
                TerminatorKind::Unreachable => o.push_str("[\"unreachable\"]"),
                TerminatorKind::Drop { place, target, .. } => { let _ = write!(o, "[\"drop\",{},{}]", self.place(*place), target.as_usize()); }
                TerminatorKind::Call { func, args, destination, target, .. } => {
                    let f = self.operand(func, env, inst);
                    let a: Vec<String> = args.iter().map(|x| self.operand(&x.node, env, inst)).collect();
                    let dty = inst.instantiate_mir_and_normalize_erasing_regions(tcx, env, EarlyBinder::bind(tcx, destination.ty(b, tcx).ty));
                    let _ = write!(o, "[\"call\",{},[{}],{},{},{},{}]", f, a.join(","), self.place(*destination), target.map(|t| t.as_usize() as i64).unwrap_or(-1), sp, js(&self.ty(dty)));
                }
                TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                    let c = self.operand(cond, env, inst);
                    let m = match &**msg {
                        AssertKind::BoundsCheck { len, index } => format!("[\"bounds\",{},{}]", self.operand(len, env, inst), self.operand(index, env, inst)),
                        AssertKind::Overflow(op, a, b2) => format!("[\"overflow\",{},{},{}]", js(&format!("{:?}", op)), self.operand(a, env, inst), self.operand(b2, env, inst)),
                        AssertKind::OverflowNeg(a) => format!("[\"overflowneg\",{}]", self.operand(a, env, inst)),
                        AssertKind::DivisionByZero(a) => format!("[\"div0\",{}]", self.operand(a, env, inst)),
                        AssertKind::RemainderByZero(a) => format!("[\"rem0\",{}]", self.operand(a, env, inst)),
                        _ => "[\"other\"]".to_string(),
                    };
                    let _ = write!(o, "[\"assert\",{},{},{},{},{}]", c, expected, m, target.as_usize(), sp);
                }
                TerminatorKind::FalseEdge { real_target, .. } => { let _ = write!(o, "[\"goto\",{}]", real_target.as_usize()); }
                TerminatorKind::FalseUnwind { real_target, .. } => { let _ = write!(o, "[\"goto\",{}]", real_target.as_usize()); }
                TerminatorKind::UnwindResume | TerminatorKind::UnwindTerminate(_) => o.push_str("[\"unwind\"]"),
                _ => o.push_str("[\"other\"]"),
            }
            o.push('}');
        }
        o.push(']');
        o
    }
    fn export(&mut self, key: String, inst: Instance<'tcx>, env: TypingEnv<'tcx>) {
        let tcx = self.tcx;
        let d = inst.def_id();
        let kind = tcx.def_kind(d);
        let body = if matches!(kind, DefKind::Const { .. } | DefKind::AssocConst { .. } | DefKind::Static { .. } | DefKind::AnonConst) {
            tcx.mir_for_ctfe(d)
        } else {
            tcx.optimized_mir(d)
        };
        let mut o = String::from("{");
        let name = tcx.opt_item_name(d).map(|s| s.to_string()).unwrap_or_default();
        let _ = write!(o, "\"path\":{},\"full\":{},\"name\":{},\"kind\":{},\"local\":{},\"span\":{}", js(&self.path(d)), js(&full_path(tcx, d)), js(&name), js(&format!("{:?}", kind)), d.is_local(), js(&self.span(tcx.def_span(d))));
        if let Some(l) = d.as_local() {
            let vis = tcx.effective_visibilities(());
            let _ = write!(o, ",\"pub\":{},\"reach\":{}", tcx.visibility(d).is_public(), vis.is_reachable(l));
        }
        if matches!(kind, DefKind::Fn | DefKind::AssocFn) {
            let sig = tcx.fn_sig(d).instantiate_identity().skip_norm_wip().skip_binder();
            let _ = write!(o, ",\"unsafe\":{}", sig.safety() == rustc_hir::Safety::Unsafe);
        }
        if let Some(imp) = tcx.impl_of_assoc(d) {
            let st = tcx.type_of(imp).instantiate_identity().skip_norm_wip();
            let _ = write!(o, ",\"impl_self\":{}", js(&self.ty(st)));
            if let ty::Adt(a, _) = st.kind() { let _ = write!(o, ",\"impl_adt\":{}", js(&self.path(a.did()))); self.note_adt(a.did()); }
            if let Some(t) = tcx.impl_opt_trait_ref(imp) {
                let td = t.skip_binder().def_id;
                let _ = write!(o, ",\"impl_trait\":{}", js(&self.path(td)));
            }
        }
        if let Some(t) = tcx.trait_of_assoc(d) { let _ = write!(o, ",\"trait_item\":{}", js(&self.path(t))); }
        if let DefKind::Closure = kind { let _ = write!(o, ",\"parent\":{}", js(&full_path(tcx, tcx.parent(d)))); }
        let b = self.body(body, inst, env);
        let _ = write!(o, ",{}", b);
        if !matches!(kind, DefKind::Const { .. } | DefKind::AssocConst { .. } | DefKind::Static { .. } | DefKind::AnonConst) {
            o.push_str(",\"promoted\":[");
            let pr = tcx.promoted_mir(d);
            for (i, p) in pr.iter().enumerate() {
                if i > 0 { o.push(','); }
                let b = self.body(p, inst, env);
                let _ = write!(o, "{{{}}}", b);
            }
            o.push(']');
        }
        o.push('}');
        self.bodies.insert(key, o);
    }
}

struct Cb { out: String }

impl rustc_driver::Callbacks for Cb {
    fn after_analysis<'tcx>(&mut self, _c: &rustc_interface::interface::Compiler, tcx: TyCtxt<'tcx>) -> Compilation {
        let mut cx = Cx { tcx, queue: VecDeque::new(), seen: BTreeSet::new(), bodies: BTreeMap::new(), adts: BTreeMap::new(), adt_todo: VecDeque::new(), adt_seen: Default::default() };
        let mut items = Vec::new();
        for ld in tcx.hir_crate_items(()).definitions() {
            let d = ld.to_def_id();
            let kind = tcx.def_kind(d);
            match kind {
                DefKind::Struct | DefKind::Enum | DefKind::Union => { cx.note_adt(d); }
                _ => {}
            }
            match kind {
                DefKind::Impl { .. } => {
                    let st = tcx.type_of(d).instantiate_identity().skip_norm_wip();
                    let tr = tcx.impl_opt_trait_ref(d).map(|t| cx.path(t.skip_binder().def_id));
                    let uns = tr.is_some() && !tcx.def_span(d).from_expansion() && tcx.impl_trait_header(d).safety == rustc_hir::Safety::Unsafe;
                    items.push(format!("{{\"kind\":\"impl\",\"unsafe\":{},\"self\":{},\"trait\":{},\"span\":{}}}", uns, js(&cx.ty(st)), tr.map(|t| js(&t)).unwrap_or("null".into()), js(&cx.span(tcx.def_span(d)))));
                }
                DefKind::Static { .. } => items.push(format!("{{\"kind\":\"static\",\"path\":{},\"mutable\":{},\"freeze\":{},\"thread_local\":{},\"ty\":{},\"span\":{}}}", js(&cx.path(d)), tcx.is_mutable_static(d), tcx.type_of(d).instantiate_identity().skip_norm_wip().is_freeze(tcx, TypingEnv::post_analysis(tcx, d)), tcx.is_thread_local_static(d), js(&cx.ty(tcx.type_of(d).instantiate_identity().skip_norm_wip())), js(&cx.span(tcx.def_span(d))))),
                DefKind::Trait => items.push(format!("{{\"kind\":\"trait\",\"path\":{},\"span\":{}}}", js(&cx.path(d)), js(&cx.span(tcx.def_span(d))))),
                DefKind::ForeignMod => items.push(format!("{{\"kind\":\"foreign\",\"path\":{},\"span\":{}}}", js(&cx.path(d)), js(&cx.span(tcx.def_span(d))))),
                DefKind::Fn | DefKind::AssocFn | DefKind::Const { .. } | DefKind::AssocConst { .. } => {
                    let fnlike = matches!(kind, DefKind::Fn | DefKind::AssocFn);
                    if fnlike && !tcx.is_mir_available(d) { continue; }
                    if !fnlike && tcx.hir_maybe_body_owned_by(ld).is_none() { continue; }
                    let args = ty::GenericArgs::identity_for_item(tcx, d);
                    let inst = Instance::new_raw(d, args);
                    let env = TypingEnv::post_analysis(tcx, d);
                    let key = full_path(tcx, d);
                    cx.export(key, inst, env);
                }
                _ => {}
            }
        }
        let mut uv = Unsafes { tcx, out: Vec::new() };
        for ld in tcx.hir_body_owners() {
            if matches!(tcx.def_kind(ld.to_def_id()), DefKind::Closure) { continue; }
            if let Some(b) = tcx.hir_maybe_body_owned_by(ld) {
                uv.out.clear();
                intravisit::Visitor::visit_body(&mut uv, b);
                for sp in uv.out.drain(..) {
                    items.push(format!("{{\"kind\":\"unsafe_block\",\"path\":{},\"span\":{}}}", js(&cx.path(ld.to_def_id())), js(&cx.span(sp))));
                }
            }
        }
        for ld in tcx.hir_body_owners() {
            let d = ld.to_def_id();
            if tcx.def_kind(d) != DefKind::Closure || !tcx.is_mir_available(d) { continue; }
            let root = tcx.typeck_root_def_id(d);
            let args = ty::GenericArgs::identity_for_item(tcx, d);
            let key = full_path(tcx, d);
            cx.export(key, Instance::new_raw(d, args), TypingEnv::post_analysis(tcx, root));
        }
        while let Some((k, i, e)) = cx.queue.pop_front() { cx.export(k, i, e); }
        while let Some(d) = cx.adt_todo.pop_front() {
            let a = tcx.adt_def(d);
            let mut o = format!("{{\"path\":{},\"local\":{},\"kind\":{}", js(&cx.path(d)), d.is_local(), js(if a.is_enum() { "enum" } else { "struct" }));
            if let Some(l) = d.as_local() {
                let vis = tcx.effective_visibilities(());
                let _ = write!(o, ",\"reach\":{},\"span\":{}", vis.is_reachable(l), js(&cx.span(tcx.def_span(d))));
            }
            o.push_str(",\"variants\":[");
            let simple = d.is_local() || a.is_enum();
            if simple {
                for (i, v) in a.variants().iter().enumerate() {
                    if i > 0 { o.push(','); }
                    let discr = if a.is_enum() { a.discriminant_for_variant(tcx, rustc_abi::VariantIdx::from_usize(i)).val.to_string() } else { "0".into() };
                    let fs: Vec<String> = v.fields.iter().map(|f| {
                        let ft = tcx.type_of(f.did).instantiate_identity().skip_norm_wip();
                        format!("[{},{},{}]", js(f.name.as_str()), js(&cx.ty(ft)), f.vis.is_public())
                    }).collect();
                    let _ = write!(o, "{{\"name\":{},\"discr\":{},\"fields\":[{}]}}", js(v.name.as_str()), js(&discr), fs.join(","));
                }
            }
            o.push_str("]}");
            cx.adts.insert(cx.path(d), o);
        }
        let mut s = String::from("{");
        let _ = write!(s, "\"crate\":{},\"fns\":{{\n", js(tcx.crate_name(LOCAL_CRATE).as_str()));
        s.push_str(&cx.bodies.iter().map(|(k, v)| format!("{}:{}", js(k), v)).collect::<Vec<_>>().join(",\n"));
        s.push_str("},\"adts\":{\n");
        s.push_str(&cx.adts.iter().map(|(k, v)| format!("{}:{}", js(k), v)).collect::<Vec<_>>().join(",\n"));
        s.push_str("},\"items\":[\n");
        s.push_str(&items.join(",\n"));
        s.push_str("]}\n");
        std::fs::create_dir_all(&self.out).unwrap();
        let f = format!("{}/{}.json", self.out, tcx.crate_name(LOCAL_CRATE));
        std::fs::write(&f, s).unwrap();
        Compilation::Continue
    }
}

// blocks the user wrote as `unsafe` (closures and nested bodies included); the
// ones an external macro expands to belong to that macro
struct Unsafes<'tcx> { tcx: TyCtxt<'tcx>, out: Vec<rustc_span::Span> }

impl<'tcx> intravisit::Visitor<'tcx> for Unsafes<'tcx> {
    type NestedFilter = rustc_middle::hir::nested_filter::OnlyBodies;
    fn maybe_tcx(&mut self) -> TyCtxt<'tcx> { self.tcx }
    fn visit_block(&mut self, b: &'tcx rustc_hir::Block<'tcx>) {
        if let rustc_hir::BlockCheckMode::UnsafeBlock(rustc_hir::UnsafeSource::UserProvided) = b.rules {
            let e = b.span.ctxt().outer_expn_data();
            let foreign = b.span.from_expansion() && e.macro_def_id.map(|m| !m.is_local()).unwrap_or(true);
            if !foreign { self.out.push(b.span); }
        }
        intravisit::walk_block(self, b);
    }
}

struct Plain;
impl rustc_driver::Callbacks for Plain {}

fn main() {
    // RUSTC_WORKSPACE_WRAPPER: argv = [driver, rustc, args...]
    let mut args: Vec<String> = std::env::args().collect();
    if args.len() > 1 && (args[1].ends_with("rustc") || args[1].contains("/rustc")) { args.remove(1); }
    let out = std::env::var("MIREX_OUT").unwrap_or_default();
    let cname = args.iter().position(|a| a == "--crate-name").and_then(|i| args.get(i + 1)).cloned().unwrap_or_default();
    let wanted = std::env::var("MIREX_CRATES").unwrap_or_default();
    let primary = !out.is_empty() && wanted.split(',').any(|c| c == cname) && !args.iter().any(|a| a == "--test");
    if primary {
        args.push("-Zmir-opt-level=0".into());
        args.push("-Zalways-encode-mir".into());
        rustc_driver::compiler_entrypoint(&args, &mut Cb { out });
    } else {
        rustc_driver::compiler_entrypoint(&args, &mut Plain);
    }
}

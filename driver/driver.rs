// Fact extractor: dumps the type-checked program (MIR with resolved callees,
// ADTs, function signatures) of one crate as JSON lines.  Injected with
// RUSTC_WORKSPACE_WRAPPER; it only reads the compiler's tables.
#![feature(rustc_private)]
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_span;

use rustc_hir::def::DefKind;
use rustc_hir::def_id::{DefId, LocalDefId};
use rustc_middle::mir::*;
use rustc_middle::ty::print::{with_no_trimmed_paths, with_resolve_crate_name};
use rustc_middle::ty::{self, Instance, Ty, TyCtxt};
use std::fmt::Write as _;
use std::sync::{Mutex, OnceLock};

static OUT: Mutex<Vec<String>> = Mutex::new(Vec::new());
type Prov = for<'tcx> fn(TyCtxt<'tcx>, LocalDefId) -> &'tcx rustc_data_structures::steal::Steal<Body<'tcx>>;
static ORIG: OnceLock<usize> = OnceLock::new();

fn js(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 || c as u32 == 127 => { let _ = write!(o, "\\u{:04x}", c as u32); }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn jl(v: impl IntoIterator<Item = String>) -> String {
    format!("[{}]", v.into_iter().collect::<Vec<_>>().join(","))
}
fn path(tcx: TyCtxt<'_>, d: DefId) -> String {
    with_resolve_crate_name!(with_no_trimmed_paths!(tcx.def_path_str(d)))
}
fn tys(t: Ty<'_>) -> String {
    with_resolve_crate_name!(with_no_trimmed_paths!(t.to_string()))
}
fn loc(tcx: TyCtxt<'_>, sp: rustc_span::Span) -> (String, usize, usize) {
    let sp = sp.source_callsite();
    let p = tcx.sess.source_map().lookup_char_pos(sp.lo());
    let q = tcx.sess.source_map().lookup_char_pos(sp.hi());
    (p.file.name.prefer_local_unconditionally().to_string(), p.line, q.line)
}

struct D<'a, 'tcx> {
    tcx: TyCtxt<'tcx>,
    body: &'a Body<'tcx>,
    did: DefId,
    env: ty::TypingEnv<'tcx>,
}
impl<'a, 'tcx> D<'a, 'tcx> {
    fn place(&self, p: &Place<'tcx>) -> String {
        let tcx = self.tcx;
        let mut out = vec![p.local.as_usize().to_string()];
        let mut pt = PlaceTy::from_ty(self.body.local_decls[p.local].ty);
        for e in p.projection.iter() {
            let s = match e {
                ProjectionElem::Deref => "[\"d\"]".to_string(),
                ProjectionElem::Field(f, _) => {
                    let (name, owner) = match pt.ty.kind() {
                        ty::Adt(def, _) => {
                            let v = match pt.variant_index {
                                Some(v) => Some(def.variant(v)),
                                None if def.is_enum() => None,
                                None => Some(def.non_enum_variant()),
                            };
                            match v {
                                Some(v) => (v.fields[f].name.to_string(), path(tcx, def.did())),
                                None => (f.as_usize().to_string(), String::new()),
                            }
                        }
                        ty::Closure(d, _) | ty::Coroutine(d, _) => (f.as_usize().to_string(), path(tcx, *d)),
                        _ => (f.as_usize().to_string(), String::new()),
                    };
                    format!("[\"f\",{},{},{}]", js(&name), f.as_usize(), js(&owner))
                }
                ProjectionElem::Index(l) => format!("[\"i\",{}]", l.as_usize()),
                ProjectionElem::ConstantIndex { offset, min_length, from_end } => format!("[\"ci\",{},{},{}]", offset, min_length, from_end as u8),
                ProjectionElem::Subslice { from, to, from_end } => format!("[\"sub\",{},{},{}]", from, to, from_end as u8),
                ProjectionElem::Downcast(_, v) => {
                    let n = match pt.ty.kind() { ty::Adt(def, _) => def.variant(v).name.to_string(), _ => v.as_usize().to_string() };
                    format!("[\"v\",{}]", js(&n))
                }
                _ => "[\"?\"]".to_string(),
            };
            out.push(s);
            pt = pt.projection_ty(tcx, e);
        }
        jl(out)
    }
    fn fnref(&self, d: DefId, args: ty::GenericArgsRef<'tcx>) -> String {
        let tcx = self.tcx;
        let o = path(tcx, d);
        let mut f = o.clone();
        let mut kind = "";
        let mut rd = d;
        if let Ok(Some(inst)) = Instance::try_resolve(tcx, self.env, d, tcx.erase_and_anonymize_regions(args)) {
            rd = inst.def_id();
            f = path(tcx, rd);
            kind = match inst.def {
                ty::InstanceKind::Item(_) => "item",
                ty::InstanceKind::Virtual(..) => "virtual",
                ty::InstanceKind::Intrinsic(_) => "intrinsic",
                _ => "shim",
            };
        }
        let g = jl(args.iter().map(|a| js(&with_resolve_crate_name!(with_no_trimmed_paths!(a.to_string())))));
        let tr = tcx.trait_of_assoc(d).map(|t| path(tcx, t)).unwrap_or_default();
        format!("{{\"f\":{},\"o\":{},\"g\":{},\"l\":{},\"k\":{},\"t\":{}}}", js(&f), js(&o), g, rd.is_local() as u8, js(kind), js(&tr))
    }
    fn konst(&self, c: &ConstOperand<'tcx>) -> String {
        let tcx = self.tcx;
        let t = c.const_.ty();
        match t.kind() {
            ty::FnDef(d, args) => return format!("{{\"k\":\"fn\",\"fn\":{}}}", self.fnref(*d, args.skip_binder())),
            _ => {}
        }
        let mut extra = String::new();
        if let Const::Unevaluated(u, _) = c.const_ {
            extra = match u.promoted {
                Some(p) => format!(",\"prom\":{}", js(&format!("{}::{{promoted#{}}}", path(tcx, u.def), p.as_usize()))),
                None => format!(",\"def\":{}", js(&path(tcx, u.def))),
            };
        }
        let mut val = String::new();
        if t.is_integral() || t.is_bool() || t.is_char() {
            if let Some(b) = c.const_.try_eval_bits(tcx, self.env) {
                val = if let ty::Int(it) = t.kind() {
                    let bits = it.bit_width().unwrap_or(64);
                    let sh = 128 - bits as u32;
                    format!(",\"v\":{}", ((b << sh) as i128) >> sh)
                } else { format!(",\"v\":{}", b) };
            }
        } else if !matches!(c.const_, Const::Ty(..)) && !extra.contains("prom") {
            if let Ok(v) = c.const_.eval(tcx, self.env, c.span) {
                let is_str = match t.kind() { ty::Ref(_, i, _) => i.is_str() || matches!(i.kind(), ty::Slice(x) if x.is_integral()), _ => false };
                if is_str {
                    if let Some(b) = v.try_get_slice_bytes_for_diagnostics(tcx) {
                        val = format!(",\"s\":{}", js(&String::from_utf8_lossy(b)));
                    }
                }
            }
        }
        format!("{{\"k\":\"c\",\"ty\":{}{}{}}}", js(&tys(t)), val, extra)
    }
    fn op(&self, o: &Operand<'tcx>) -> String {
        match o {
            Operand::Copy(p) => format!("{{\"k\":\"cp\",\"p\":{}}}", self.place(p)),
            Operand::Move(p) => format!("{{\"k\":\"mv\",\"p\":{}}}", self.place(p)),
            Operand::Constant(c) => self.konst(c),
            _ => "{\"k\":\"rt\"}".to_string(),
        }
    }
    fn rv(&self, r: &Rvalue<'tcx>) -> String {
        let tcx = self.tcx;
        match r {
            Rvalue::Use(o, _) => format!("{{\"r\":\"use\",\"o\":{}}}", self.op(o)),
            Rvalue::Repeat(o, n) => format!("{{\"r\":\"repeat\",\"o\":{},\"n\":{}}}", self.op(o), js(&n.to_string())),
            Rvalue::Ref(_, bk, p) => format!("{{\"r\":\"ref\",\"m\":{},\"p\":{}}}", matches!(bk, BorrowKind::Mut { .. }) as u8, self.place(p)),
            Rvalue::RawPtr(k, p) => format!("{{\"r\":\"ref\",\"raw\":1,\"m\":{},\"p\":{}}}", matches!(k, RawPtrKind::Mut) as u8, self.place(p)),
            Rvalue::Reborrow(_, m, p) => format!("{{\"r\":\"ref\",\"m\":{},\"p\":{}}}", m.is_mut() as u8, self.place(p)),
            Rvalue::Cast(k, o, t) => format!("{{\"r\":\"cast\",\"ck\":{},\"o\":{},\"from\":{},\"ty\":{}}}", js(&format!("{:?}", k)), self.op(o), js(&tys(o.ty(self.body, tcx))), js(&tys(*t))),
            Rvalue::BinaryOp(b, x) => format!("{{\"r\":\"bin\",\"op\":{},\"a\":{},\"b\":{},\"ty\":{}}}", js(&format!("{:?}", b)), self.op(&x.0), self.op(&x.1), js(&tys(x.0.ty(self.body, tcx)))),
            Rvalue::UnaryOp(u, o) => format!("{{\"r\":\"un\",\"op\":{},\"o\":{}}}", js(&format!("{:?}", u)), self.op(o)),
            Rvalue::Discriminant(p) => {
                let t = p.ty(self.body, tcx).ty;
                // the variants of a foreign enum
                let vn = match t.kind() {
                    rustc_middle::ty::Adt(d, _) if d.is_enum() && !d.did().is_local() && !matches!(tcx.crate_name(d.did().krate).as_str(), "std" | "core" | "alloc") => {
                        let vs = jl(d.variants().iter_enumerated().map(|(vi, v)| format!("[{},{}]", d.discriminant_for_variant(tcx, vi).val, js(v.name.as_str()))));
                        format!(",\"vn\":{}", vs)
                    }
                    _ => String::new(),
                };
                format!("{{\"r\":\"discr\",\"p\":{},\"ty\":{}{}}}", self.place(p), js(&tys(t)), vn)
            }
            Rvalue::CopyForDeref(p) => format!("{{\"r\":\"use\",\"o\":{{\"k\":\"cp\",\"p\":{}}}}}", self.place(p)),
            Rvalue::Aggregate(k, ops) => {
                let ops = jl(ops.iter().map(|o| self.op(o)));
                match &**k {
                    AggregateKind::Array(_) => format!("{{\"r\":\"agg\",\"a\":\"array\",\"ops\":{}}}", ops),
                    AggregateKind::Tuple => format!("{{\"r\":\"agg\",\"a\":\"tuple\",\"ops\":{}}}", ops),
                    AggregateKind::Adt(d, v, _, _, _) => {
                        let def = tcx.adt_def(*d);
                        let vd = def.variant(*v);
                        format!("{{\"r\":\"agg\",\"a\":\"adt\",\"adt\":{},\"v\":{},\"fs\":{},\"ops\":{}}}", js(&path(tcx, *d)), js(vd.name.as_str()), jl(vd.fields.iter().map(|f| js(f.name.as_str()))), ops)
                    }
                    AggregateKind::Closure(d, _) | AggregateKind::Coroutine(d, _) | AggregateKind::CoroutineClosure(d, _) =>
                        format!("{{\"r\":\"agg\",\"a\":\"closure\",\"c\":{},\"ops\":{}}}", js(&path(tcx, *d)), ops),
                    AggregateKind::RawPtr(..) => format!("{{\"r\":\"agg\",\"a\":\"rawptr\",\"ops\":{}}}", ops),
                }
            }
            _ => format!("{{\"r\":\"other\",\"d\":{}}}", js(&format!("{:?}", r))),
        }
    }
    fn line(&self, sp: rustc_span::Span) -> usize { loc(self.tcx, sp).1 }
    fn dump(&self, id: &str, phase: &str) -> String {
        let tcx = self.tcx;
        let body = self.body;
        let (file, l0, l1) = loc(tcx, tcx.def_span(self.did));
        let (_, _, bl1) = loc(tcx, body.span);
        let locals = jl(body.local_decls.iter().map(|d| js(&tys(d.ty))));
        let dbg = jl(body.var_debug_info.iter().filter_map(|v| match &v.value {
            VarDebugInfoContents::Place(p) => Some(format!("[{},{}]", js(v.name.as_str()), self.place(p))),
            _ => None,
        }));
        let mut blocks = Vec::new();
        for bb in body.basic_blocks.iter() {
            let mut st = Vec::new();
            for s in &bb.statements {
                let ln = self.line(s.source_info.span);
                match &s.kind {
                    StatementKind::Assign(b) => st.push(format!("[\"=\",{},{},{}]", self.place(&b.0), self.rv(&b.1), ln)),
                    StatementKind::SetDiscriminant { place, variant_index } => st.push(format!("[\"sd\",{},{},{}]", self.place(place), variant_index.as_usize(), ln)),
                    StatementKind::StorageDead(l) => st.push(format!("[\"dead\",{}]", l.as_usize())),
                    _ => {}
                }
            }
            let t = bb.terminator();
            let ln = self.line(t.source_info.span);
            let uw = |u: &UnwindAction| match u { UnwindAction::Cleanup(b) => b.as_usize().to_string(), _ => "null".into() };
            let ts = match &t.kind {
                TerminatorKind::Goto { target, .. } => format!("{{\"t\":\"goto\",\"to\":{}}}", target.as_usize()),
                TerminatorKind::FalseEdge { real_target, .. } | TerminatorKind::FalseUnwind { real_target, .. } => format!("{{\"t\":\"goto\",\"to\":{}}}", real_target.as_usize()),
                TerminatorKind::SwitchInt { discr, targets } => {
                    let dt = discr.ty(body, tcx);
                    let bits = match dt.kind() { ty::Int(it) => it.bit_width().unwrap_or(64) as u32, _ => 128 };
                    let sg = matches!(dt.kind(), ty::Int(_));
                    format!("{{\"t\":\"switch\",\"d\":{},\"ty\":{},\"vs\":{},\"else\":{},\"ln\":{}}}", self.op(discr), js(&tys(dt)),
                        jl(targets.iter().map(|(v, b)| { let v = if sg { (((v << (128 - bits)) as i128) >> (128 - bits)).to_string() } else { v.to_string() }; format!("[{},{}]", v, b.as_usize()) })), targets.otherwise().as_usize(), ln)
                }
                TerminatorKind::Return => format!("{{\"t\":\"ret\",\"ln\":{}}}", ln),
                TerminatorKind::Drop { place, target, unwind, .. } => format!("{{\"t\":\"drop\",\"p\":{},\"to\":{},\"uw\":{},\"ln\":{}}}", self.place(place), target.as_usize(), uw(unwind), ln),
                TerminatorKind::Call { func, args, destination, target, unwind, .. } => {
                    let f = match func {
                        Operand::Constant(c) => match c.const_.ty().kind() { ty::FnDef(d, a) => self.fnref(*d, a.skip_binder()), _ => "null".into() },
                        _ => "null".into(),
                    };
                    let fo = if f == "null" { self.op(func) } else { "null".into() };
                    format!("{{\"t\":\"call\",\"f\":{},\"fo\":{},\"args\":{},\"d\":{},\"to\":{},\"uw\":{},\"ln\":{},\"x\":{}}}", f, fo, jl(args.iter().map(|a| self.op(&a.node))), self.place(destination),
                        target.map(|b| b.as_usize().to_string()).unwrap_or("null".into()), uw(unwind), ln, t.source_info.span.from_expansion() as u8)
                }
                TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                    let (k, ops) = match &**msg {
                        AssertKind::BoundsCheck { len, index } => ("bounds".to_string(), jl([self.op(len), self.op(index)])),
                        AssertKind::Overflow(b, x, y) => (format!("overflow:{:?}", b), jl([self.op(x), self.op(y)])),
                        AssertKind::OverflowNeg(x) => ("overflow:Neg".to_string(), jl([self.op(x)])),
                        AssertKind::DivisionByZero(x) => ("div0".to_string(), jl([self.op(x)])),
                        AssertKind::RemainderByZero(x) => ("rem0".to_string(), jl([self.op(x)])),
                        AssertKind::ResumedAfterReturn(_) | AssertKind::ResumedAfterPanic(_) | AssertKind::ResumedAfterDrop(_) => ("resume".to_string(), "[]".into()),
                        AssertKind::MisalignedPointerDereference { .. } | AssertKind::NullPointerDereference => ("ptr".to_string(), "[]".into()),
                        _ => ("other".to_string(), "[]".into()),
                    };
                    format!("{{\"t\":\"assert\",\"c\":{},\"e\":{},\"m\":{},\"ops\":{},\"to\":{},\"ln\":{}}}", self.op(cond), *expected as u8, js(&k), ops, target.as_usize(), ln)
                }
                TerminatorKind::Yield { resume, drop, .. } => format!("{{\"t\":\"yield\",\"to\":{},\"drop\":{},\"ln\":{}}}", resume.as_usize(), drop.map(|b| b.as_usize().to_string()).unwrap_or("null".into()), ln),
                TerminatorKind::UnwindResume => "{\"t\":\"resume\"}".into(),
                TerminatorKind::Unreachable => format!("{{\"t\":\"unreachable\",\"ln\":{}}}", ln),
                k => format!("{{\"t\":\"other\",\"d\":{}}}", js(&format!("{:?}", std::mem::discriminant(k)))),
            };
            blocks.push(format!("{{\"s\":{},\"t\":{},\"c\":{}}}", jl(st), ts, bb.is_cleanup as u8));
        }
        let parent = tcx.opt_parent(self.did).map(|p| path(tcx, p)).unwrap_or_default();
        let dk = tcx.def_kind(self.did);
        let mut meta = String::new();
        if matches!(dk, DefKind::Fn | DefKind::AssocFn) {
            let sig = tcx.fn_sig(self.did).instantiate_identity().skip_norm_wip().skip_binder();
            let _ = write!(meta, ",\"vis\":{},\"abi\":{},\"unsafe\":{},\"asyncness\":{},\"ret\":{}", js(&format!("{:?}", tcx.visibility(self.did)).split('(').next().unwrap_or("")),
                js(&format!("{:?}", sig.abi())), (!sig.safety().is_safe()) as u8, tcx.asyncness(self.did).is_async() as u8, js(&tys(sig.output())));
            if let Some(im) = tcx.impl_of_assoc(self.did) {
                let _ = write!(meta, ",\"implty\":{}", js(&tys(tcx.type_of(im).instantiate_identity().skip_norm_wip())));
                if let Some(tr) = tcx.impl_opt_trait_ref(im) { let _ = write!(meta, ",\"trait\":{}", js(&with_resolve_crate_name!(with_no_trimmed_paths!(tr.instantiate_identity().skip_norm_wip().to_string())))); }
            }
        }
        let lastmod = { let sp = tcx.def_span(self.did); sp.from_expansion() };
        format!("{{\"kind\":\"fn\",\"id\":{},\"dk\":{},\"phase\":{},\"parent\":{},\"file\":{},\"l0\":{},\"l1\":{},\"mac\":{},\"nargs\":{},\"locals\":{},\"dbg\":{},\"blocks\":{}{}}}",
            js(id), js(&format!("{:?}", dk)), js(phase), js(&parent), js(&file), l0, l1.max(bl1), lastmod as u8, body.arg_count, locals, dbg, jl(blocks), meta)
    }
}

fn dump_body<'tcx>(tcx: TyCtxt<'tcx>, did: LocalDefId, body: &Body<'tcx>, phase: &str) {
    let d = D { tcx, body, did: did.to_def_id(), env: ty::TypingEnv::post_analysis(tcx, did.to_def_id()) };
    let s = d.dump(&path(tcx, did.to_def_id()), phase);
    OUT.lock().unwrap().push(s);
}
fn dump_promoted<'tcx>(tcx: TyCtxt<'tcx>, did: LocalDefId, prom: &rustc_index::IndexVec<Promoted, Body<'tcx>>) {
    for (p, body) in prom.iter_enumerated() {
        let d = D { tcx, body, did: did.to_def_id(), env: ty::TypingEnv::post_analysis(tcx, did.to_def_id()) };
        let s = d.dump(&format!("{}::{{promoted#{}}}", path(tcx, did.to_def_id()), p.as_usize()), "promoted");
        OUT.lock().unwrap().push(s);
    }
}
extern crate rustc_index;

fn my_mir<'tcx>(tcx: TyCtxt<'tcx>, did: LocalDefId) -> &'tcx rustc_data_structures::steal::Steal<Body<'tcx>> {
    let co = tcx.is_coroutine(did.to_def_id());
    {
        let (b, p) = tcx.mir_promoted(did);
        if !p.is_stolen() { dump_promoted(tcx, did, &p.borrow()); }
        if co && !b.is_stolen() { dump_body(tcx, did, &b.borrow(), "coroutine"); }
    }
    let orig: Prov = unsafe { std::mem::transmute::<usize, Prov>(*ORIG.get().unwrap()) };
    let r = orig(tcx, did);
    if !co { dump_body(tcx, did, &r.borrow(), "elaborated"); }
    r
}

struct Cb;
impl rustc_driver::Callbacks for Cb {
    fn config(&mut self, config: &mut rustc_interface::Config) {
        config.override_queries = Some(|_s, p| {
            let _ = ORIG.set(p.queries.mir_drops_elaborated_and_const_checked as usize);
            p.queries.mir_drops_elaborated_and_const_checked = my_mir;
        });
    }
    fn after_analysis<'tcx>(&mut self, _c: &rustc_interface::interface::Compiler, tcx: TyCtxt<'tcx>) -> rustc_driver::Compilation {
        for did in tcx.hir_body_owners() {
            let _ = tcx.mir_drops_elaborated_and_const_checked(did);
        }
        let krate = tcx.crate_name(rustc_span::def_id::LOCAL_CRATE).to_string();
        let mut out: Vec<String> = std::mem::take(&mut *OUT.lock().unwrap());
        for id in tcx.hir_crate_items(()).definitions() {
            let d = id.to_def_id();
            match tcx.def_kind(d) {
                DefKind::Struct | DefKind::Enum | DefKind::Union => {
                    let def = tcx.adt_def(d);
                    let mut vs = Vec::new();
                    for (vi, v) in def.variants().iter_enumerated() {
                        let dv = if def.is_enum() { def.discriminant_for_variant(tcx, vi).val.to_string() } else { "0".into() };
                        let fs = jl(v.fields.iter().map(|f| format!("[{},{},{}]", js(f.name.as_str()), js(&tys(tcx.type_of(f.did).instantiate_identity().skip_norm_wip())), js(&format!("{:?}", f.vis).split('(').next().unwrap()))));
                        vs.push(format!("{{\"n\":{},\"d\":{},\"fs\":{}}}", js(v.name.as_str()), dv, fs));
                    }
                    let (file, l0, _) = loc(tcx, tcx.def_span(d));
                    out.push(format!("{{\"kind\":\"adt\",\"id\":{},\"enum\":{},\"vs\":{},\"file\":{},\"l0\":{},\"vis\":{}}}", js(&path(tcx, d)), def.is_enum() as u8, jl(vs), js(&file), l0, js(&format!("{:?}", tcx.visibility(d)).split('(').next().unwrap())));
                }
                DefKind::Impl { .. } => {
                    let self_ty = tys(tcx.type_of(d).instantiate_identity().skip_norm_wip());
                    let tr = tcx.impl_opt_trait_ref(d).map(|t| with_resolve_crate_name!(with_no_trimmed_paths!(t.instantiate_identity().skip_norm_wip().to_string()))).unwrap_or_default();
                    let items = jl(tcx.associated_item_def_ids(d).iter().map(|i| js(&path(tcx, *i))));
                    out.push(format!("{{\"kind\":\"impl\",\"ty\":{},\"trait\":{},\"items\":{}}}", js(&self_ty), js(&tr), items));
                }
                DefKind::Mod => {
                    for ch in tcx.module_children_local(id) {
                        if let rustc_hir::def::Res::Def(DefKind::Struct | DefKind::Enum | DefKind::Union | DefKind::Trait, to) = ch.res {
                            out.push(format!("{{\"kind\":\"reexport\",\"id\":{},\"to\":{}}}", js(&format!("{}::{}", path(tcx, d), ch.ident.name)), js(&path(tcx, to))));
                        }
                    }
                }
                _ => {}
            }
        }
        let dir = std::env::var("SA_FACTS_DIR").expect("SA_FACTS_DIR");
        let kind = if tcx.crate_types().iter().any(|t| matches!(t, rustc_structures::CrateType::Executable)) { "bin" } else { "lib" };
        std::fs::write(format!("{}/{}.{}.jsonl", dir, krate, kind), out.join("\n") + "\n").unwrap();
        rustc_driver::Compilation::Continue
    }
}
extern crate rustc_structures;
extern crate rustc_data_structures;


fn main() {
    let mut args: Vec<String> = std::env::args().collect();
    args.remove(0); // the driver; args[0] is now the path of rustc
    let is_build = args.iter().any(|a| a == "build_script_build") || !args.iter().any(|a| a == "--crate-name");
    if is_build || std::env::var("SA_FACTS_DIR").is_err() {
        let st = std::process::Command::new(&args[0]).args(&args[1..]).status().expect("rustc");
        std::process::exit(st.code().unwrap_or(1));
    }
    rustc_driver::compiler_entrypoint(&args, &mut Cb);
}

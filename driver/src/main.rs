//! rustc driver used as RUSTC_WORKSPACE_WRAPPER: compiles like rustc, and for the
//! library target of the analysed crate dumps every MIR body (resolved callees,
//! evaluated constants, types, spans), ADTs, impls, traits and statics as JSON.
#![feature(rustc_private)]
extern crate rustc_abi;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_index;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_span;

use rustc_driver::Compilation;
use rustc_hir::def::DefKind;
use rustc_hir::def_id::DefId;
use rustc_middle::mir::*;
use rustc_middle::ty::{self, Ty, TyCtxt, TypingEnv};
use rustc_span::Span;
use std::collections::HashMap;
use std::fmt::Write as _;

fn esc(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            c if (c as u32) < 0x20 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn list<T>(it: impl IntoIterator<Item = T>, mut f: impl FnMut(T) -> String) -> String {
    let v: Vec<String> = it.into_iter().map(|x| f(x)).collect();
    format!("[{}]", v.join(","))
}

struct Cx<'tcx> {
    tcx: TyCtxt<'tcx>,
    tys: HashMap<Ty<'tcx>, usize>,
    ty_out: Vec<String>,
    adts: Vec<DefId>,
}

impl<'tcx> Cx<'tcx> {
    fn path(&self, d: DefId) -> String {
        ty::print::with_no_trimmed_paths!(self.tcx.def_path_str(d))
    }
    fn key(&self, d: DefId) -> String {
        format!("{}{}", self.tcx.crate_name(d.krate), self.tcx.def_path(d).to_string_no_crate_verbose())
    }
    fn span(&self, sp: Span) -> String {
        let sp = sp.source_callsite();
        let sm = self.tcx.sess.source_map();
        let lo = sm.lookup_char_pos(sp.lo());
        let hi = sm.lookup_char_pos(sp.hi());
        let f = format!("{}", lo.file.name.prefer_local_unconditionally());
        format!("[{},{},{},{}]", esc(&f), lo.line, lo.col.0 + 1, hi.line)
    }
    fn adt_ref(&mut self, d: DefId) {
        if !self.adts.contains(&d) {
            self.adts.push(d);
        }
    }
    fn generic_args(&mut self, args: ty::GenericArgsRef<'tcx>) -> String {
        let mut v = Vec::new();
        for a in args.iter() {
            if let Some(t) = a.as_type() {
                v.push(self.ty(t).to_string());
            } else if let Some(c) = a.as_const() {
                v.push(esc(&format!("const {}", c)));
            }
        }
        format!("[{}]", v.join(","))
    }
    fn ty(&mut self, t: Ty<'tcx>) -> usize {
        if let Some(&i) = self.tys.get(&t) {
            return i;
        }
        let i = self.ty_out.len();
        self.tys.insert(t, i);
        self.ty_out.push(String::new());
        let s = ty::print::with_no_trimmed_paths!(format!("{}", t));
        let body = match *t.kind() {
            ty::Adt(def, args) => {
                self.adt_ref(def.did());
                let a = self.generic_args(args);
                format!("\"k\":\"adt\",\"n\":{},\"a\":{}", esc(&self.path(def.did())), a)
            }
            ty::Ref(_, t, m) => format!("\"k\":\"ref\",\"m\":{},\"t\":{}", m.is_mut(), self.ty(t)),
            ty::RawPtr(t, m) => format!("\"k\":\"ptr\",\"m\":{},\"t\":{}", m.is_mut(), self.ty(t)),
            ty::Tuple(ts) => {
                let a = list(ts.iter(), |t| self.ty(t).to_string());
                format!("\"k\":\"tuple\",\"a\":{}", a)
            }
            ty::Slice(t) => format!("\"k\":\"slice\",\"t\":{}", self.ty(t)),
            ty::Array(t, n) => {
                let t = self.ty(t);
                format!("\"k\":\"array\",\"t\":{},\"len\":{}", t, esc(&format!("{}", n)))
            }
            ty::Closure(d, args) => {
                let up = list(args.as_closure().upvar_tys().iter(), |t| self.ty(t).to_string());
                format!("\"k\":\"closure\",\"key\":{},\"up\":{}", esc(&self.key(d)), up)
            }
            ty::FnDef(d, args) => {
                let a = self.generic_args(args.skip_binder());
                format!("\"k\":\"fndef\",\"path\":{},\"key\":{},\"a\":{}", esc(&self.path(d)), esc(&self.key(d)), a)
            }
            ty::Param(p) => format!("\"k\":\"param\",\"n\":{}", esc(p.name.as_str())),
            ty::Dynamic(preds, _) => {
                let n = preds.principal_def_id().map(|d| self.path(d)).unwrap_or_default();
                format!("\"k\":\"dyn\",\"n\":{}", esc(&n))
            }
            ty::Alias(..) => "\"k\":\"alias\"".to_string(),
            ty::FnPtr(..) => "\"k\":\"fnptr\"".to_string(),
            _ => "\"k\":\"prim\"".to_string(),
        };
        self.ty_out[i] = format!("{{\"s\":{},{}}}", esc(&s), body);
        i
    }
    fn place(&mut self, body: &Body<'tcx>, p: &Place<'tcx>) -> String {
        let mut out = Vec::new();
        for (base, el) in p.iter_projections() {
            let s = match el {
                ProjectionElem::Deref => "[\"deref\"]".to_string(),
                ProjectionElem::Field(f, t) => {
                    let pt = base.ty(&body.local_decls, self.tcx);
                    let name = match pt.ty.kind() {
                        ty::Adt(def, _) => {
                            let vi = pt.variant_index.unwrap_or(rustc_abi::FIRST_VARIANT);
                            if def.is_enum() || def.is_struct() || def.is_union() {
                                def.variant(vi).fields[f].name.to_string()
                            } else {
                                f.as_usize().to_string()
                            }
                        }
                        _ => f.as_usize().to_string(),
                    };
                    format!("[\"field\",{},{},{}]", f.as_usize(), esc(&name), self.ty(t))
                }
                ProjectionElem::Index(l) => format!("[\"index\",{}]", l.as_usize()),
                ProjectionElem::ConstantIndex { offset, min_length, from_end } => {
                    format!("[\"cidx\",{},{},{}]", offset, min_length, from_end)
                }
                ProjectionElem::Subslice { from, to, from_end } => {
                    format!("[\"subslice\",{},{},{}]", from, to, from_end)
                }
                ProjectionElem::Downcast(n, v) => format!(
                    "[\"downcast\",{},{}]",
                    v.as_usize(),
                    esc(&n.map(|s| s.to_string()).unwrap_or_default())
                ),
                _ => "[\"other\"]".to_string(),
            };
            out.push(s);
        }
        format!("{{\"l\":{},\"p\":[{}]}}", p.local.as_usize(), out.join(","))
    }
    fn bytes_of_alloc(&self, id: interpret::AllocId, start: usize, len: Option<usize>) -> Option<Vec<u8>> {
        match self.tcx.global_alloc(id) {
            interpret::GlobalAlloc::Memory(m) => {
                let a = m.inner();
                let end = len.map(|l| start + l).unwrap_or(a.len());
                if end > a.len() {
                    return None;
                }
                Some(a.inspect_with_uninit_and_ptr_outside_interpreter(start..end).to_vec())
            }
            _ => None,
        }
    }
    fn callee(&mut self, owner: DefId, d: DefId, args: ty::GenericArgsRef<'tcx>) -> String {
        let tcx = self.tcx;
        let mut s = format!(
            "\"path\":{},\"key\":{},\"name\":{},\"local\":{},\"args\":{}",
            esc(&self.path(d)),
            esc(&self.key(d)),
            esc(tcx.item_name(d).as_str()),
            d.is_local(),
            self.generic_args(args)
        );
        let full = ty::print::with_no_trimmed_paths!(tcx.def_path_str_with_args(d, args));
        let _ = write!(s, ",\"full\":{}", esc(&full));
        if let Some(tr) = tcx.trait_of_assoc(d) {
            let st = args.type_at(0);
            let _ = write!(s, ",\"trait\":{},\"self_ty\":{}", esc(&self.path(tr)), self.ty(st));
        } else if let Some(im) = tcx.inherent_impl_of_assoc(d) {
            let st = tcx.type_of(im).instantiate_identity().skip_normalization();
            let _ = write!(s, ",\"impl_self\":{}", self.ty(st));
        }
        let env = TypingEnv::post_analysis(tcx, owner);
        let args2 = tcx.normalize_erasing_regions(env, ty::Unnormalized::new_wip(args));
        match ty::Instance::try_resolve(tcx, env, d, args2) {
            Ok(Some(inst)) => {
                let k = match inst.def {
                    ty::InstanceKind::Item(_) => "item",
                    ty::InstanceKind::Virtual(..) => "virtual",
                    ty::InstanceKind::Intrinsic(..) => "intrinsic",
                    _ => "shim",
                };
                let rd = inst.def_id();
                let _ = write!(
                    s,
                    ",\"res\":{{\"k\":\"{}\",\"path\":{},\"key\":{},\"local\":{},\"args\":{}}}",
                    k,
                    esc(&self.path(rd)),
                    esc(&self.key(rd)),
                    rd.is_local(),
                    self.generic_args(inst.args)
                );
            }
            _ => {}
        }
        format!("{{{}}}", s)
    }
    fn constant(&mut self, owner: DefId, c: &ConstOperand<'tcx>) -> String {
        let tcx = self.tcx;
        let t = c.const_.ty();
        let mut s = format!("\"ty\":{}", self.ty(t));
        if let ty::FnDef(d, args) = *t.kind() {
            let _ = write!(s, ",\"fn\":{}", self.callee(owner, d, args.skip_binder()));
            return format!("{{{}}}", s);
        }
        if let Const::Unevaluated(u, _) = c.const_ {
            if let Some(p) = u.promoted {
                let _ = write!(s, ",\"promoted\":{},\"owner\":{}", p.as_usize(), esc(&self.key(u.def)));
            } else {
                let _ = write!(s, ",\"named\":{}", esc(&self.path(u.def)));
            }
        }
        let env = TypingEnv::post_analysis(tcx, owner);
        let cv = c.const_.eval(tcx, env, c.span).ok();
        if let Some(cv) = cv {
            match cv {
                ConstValue::ZeroSized => s.push_str(",\"zst\":true"),
                ConstValue::Scalar(interpret::Scalar::Int(i)) => {
                    let _ = write!(s, ",\"bits\":\"{}\",\"size\":{}", i.to_bits_unchecked(), i.size().bytes());
                }
                ConstValue::Scalar(interpret::Scalar::Ptr(p, _)) => {
                    let (prov, off) = p.prov_and_relative_offset();
                    let id = prov.alloc_id();
                    match tcx.global_alloc(id) {
                        interpret::GlobalAlloc::Static(d) => {
                            let _ = write!(s, ",\"static\":{}", esc(&self.path(d)));
                        }
                        interpret::GlobalAlloc::Function { instance } => {
                            let _ = write!(s, ",\"fnptr\":{}", esc(&self.path(instance.def_id())));
                        }
                        _ => {
                            if let Some(b) = self.bytes_of_alloc(id, off.bytes_usize(), None) {
                                let _ = write!(s, ",\"bytes\":{}", list(b, |x| x.to_string()));
                            }
                        }
                    }
                }
                ConstValue::Slice { alloc_id, meta } => {
                    if let Some(b) = self.bytes_of_alloc(alloc_id, 0, Some(meta as usize)) {
                        let _ = write!(s, ",\"bytes\":{}", list(b, |x| x.to_string()));
                    }
                }
                ConstValue::Indirect { alloc_id, offset } => {
                    let sz = tcx.layout_of(env.as_query_input(t)).ok().map(|l| l.size.bytes_usize());
                    if let Some(b) = self.bytes_of_alloc(alloc_id, offset.bytes_usize(), sz) {
                        let _ = write!(s, ",\"raw\":{}", list(b, |x| x.to_string()));
                    }
                    if t.is_ref() {
                        if let Some(b) = cv.try_get_slice_bytes_for_diagnostics(tcx) {
                            let _ = write!(s, ",\"bytes\":{}", list(b.iter(), |x| x.to_string()));
                        }
                    }
                }
            }
        }
        let txt = ty::print::with_no_trimmed_paths!(format!("{}", c.const_));
        let _ = write!(s, ",\"txt\":{}", esc(&txt));
        format!("{{{}}}", s)
    }
    fn operand(&mut self, owner: DefId, body: &Body<'tcx>, o: &Operand<'tcx>) -> String {
        match o {
            Operand::Copy(p) => format!("{{\"copy\":{}}}", self.place(body, p)),
            Operand::Move(p) => format!("{{\"move\":{}}}", self.place(body, p)),
            Operand::Constant(c) => format!("{{\"const\":{}}}", self.constant(owner, c)),
            #[allow(unreachable_patterns)]
            _ => "{\"rtcheck\":true}".to_string(),
        }
    }
    fn rvalue(&mut self, owner: DefId, body: &Body<'tcx>, r: &Rvalue<'tcx>) -> String {
        match r {
            Rvalue::Use(o, ..) => format!("[\"use\",{}]", self.operand(owner, body, o)),
            Rvalue::Repeat(o, n) => {
                format!("[\"repeat\",{},{}]", self.operand(owner, body, o), esc(&format!("{}", n)))
            }
            Rvalue::Ref(_, bk, p) => format!(
                "[\"ref\",{},{}]",
                matches!(bk, BorrowKind::Mut { .. }),
                self.place(body, p)
            ),
            Rvalue::RawPtr(_, p) => format!("[\"rawptr\",{}]", self.place(body, p)),
            Rvalue::ThreadLocalRef(d) => format!("[\"tls\",{}]", esc(&self.path(*d))),
            Rvalue::Cast(k, o, t) => {
                let op = self.operand(owner, body, o);
                let from = self.ty(o.ty(&body.local_decls, self.tcx));
                format!("[\"cast\",{},{},{},{}]", esc(&format!("{:?}", k)), op, from, self.ty(*t))
            }
            Rvalue::BinaryOp(op, ab) => format!(
                "[\"bin\",{},{},{}]",
                esc(&format!("{:?}", op)),
                self.operand(owner, body, &ab.0),
                self.operand(owner, body, &ab.1)
            ),
            Rvalue::UnaryOp(op, a) => {
                format!("[\"un\",{},{}]", esc(&format!("{:?}", op)), self.operand(owner, body, a))
            }
            Rvalue::Discriminant(p) => format!("[\"discr\",{}]", self.place(body, p)),
            Rvalue::CopyForDeref(p) => format!("[\"use\",{{\"copy\":{}}}]", self.place(body, p)),
            Rvalue::Aggregate(k, ops) => {
                let kind = match &**k {
                    AggregateKind::Array(_) => "{\"k\":\"array\"}".to_string(),
                    AggregateKind::Tuple => "{\"k\":\"tuple\"}".to_string(),
                    AggregateKind::Adt(d, v, _, _, _) => {
                        self.adt_ref(*d);
                        let def = self.tcx.adt_def(*d);
                        let var = def.variant(*v);
                        format!(
                            "{{\"k\":\"adt\",\"n\":{},\"v\":{},\"vn\":{},\"f\":{}}}",
                            esc(&self.path(*d)),
                            v.as_usize(),
                            esc(var.name.as_str()),
                            list(var.fields.iter(), |f| esc(f.name.as_str()))
                        )
                    }
                    AggregateKind::Closure(d, _) => {
                        format!("{{\"k\":\"closure\",\"key\":{}}}", esc(&self.key(*d)))
                    }
                    AggregateKind::RawPtr(..) => "{\"k\":\"rawptr\"}".to_string(),
                    _ => "{\"k\":\"other\"}".to_string(),
                };
                let o = list(ops.iter(), |o| self.operand(owner, body, o));
                format!("[\"agg\",{},{}]", kind, o)
            }
            #[allow(unreachable_patterns)]
            _ => format!("[\"other\",{}]", esc(&format!("{:?}", r))),
        }
    }
    fn body(&mut self, owner: DefId, body: &Body<'tcx>) -> String {
        let mut names: HashMap<usize, String> = HashMap::new();
        let mut upnames = Vec::new();
        for v in &body.var_debug_info {
            if let VarDebugInfoContents::Place(p) = &v.value {
                if p.projection.is_empty() {
                    names.entry(p.local.as_usize()).or_insert(v.name.to_string());
                } else {
                    let pl = self.place(body, p);
                    upnames.push(format!("[{},{}]", esc(v.name.as_str()), pl));
                }
            }
        }
        let mut locals = Vec::new();
        for (l, d) in body.local_decls.iter_enumerated() {
            let n = names.get(&l.as_usize()).map(|s| esc(s)).unwrap_or("null".to_string());
            locals.push(format!("{{\"ty\":{},\"name\":{},\"mut\":{}}}", self.ty(d.ty), n, d.mutability.is_mut()));
        }
        let mut blocks = Vec::new();
        for bd in body.basic_blocks.iter() {
            let mut st = Vec::new();
            for s in &bd.statements {
                match &s.kind {
                    StatementKind::Assign(b) => st.push(format!(
                        "[\"assign\",{},{},{}]",
                        self.place(body, &b.0),
                        self.rvalue(owner, body, &b.1),
                        self.span(s.source_info.span)
                    )),
                    StatementKind::SetDiscriminant { place, variant_index } => st.push(format!(
                        "[\"setdiscr\",{},{}]",
                        self.place(body, place),
                        variant_index.as_usize()
                    )),
                    StatementKind::StorageDead(l) => st.push(format!("[\"dead\",{}]", l.as_usize())),
                    _ => {}
                }
            }
            let t = bd.terminator();
            let sp = self.span(t.source_info.span);
            let term = match &t.kind {
                TerminatorKind::Goto { target, .. } => format!("\"k\":\"goto\",\"t\":{}", target.as_usize()),
                TerminatorKind::SwitchInt { discr, targets } => {
                    let ty = discr.ty(&body.local_decls, self.tcx);
                    let d = self.operand(owner, body, discr);
                    let v = list(targets.iter(), |(v, b)| format!("[\"{}\",{}]", v, b.as_usize()));
                    format!(
                        "\"k\":\"switch\",\"d\":{},\"ty\":{},\"v\":{},\"o\":{}",
                        d,
                        self.ty(ty),
                        v,
                        targets.otherwise().as_usize()
                    )
                }
                TerminatorKind::Return => "\"k\":\"return\"".to_string(),
                TerminatorKind::Unreachable => "\"k\":\"unreachable\"".to_string(),
                TerminatorKind::Drop { place, target, .. } => {
                    let pt = place.ty(&body.local_decls, self.tcx).ty;
                    format!(
                        "\"k\":\"drop\",\"p\":{},\"ty\":{},\"t\":{}",
                        self.place(body, place),
                        self.ty(pt),
                        target.as_usize()
                    )
                }
                TerminatorKind::Call { func, args, destination, target, .. } => {
                    let f = self.operand(owner, body, func);
                    let a = list(args.iter(), |a| self.operand(owner, body, &a.node));
                    let d = self.place(body, destination);
                    let tg = target.map(|t| t.as_usize().to_string()).unwrap_or("null".to_string());
                    format!("\"k\":\"call\",\"f\":{},\"args\":{},\"dest\":{},\"t\":{}", f, a, d, tg)
                }
                TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                    let c = self.operand(owner, body, cond);
                    let (kind, ops): (String, Vec<&Operand<'tcx>>) = match &**msg {
                        AssertKind::BoundsCheck { len, index } => ("bounds".to_string(), vec![len, index]),
                        AssertKind::Overflow(op, a, b) => (format!("overflow_{:?}", op), vec![a, b]),
                        AssertKind::OverflowNeg(a) => ("overflow_neg".to_string(), vec![a]),
                        AssertKind::DivisionByZero(a) => ("div_zero".to_string(), vec![a]),
                        AssertKind::RemainderByZero(a) => ("rem_zero".to_string(), vec![a]),
                        _ => ("other".to_string(), vec![]),
                    };
                    let o = list(ops, |o| self.operand(owner, body, o));
                    format!(
                        "\"k\":\"assert\",\"c\":{},\"e\":{},\"kind\":{},\"ops\":{},\"t\":{}",
                        c,
                        expected,
                        esc(&kind),
                        o,
                        target.as_usize()
                    )
                }
                TerminatorKind::UnwindResume | TerminatorKind::UnwindTerminate(_) => "\"k\":\"resume\"".to_string(),
                TerminatorKind::FalseEdge { real_target, .. } => format!("\"k\":\"goto\",\"t\":{}", real_target.as_usize()),
                TerminatorKind::FalseUnwind { real_target, .. } => {
                    format!("\"k\":\"goto\",\"t\":{}", real_target.as_usize())
                }
                _ => "\"k\":\"other\"".to_string(),
            };
            blocks.push(format!(
                "{{\"cleanup\":{},\"s\":[{}],\"t\":{{{},\"sp\":{}}}}}",
                bd.is_cleanup,
                st.join(","),
                term,
                sp
            ));
        }
        format!(
            "\"argc\":{},\"locals\":[{}],\"upnames\":[{}],\"blocks\":[{}]",
            body.arg_count,
            locals.join(","),
            upnames.join(","),
            blocks.join(",\n")
        )
    }
}

struct Unsafe {
    found: Vec<Span>,
}
impl<'v> rustc_hir::intravisit::Visitor<'v> for Unsafe {
    fn visit_block(&mut self, b: &'v rustc_hir::Block<'v>) {
        if let rustc_hir::BlockCheckMode::UnsafeBlock(rustc_hir::UnsafeSource::UserProvided) = b.rules
            && !b.span.ctxt().outer_expn_data().macro_def_id.is_some_and(|d| !d.is_local())
        {
            self.found.push(b.span);
        }
        rustc_hir::intravisit::walk_block(self, b);
    }
}

fn dump(tcx: TyCtxt<'_>, out: &str) {
    let mut cx = Cx { tcx, tys: HashMap::new(), ty_out: Vec::new(), adts: Vec::new() };
    let mut fns = Vec::new();
    let mut raw = Vec::new();
    for ld in tcx.hir_body_owners() {
        let d = ld.to_def_id();
        let mut v = Unsafe { found: Vec::new() };
        rustc_hir::intravisit::Visitor::visit_body(&mut v, tcx.hir_body_owned_by(ld));
        for sp in v.found {
            raw.push(format!("[{},\"block\",{}]", esc(&cx.path(d)), cx.span(sp)));
        }
        let kind = tcx.def_kind(d);
        let ok = matches!(kind, DefKind::Fn | DefKind::AssocFn | DefKind::Closure);
        if !ok {
            continue;
        }
        let body = tcx.optimized_mir(d);
        let mut s = format!(
            "\"key\":{},\"path\":{},\"kind\":{},\"span\":{}",
            esc(&cx.key(d)),
            esc(&cx.path(d)),
            esc(&format!("{:?}", kind)),
            cx.span(tcx.def_span(d))
        );
        let base = tcx.typeck_root_def_id(d);
        if base != d {
            let _ = write!(s, ",\"root\":{}", esc(&cx.key(base)));
        }
        if let Some(name) = tcx.opt_item_name(d) {
            let _ = write!(s, ",\"name\":{}", esc(name.as_str()));
        }
        if kind != DefKind::Closure && tcx.fn_sig(d).skip_binder().safety().is_unsafe() {
            s.push_str(",\"unsafe\":true");
        }
        let _ = write!(s, ",\"pub\":{}", tcx.effective_visibilities(()).is_reachable(ld));
        if kind != DefKind::Closure {
            if let Some(im) = tcx.impl_of_assoc(d) {
                let st = tcx.type_of(im).instantiate_identity().skip_normalization();
                let _ = write!(s, ",\"self_ty\":{}", cx.ty(st));
                if tcx.impl_is_of_trait(im) {
                    let tr = tcx.impl_trait_ref(im).instantiate_identity().skip_normalization();
                    let _ = write!(s, ",\"trait\":{}", esc(&cx.path(tr.def_id)));
                }
            } else if let Some(tr) = tcx.trait_of_assoc(d) {
                let _ = write!(s, ",\"default_of\":{}", esc(&cx.path(tr)));
            }
        }
        let prom = tcx.promoted_mir(d);
        let p = list(prom.iter(), |b| format!("{{{}}}", cx.body(d, b)));
        let b = cx.body(d, body);
        fns.push(format!("{{{},{},\"promoted\":{}}}", s, b, p));
    }
    // consts/statics, impls, traits
    let mut statics = Vec::new();
    let mut impls = Vec::new();
    let mut traits = Vec::new();
    for id in tcx.hir_crate_items(()).definitions() {
        let d = id.to_def_id();
        match tcx.def_kind(d) {
            DefKind::ForeignMod => raw.push(format!("[{},\"extern\",{}]", esc(&cx.path(d)), cx.span(tcx.def_span(d)))),
            DefKind::Static { mutability, .. } => {
                let t = tcx.type_of(d).instantiate_identity().skip_normalization();
                let fixed = !mutability.is_mut() && t.is_freeze(tcx, TypingEnv::fully_monomorphized());
                let t = cx.ty(t);
                statics.push(format!(
                    "{{\"path\":{},\"ty\":{},\"fixed\":{},\"span\":{}}}",
                    esc(&cx.path(d)),
                    t,
                    fixed,
                    cx.span(tcx.def_span(d))
                ));
            }
            DefKind::Impl { of_trait } => {
                if of_trait && tcx.impl_trait_header(d).safety.is_unsafe() {
                    raw.push(format!("[{},\"impl\",{}]", esc(&cx.path(d)), cx.span(tcx.def_span(d))));
                }
                let st = tcx.type_of(d).instantiate_identity().skip_normalization();
                let st = cx.ty(st);
                let tr = if of_trait {
                    esc(&cx.path(tcx.impl_trait_ref(d).instantiate_identity().skip_normalization().def_id))
                } else {
                    "null".to_string()
                };
                let items = list(tcx.associated_item_def_ids(d).iter(), |i| {
                    format!("[{},{}]", esc(tcx.item_name(*i).as_str()), esc(&cx.key(*i)))
                });
                impls.push(format!(
                    "{{\"self_ty\":{},\"trait\":{},\"items\":{},\"span\":{}}}",
                    st,
                    tr,
                    items,
                    cx.span(tcx.def_span(d))
                ));
            }
            DefKind::Trait => {
                let items = list(tcx.associated_items(d).in_definition_order(), |i| {
                    format!(
                        "[{},{},{},{}]",
                        esc(tcx.item_name(i.def_id).as_str()),
                        esc(&cx.key(i.def_id)),
                        i.defaultness(tcx).has_value(),
                        esc(&format!("{:?}", tcx.def_kind(i.def_id)))
                    )
                });
                traits.push(format!("{{\"path\":{},\"items\":{},\"span\":{}}}", esc(&cx.path(d)), items, cx.span(tcx.def_span(d))));
            }
            _ => {}
        }
    }
    let mut adts = Vec::new();
    let mut i = 0;
    while i < cx.adts.len() {
        let d = cx.adts[i];
        i += 1;
        let def = tcx.adt_def(d);
        let k = if def.is_enum() { "enum" } else if def.is_union() { "union" } else { "struct" };
        let mut vs = Vec::new();
        for v in def.variants().iter() {
            let fs = list(v.fields.iter(), |f| {
                let t = if d.is_local() {
                    let t = tcx.type_of(f.did).instantiate_identity().skip_normalization();
                    cx.ty(t).to_string()
                } else {
                    "null".to_string()
                };
                format!("[{},{}]", esc(f.name.as_str()), t)
            });
            vs.push(format!("{{\"n\":{},\"f\":{}}}", esc(v.name.as_str()), fs));
        }
        let gens = list(tcx.generics_of(d).own_params.iter(), |g| esc(g.name.as_str()));
        adts.push(format!(
            "{{\"path\":{},\"local\":{},\"kind\":\"{}\",\"g\":{},\"variants\":[{}]}}",
            esc(&cx.path(d)),
            d.is_local(),
            k,
            gens,
            vs.join(",")
        ));
    }
    let txt = format!(
        "{{\"crate\":{},\n\"fns\":[\n{}\n],\n\"unsafe\":[{}],\n\"statics\":[{}],\n\"impls\":[{}],\n\"traits\":[{}],\n\"adts\":[{}],\n\"types\":[\n{}\n]}}\n",
        esc(tcx.crate_name(rustc_span::def_id::LOCAL_CRATE).as_str()),
        fns.join(",\n"),
        raw.join(","),
        statics.join(","),
        impls.join(","),
        traits.join(","),
        adts.join(","),
        cx.ty_out.join(",\n")
    );
    std::fs::write(out, txt).expect("write dump");
}

struct Cb {
    out: String,
}
impl rustc_driver::Callbacks for Cb {
    fn after_analysis<'tcx>(&mut self, _c: &rustc_interface::interface::Compiler, tcx: TyCtxt<'tcx>) -> Compilation {
        dump(tcx, &self.out);
        Compilation::Continue
    }
}

struct Plain;
impl rustc_driver::Callbacks for Plain {}

fn main() {
    let mut args: Vec<String> = std::env::args().collect();
    // RUSTC_WORKSPACE_WRAPPER: argv[1] is the real rustc path
    if args.len() > 1 && args[1].ends_with("rustc") {
        args.remove(1);
    }
    let out = std::env::var("GEOM_DUMP").unwrap_or_default();
    let want = std::env::var("GEOM_CRATE").unwrap_or_default();
    let name = args.iter().position(|a| a == "--crate-name").and_then(|i| args.get(i + 1)).cloned().unwrap_or_default();
    let is_lib = args.windows(2).any(|w| w[0] == "--crate-type" && w[1] == "lib");
    let test = args.iter().any(|a| a == "--test");
    if !out.is_empty() && name == want && is_lib && !test {
        args.push("-Zmir-opt-level=0".to_string());
        args.push("-Coverflow-checks=on".to_string());
        let mut cb = Cb { out };
        rustc_driver::compiler_entrypoint(&args, &mut cb);
    } else {
        rustc_driver::compiler_entrypoint(&args, &mut Plain);
    }
}

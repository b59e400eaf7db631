//! mirdump: a rustc driver that writes the MIR of a crate's functions, together with the MIR of
//! every callee it can resolve (generic std code included, instantiated in the type environment of
//! the root function), as JSON.  The analyses in /verif/analysis run over that file.
#![feature(rustc_private)]
extern crate rustc_abi;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_session;
extern crate rustc_span;

use rustc_driver::{Callbacks, Compilation};
use rustc_hir::def::DefKind;
use rustc_hir::def_id::DefId;
use rustc_interface::interface::Compiler;
use rustc_middle::mir::{self, *};
use rustc_middle::ty::{self, GenericArgs, Instance, Ty, TyCtxt, TypingEnv, EarlyBinder};
use rustc_middle::ty::print::with_no_trimmed_paths;
use rustc_span::Span;
use std::collections::{HashMap, HashSet, VecDeque};
use std::fmt::Write as _;

fn js(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => { let _ = write!(o, "\\u{:04x}", c as u32); }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

struct Cx<'tcx> {
    tcx: TyCtxt<'tcx>,
    tys: HashMap<Ty<'tcx>, usize>,
    ty_out: Vec<String>,
    // (env root, instance string) -> body id
    ids: HashMap<(DefId, String), usize>,
    queue: VecDeque<(DefId, Instance<'tcx>, usize)>,
    promoted_queue: VecDeque<(DefId, Instance<'tcx>, Promoted, usize)>,
    bodies: Vec<String>,
    deny: Vec<String>,
    allow: Vec<String>,
    iter_traits: Vec<(DefId, Vec<&'static str>)>,
}

impl<'tcx> Cx<'tcx> {
    fn path(&self, d: DefId) -> String { with_no_trimmed_paths!(self.tcx.def_path_str(d)) }
    fn cpath(&self, d: DefId) -> String {
        let k = self.tcx.crate_name(d.krate);
        if d.is_local() { format!("{}::{}", k, self.path(d)) } else { self.path(d) }
    }
    fn canon(&self, d: DefId) -> String {
        // defining path, independent of re-exports and impl headers
        format!("{}{}", self.tcx.crate_name(d.krate), self.tcx.def_path(d).to_string_no_crate_verbose())
    }
    fn span(&self, s: Span) -> String {
        let s = s.source_callsite();
        let sm = self.tcx.sess.source_map();
        let lo = sm.lookup_char_pos(s.lo());
        format!("{}:{}", lo.file.name.prefer_local_unconditionally(), lo.line)
    }
    fn ty(&mut self, env: DefId, t: Ty<'tcx>) -> usize {
        let t = self.tcx.erase_and_anonymize_regions(t);
        if let Some(i) = self.tys.get(&t) { return *i; }
        let i = self.ty_out.len();
        self.tys.insert(t, i);
        self.ty_out.push(String::new());
        let s = with_no_trimmed_paths!(format!("{}", t));
        let mut o = format!("{{\"s\":{}", js(&s));
        match t.kind() {
            ty::Adt(def, args) => {
                let _ = write!(o, ",\"k\":\"adt\",\"def\":{},\"enum\":{},\"box\":{},\"args\":[", js(&self.canon(def.did())), def.is_enum(), t.is_box());
                let mut first = true;
                for a in args.types() { if !first { o.push(','); } first = false; let x = self.ty(env, a); let _ = write!(o, "{}", x); }
                o.push_str("],\"variants\":[");
                let opaque = false;
                for (vi, v) in def.variants().iter_enumerated() {
                    if vi.as_usize() > 0 { o.push(','); }
                    let discr = if def.is_enum() { def.discriminant_for_variant(self.tcx, vi).val.to_string() } else { "0".into() };
                    let _ = write!(o, "{{\"name\":{},\"discr\":{},\"fields\":[", js(v.name.as_str()), discr);
                    if !opaque {
                        let mut f1 = true;
                        for f in v.fields.iter() {
                            if !f1 { o.push(','); } f1 = false;
                            let fty = f.ty(self.tcx, args);
                            let te = TypingEnv::post_analysis(self.tcx, env);
                            let fty = fty.skip_norm_wip();
                            let fty = self.tcx.try_normalize_erasing_regions(te, ty::Unnormalized::new_wip(fty)).unwrap_or(fty);
                            let x = self.ty(env, fty);
                            let _ = write!(o, "[{},{}]", js(f.name.as_str()), x);
                        }
                    }
                    o.push_str("]}");
                }
                o.push(']');
            }
            ty::Ref(_, x, m) => { let x = self.ty(env, *x); let _ = write!(o, ",\"k\":\"ref\",\"mut\":{},\"to\":{}", m.is_mut(), x); }
            ty::RawPtr(x, m) => { let x = self.ty(env, *x); let _ = write!(o, ",\"k\":\"ptr\",\"mut\":{},\"to\":{}", m.is_mut(), x); }
            ty::Tuple(ts) => { let v: Vec<String> = ts.iter().map(|x| self.ty(env, x).to_string()).collect(); let _ = write!(o, ",\"k\":\"tuple\",\"args\":[{}]", v.join(",")); }
            ty::Array(x, n) => { let x = self.ty(env, *x); let n = n.try_to_target_usize(self.tcx).map(|v| v.to_string()).unwrap_or("null".into()); let _ = write!(o, ",\"k\":\"array\",\"to\":{},\"n\":{}", x, n); }
            ty::Slice(x) => { let x = self.ty(env, *x); let _ = write!(o, ",\"k\":\"slice\",\"to\":{}", x); }
            ty::Closure(d, a) => {
                let ups: Vec<String> = a.as_closure().upvar_tys().iter().map(|x| self.ty(env, x).to_string()).collect();
                let _ = write!(o, ",\"k\":\"closure\",\"def\":{},\"ups\":[{}]", js(&self.canon(*d)), ups.join(","));
            }
            ty::FnDef(d, _) => { let _ = write!(o, ",\"k\":\"fndef\",\"def\":{}", js(&self.canon(*d))); }
            ty::Param(p) => { let _ = write!(o, ",\"k\":\"param\",\"name\":{}", js(p.name.as_str())); }
            ty::Int(_) | ty::Uint(_) | ty::Bool | ty::Char | ty::Float(_) | ty::Str | ty::Never => { let _ = write!(o, ",\"k\":\"prim\""); }
            ty::Dynamic(..) => { let _ = write!(o, ",\"k\":\"dyn\""); }
            ty::FnPtr(..) => { let _ = write!(o, ",\"k\":\"fnptr\""); }
            ty::Alias(..) => { let _ = write!(o, ",\"k\":\"alias\""); }
            _ => { let _ = write!(o, ",\"k\":\"other\""); }
        }
        o.push('}');
        self.ty_out[i] = o;
        i
    }

    fn expandable(&self, d: DefId) -> bool {
        if d.is_local() { return true; }
        let p = self.canon(d);
        if self.deny.iter().any(|x| p.starts_with(x.as_str())) { return false; }
        self.allow.iter().any(|x| p.starts_with(x.as_str()))
    }

    fn body_id(&mut self, env: DefId, inst: Instance<'tcx>) -> usize {
        let key = (env, with_no_trimmed_paths!(format!("{:?}", inst)));
        if let Some(i) = self.ids.get(&key) { return *i; }
        let i = self.bodies.len();
        self.ids.insert(key, i);
        self.bodies.push(String::new());
        self.queue.push_back((env, inst, i));
        i
    }

    fn callee(&mut self, env: DefId, fty: Ty<'tcx>, span: Span) -> String {
        let tcx = self.tcx;
        match *fty.kind() {
            ty::FnDef(d, args) => {
                let args = args.no_bound_vars().unwrap();
                let te = TypingEnv::post_analysis(tcx, env);
                let name = tcx.item_name(d).to_string();
                let tr = tcx.trait_of_assoc(d).map(|t| self.canon(t));
                let mut o = format!("{{\"def\":{},\"path\":{},\"name\":{}", js(&self.canon(d)), js(&self.cpath(d)), js(&name));
                if let Some(t) = &tr { let _ = write!(o, ",\"trait\":{}", js(t)); }
                let targs: Vec<Ty<'tcx>> = args.types().collect();
                let targs: Vec<String> = targs.into_iter().map(|x| self.ty(env, x).to_string()).collect();
                let _ = write!(o, ",\"args\":[{}]", targs.join(","));
                let sig = tcx.fn_sig(d).instantiate(tcx, args).skip_norm_wip();
                let out = sig.output().skip_binder();
                let out = tcx.erase_and_anonymize_regions(out);
                let out = tcx.try_normalize_erasing_regions(te, ty::Unnormalized::new_wip(out)).unwrap_or(out);
                let out = self.ty(env, out);
                let _ = write!(o, ",\"ret\":{}", out);
                if let Some(ii) = tcx.intrinsic(d) { let _ = write!(o, ",\"kind\":\"intrinsic\",\"intr\":{}}}", js(ii.name.as_str())); return o; }
                let r = Instance::try_resolve(tcx, te, d, args);
                match r {
                    Ok(Some(inst)) => {
                        let rd = inst.def_id();
                        let (kind, ok) = match inst.def {
                            ty::InstanceKind::Item(_) => ("item", true),
                            ty::InstanceKind::Intrinsic(_) | ty::InstanceKind::LlvmIntrinsic(_) => ("intrinsic", false),
                            ty::InstanceKind::Virtual(..) => ("virtual", false),
                            ty::InstanceKind::Shim(s) => match s {
                                ty::ShimKind::FnPtr(..) => ("fnptrshim", true),
                                ty::ShimKind::ClosureOnce { .. } => ("closureonce", true),
                                ty::ShimKind::Clone(..) => ("cloneshim", true),
                                ty::ShimKind::Reify(..) => ("reify", true),
                                ty::ShimKind::DropGlue(..) => ("dropglue", false),
                                _ => ("shim", false),
                            },
                        };
                        let _ = write!(o, ",\"kind\":{},\"rdef\":{},\"rpath\":{}", js(kind), js(&self.canon(rd)), js(&self.cpath(rd)));
                        let is_clos = matches!(tcx.def_kind(rd), DefKind::Closure);
                        let _ = write!(o, ",\"clos\":{}", is_clos);
                        let rargs: Vec<Ty<'tcx>> = inst.args.types().collect();
                        let rargs: Vec<String> = rargs.into_iter().map(|x| self.ty(env, x).to_string()).collect();
                        let _ = write!(o, ",\"rargs\":[{}]", rargs.join(","));
                        // closures' parents decide expandability of a shim
                        let exp = match inst.def {
                            ty::InstanceKind::Item(x) => self.expandable(x),
                            _ => ok,
                        };
                        let avail = match inst.def {
                            ty::InstanceKind::Item(x) => tcx.is_mir_available(x) && !matches!(tcx.def_kind(x), DefKind::AssocFn) || (tcx.is_mir_available(x)),
                            _ => true,
                        };
                        if ok && exp && avail {
                            let id = self.body_id(env, inst);
                            let _ = write!(o, ",\"body\":{}", id);
                        } else {
                            let l: Vec<Ty<'tcx>> = inst.args.types().chain(args.types()).collect();
                            self.iters(env, &l, &mut o);
                        }
                    }
                    Ok(None) => {
                        o.push_str(",\"kind\":\"unresolved\"");
                        // a method of an unknown type that the trait itself implements
                        if tr.is_some() && tcx.defaultness(d).has_value() && self.expandable(d) && tcx.is_mir_available(d) {
                            let id = self.body_id(env, Instance::new_raw(d, args));
                            let _ = write!(o, ",\"dbody\":{}", id);
                        }
                        let l: Vec<Ty<'tcx>> = args.types().collect();
                        self.iters(env, &l, &mut o);
                    }
                    Err(_) => o.push_str(",\"kind\":\"error\""),
                }
                let _ = span;
                o.push('}');
                o
            }
            _ => { let t = self.ty(env, fty); format!("{{\"kind\":\"ptr\",\"ty\":{}}}", t) }
        }
    }

    /// For callees that are not expanded: how to step the iterator-like types they are given.
    fn iters(&mut self, env: DefId, tys: &[Ty<'tcx>], o: &mut String) {
        let tcx = self.tcx;
        let te = TypingEnv::post_analysis(tcx, env);
        let mut seen: Vec<Ty<'tcx>> = vec![];
        let mut out: Vec<String> = vec![];
        for &t in tys {
            let t = tcx.erase_and_anonymize_regions(t);
            if seen.contains(&t) { continue; }
            seen.push(t);
            if matches!(t.kind(), ty::Closure(..) | ty::FnDef(..) | ty::Int(_) | ty::Uint(_) | ty::Float(_) | ty::Bool | ty::Str | ty::Param(_) | ty::Never | ty::Slice(_)) { continue; }
            let mut parts: Vec<String> = vec![];
            for (tr, names) in self.iter_traits.clone() {
                for m in tcx.associated_items(tr).in_definition_order() {
                    if m.opt_name().map(|n| names.contains(&n.as_str())) != Some(true) { continue; }
                    let ga = tcx.mk_args_trait(t, std::iter::empty());
                    if tcx.generics_of(m.def_id).own_counts().types != 0 { continue; }
                    if let Ok(Some(inst)) = Instance::try_resolve(tcx, te, m.def_id, ga) {
                        let rd = inst.def_id();
                        let can = matches!(inst.def, ty::InstanceKind::Item(_)) && self.expandable(rd) && tcx.is_mir_available(rd);
                        let b = if can { self.body_id(env, inst) as i64 } else { -1 };
                        let mut extra = String::new();
                        if b < 0 {
                            let l: Vec<Ty<'tcx>> = inst.args.types().filter(|x| *x != t).collect();
                            let ids: Vec<String> = l.iter().map(|x| self.ty(env, *x).to_string()).collect();
                            let mut sub = String::new();
                            self.iters(env, &l, &mut sub);
                            extra = format!(",{{\"rargs\":[{}]{}}}", ids.join(","), sub);
                        }
                        parts.push(format!("{}:[{},{}{}]", js(m.opt_name().unwrap().as_str()), b, js(&self.cpath(rd)), extra));
                    }
                }
            }
            if !parts.is_empty() { let ti = self.ty(env, t); out.push(format!("\"{}\":{{{}}}", ti, parts.join(","))); }
        }
        if !out.is_empty() { let _ = write!(o, ",\"iters\":{{{}}}", out.join(",")); }
    }

    fn place(&mut self, env: DefId, p: &Place<'tcx>) -> String {
        let mut o = format!("[{}", p.local.as_usize());
        for e in p.projection.iter() {
            o.push(',');
            match e {
                ProjectionElem::Deref => o.push_str("\"*\""),
                ProjectionElem::Field(f, t) => { let t = self.ty(env, t); let _ = write!(o, "[\"f\",{},{}]", f.as_usize(), t); }
                ProjectionElem::Index(l) => { let _ = write!(o, "[\"i\",{}]", l.as_usize()); }
                ProjectionElem::ConstantIndex { offset, min_length, from_end } => { let _ = write!(o, "[\"ci\",{},{},{}]", offset, min_length, from_end); }
                ProjectionElem::Subslice { from, to, from_end } => { let _ = write!(o, "[\"ss\",{},{},{}]", from, to, from_end); }
                ProjectionElem::Downcast(_, v) => { let _ = write!(o, "[\"d\",{}]", v.as_usize()); }
                _ => { o.push_str("[\"o\"]"); }
            }
        }
        o.push(']');
        o
    }

    fn konst(&mut self, env: DefId, inst: Instance<'tcx>, c: &ConstOperand<'tcx>) -> String {
        let tcx = self.tcx;
        let te = TypingEnv::post_analysis(tcx, env);
        let t = c.const_.ty();
        let ti = self.ty(env, t);
        let mut o = format!("{{\"c\":{{\"ty\":{}", ti);
        if let ty::FnDef(..) = t.kind() {
            let ce = self.callee(env, t, c.span);
            let _ = write!(o, ",\"fn\":{}", ce);
        } else if let mir::Const::Unevaluated(u, _) = c.const_ && let Some(pr) = u.promoted {
            // body of the promoted, in the defining body
            let di = Instance::new_raw(u.def, u.args);
            let key = (env, with_no_trimmed_paths!(format!("promoted {:?} {:?}", di, pr)));
            let id = if let Some(i) = self.ids.get(&key) { *i } else {
                let i = self.bodies.len();
                self.ids.insert(key, i);
                self.bodies.push(String::new());
                self.promoted_queue.push_back((env, di, pr, i));
                i
            };
            let _ = write!(o, ",\"promoted\":{}", id);
        } else {
            if let ty::Closure(d, a) = t.kind() && tcx.is_mir_available(*d) {
                let b = self.body_id(env, Instance::new_raw(*d, a));
                let _ = write!(o, ",\"cbody\":{}", b);
            }
            let is_float = matches!(t.kind(), ty::Float(_));
            let mut done = false;
            if matches!(t.kind(), ty::Int(_) | ty::Uint(_) | ty::Bool | ty::Char) || is_float {
                if let Some(si) = c.const_.try_eval_scalar_int(tcx, te) {
                    let v: String = if matches!(t.kind(), ty::Int(_)) { si.to_int(si.size()).to_string() } else { si.to_uint(si.size()).to_string() };
                    let _ = write!(o, ",\"v\":{}", v);
                    done = true;
                }
            } else if let ty::Adt(d, _) = t.kind() && d.is_enum() {
                if let Some(si) = c.const_.try_eval_scalar_int(tcx, te) {
                    let _ = write!(o, ",\"ebits\":{}", si.to_uint(si.size()));
                    done = true;
                } else if let mir::Const::Val(ConstValue::ZeroSized, _) = c.const_ {
                    let _ = write!(o, ",\"ebits\":0"); done = true;
                }
            }
            if !done {
                if let mir::Const::Unevaluated(u, _) = c.const_ {
                    let _ = write!(o, ",\"uneval\":{}", js(&self.canon(u.def)));
                    let a: Vec<Ty<'tcx>> = u.args.types().collect();
                    let a: Vec<String> = a.into_iter().map(|x| self.ty(env, x).to_string()).collect();
                    let _ = write!(o, ",\"uargs\":[{}]", a.join(","));
                    if !(tcx.is_foreign_item(u.def)) && u.promoted.is_none() {
                        // the constant's own body, when there is one
                        if let Ok(Some(ci)) = Instance::try_resolve(tcx, te, u.def, u.args) {
                            let _ = write!(o, ",\"cdef\":{}", js(&self.canon(ci.def_id())));
                        }
                    }
                }
                let zst = matches!(c.const_, mir::Const::Val(ConstValue::ZeroSized, _));
                let _ = write!(o, ",\"zst\":{}", zst);
                let _ = write!(o, ",\"str\":{}", js(&with_no_trimmed_paths!(format!("{}", c.const_))));
            }
        }
        let _ = inst;
        o.push_str("}}");
        o
    }

    fn operand(&mut self, env: DefId, inst: Instance<'tcx>, op: &Operand<'tcx>) -> String {
        match op {
            Operand::Copy(p) => format!("{{\"p\":{}}}", self.place(env, p)),
            Operand::Move(p) => format!("{{\"p\":{},\"m\":1}}", self.place(env, p)),
            Operand::Constant(c) => self.konst(env, inst, c),
            Operand::RuntimeChecks(r) => format!("{{\"rc\":{}}}", js(&format!("{:?}", r))),
        }
    }

    fn rvalue(&mut self, env: DefId, inst: Instance<'tcx>, rv: &Rvalue<'tcx>) -> String {
        match rv {
            Rvalue::Use(op, _) => format!("[\"use\",{}]", self.operand(env, inst, op)),
            Rvalue::Repeat(op, c) => format!("[\"repeat\",{},{}]", self.operand(env, inst, op), c.try_to_target_usize(self.tcx).map(|x| x.to_string()).unwrap_or("null".into())),
            Rvalue::Ref(_, k, p) => format!("[\"ref\",{},{}]", matches!(k, BorrowKind::Mut { .. }), self.place(env, p)),
            Rvalue::RawPtr(_, p) => format!("[\"ref\",true,{},\"raw\"]", self.place(env, p)),
            Rvalue::Cast(k, op, t) => { let t = self.ty(env, *t); let ks = format!("{:?}", k); format!("[\"cast\",{},{},{}]", js(&ks), self.operand(env, inst, op), t) }
            Rvalue::BinaryOp(b, ops) => format!("[\"bin\",\"{:?}\",{},{}]", b, self.operand(env, inst, &ops.0), self.operand(env, inst, &ops.1)),
            Rvalue::UnaryOp(u, op) => format!("[\"un\",\"{:?}\",{}]", u, self.operand(env, inst, op)),
            Rvalue::Discriminant(p) => format!("[\"discr\",{}]", self.place(env, p)),
            Rvalue::Aggregate(k, ops) => {
                let v: Vec<String> = ops.iter().map(|x| self.operand(env, inst, x)).collect();
                let ks = match &**k {
                    AggregateKind::Array(_) => "[\"array\"]".to_string(),
                    AggregateKind::Tuple => "[\"tuple\"]".to_string(),
                    AggregateKind::Adt(d, vi, args, _, _) => {
                        let t = Ty::new_adt(self.tcx, self.tcx.adt_def(*d), args);
                        let t = self.ty(env, t);
                        format!("[\"adt\",{},{},{}]", js(&self.canon(*d)), vi.as_usize(), t)
                    }
                    AggregateKind::Closure(d, args) => {
                        let t = Ty::new_closure(self.tcx, *d, args);
                        let t = self.ty(env, t);
                        let ci = Instance::new_raw(*d, args);
                        let bid = if self.tcx.is_mir_available(*d) { self.body_id(env, ci) as i64 } else { -1 };
                        format!("[\"closure\",{},{},{}]", js(&self.canon(*d)), t, bid)
                    }
                    AggregateKind::RawPtr(..) => "[\"rawptr\"]".to_string(),
                    _ => "[\"other\"]".to_string(),
                };
                format!("[\"agg\",{},[{}]]", ks, v.join(","))
            }
            Rvalue::CopyForDeref(p) => format!("[\"use\",{{\"p\":{}}}]", self.place(env, p)),
            Rvalue::Reborrow(_, _, p) => format!("[\"use\",{{\"p\":{}}}]", self.place(env, p)),
            Rvalue::WrapUnsafeBinder(op, _) => format!("[\"use\",{}]", self.operand(env, inst, op)),
            Rvalue::ThreadLocalRef(_) => "[\"tls\"]".to_string(),
        }
    }

    fn emit_body(&mut self, env: DefId, inst: Instance<'tcx>, body: &Body<'tcx>, id: usize, kind: &str) {
        let did = inst.def_id();
        let mut o = format!("{{\"id\":{},\"kind\":{},\"def\":{},\"path\":{},\"local\":{},\"env\":{},\"inst\":{},\"span\":{},\"argc\":{}",
            id, js(kind), js(&self.canon(did)), js(&self.cpath(did)), did.is_local(), js(&self.canon(env)),
            js(&with_no_trimmed_paths!(format!("{:?}", inst))), js(&self.span(body.span)), body.arg_count);
        let _ = write!(o, ",\"clos\":{}", matches!(self.tcx.def_kind(did), DefKind::Closure));
        if let Some(l) = body.spread_arg { let _ = write!(o, ",\"spread\":{}", l.as_usize()); }
        o.push_str(",\"names\":{");
        let mut first = true;
        for v in body.var_debug_info.iter() {
            if let VarDebugInfoContents::Place(p) = &v.value && p.projection.is_empty() {
                if !first { o.push(','); } first = false;
                let _ = write!(o, "\"{}\":{}", p.local.as_usize(), js(v.name.as_str()));
            }
        }
        o.push_str("},\"locals\":[");
        for (i, l) in body.local_decls.iter().enumerate() { if i > 0 { o.push(','); } let t = self.ty(env, l.ty); let _ = write!(o, "{}", t); }
        o.push_str("],\"blocks\":[");
        for (bi, b) in body.basic_blocks.iter().enumerate() {
            if bi > 0 { o.push(','); }
            if b.is_cleanup { o.push_str("null"); continue; }
            o.push_str("{\"s\":[");
            let mut first = true;
            for s in &b.statements {
                let t = match &s.kind {
                    StatementKind::Assign(a) => { let (p, r) = &**a; let r = self.rvalue(env, inst, r); Some(format!("[\"=\",{},{},{}]", self.place(env, p), r, js(&self.span(s.source_info.span)))) }
                    StatementKind::SetDiscriminant { place, variant_index } => Some(format!("[\"setd\",{},{}]", self.place(env, place), variant_index.as_usize())),
                    StatementKind::Intrinsic(i) => match &**i {
                        NonDivergingIntrinsic::Assume(op) => Some(format!("[\"assume\",{}]", self.operand(env, inst, op))),
                        _ => Some("[\"copynonoverlapping\"]".to_string()),
                    },
                    StatementKind::StorageDead(l) => Some(format!("[\"dead\",{}]", l.as_usize())),
                    StatementKind::StorageLive(l) => Some(format!("[\"live\",{}]", l.as_usize())),
                    _ => None,
                };
                if let Some(t) = t { if !first { o.push(','); } first = false; o.push_str(&t); }
            }
            o.push_str("],\"t\":");
            let term = b.terminator();
            let sp = js(&self.span(term.source_info.span));
            match &term.kind {
                TerminatorKind::Goto { target, .. } => { let _ = write!(o, "[\"goto\",{}]", target.as_usize()); }
                TerminatorKind::SwitchInt { discr, targets } => {
                    let dt = discr.ty(&body.local_decls, self.tcx);
                    let dt = self.ty(env, dt);
                    let d = self.operand(env, inst, discr);
                    let v: Vec<String> = targets.iter().map(|(v, b)| format!("[{},{}]", v, b.as_usize())).collect();
                    let _ = write!(o, "[\"switch\",{},[{}],{},{},{}]", d, v.join(","), targets.otherwise().as_usize(), dt, sp);
                }
                TerminatorKind::Return => o.push_str("[\"return\"]"),
                TerminatorKind::Unreachable => o.push_str("[\"unreachable\"]"),
                TerminatorKind::UnwindResume | TerminatorKind::UnwindTerminate(_) => o.push_str("[\"resume\"]"),
                TerminatorKind::Drop { place, target, .. } => { let t = place.ty(&body.local_decls, self.tcx).ty; let t = self.ty(env, t); let _ = write!(o, "[\"drop\",{},{},{},{}]", self.place(env, place), target.as_usize(), t, sp); }
                TerminatorKind::Call { func, args, destination, target, fn_span, .. } => {
                    let fty = func.ty(&body.local_decls, self.tcx);
                    let ce = self.callee(env, fty, *fn_span);
                    let fop = if matches!(fty.kind(), ty::FnDef(..)) { "null".to_string() } else { self.operand(env, inst, func) };
                    let a: Vec<String> = args.iter().map(|x| self.operand(env, inst, &x.node)).collect();
                    let at: Vec<String> = args.iter().map(|x| { let t = x.node.ty(&body.local_decls, self.tcx); self.ty(env, t).to_string() }).collect();
                    let d = self.place(env, destination);
                    let _ = write!(o, "[\"call\",{},{},[{}],{},{},{},[{}]]", ce, fop, a.join(","), d, target.map(|t| t.as_usize().to_string()).unwrap_or("null".into()), sp, at.join(","));
                }
                TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                    let m = match &**msg { AssertKind::BoundsCheck { .. } => "bounds", AssertKind::Overflow(..) => "overflow", _ => "other" };
                    let c = self.operand(env, inst, cond);
                    let _ = write!(o, "[\"assert\",{},{},{},{},{}]", c, expected, js(m), target.as_usize(), sp);
                }
                k => { let _ = write!(o, "[\"unk\",{}]", js(&format!("{:?}", k))); }
            }
            o.push('}');
        }
        o.push_str("]}");
        self.bodies[id] = o;
    }

    fn run(&mut self) {
        let tcx = self.tcx;
        loop {
            if let Some((env, inst, id)) = self.queue.pop_front() {
                let te = TypingEnv::post_analysis(tcx, env);
                let body = tcx.instance_mir(inst.def);
                let body = match inst.try_instantiate_mir_and_normalize_erasing_regions(tcx, te, EarlyBinder::bind(tcx, body.clone())) {
                    Ok(b) => b,
                    Err(_) => { self.bodies[id] = format!("{{\"id\":{},\"kind\":\"error\",\"path\":{}}}", id, js(&self.cpath(inst.def_id()))); continue; }
                };
                let kind = match inst.def { ty::InstanceKind::Item(_) => "item", _ => "shim" };
                self.emit_body(env, inst, &body, id, kind);
            } else if let Some((env, di, pr, id)) = self.promoted_queue.pop_front() {
                let te = TypingEnv::post_analysis(tcx, env);
                let b = &tcx.promoted_mir(di.def_id())[pr];
                match di.try_instantiate_mir_and_normalize_erasing_regions(tcx, te, EarlyBinder::bind(tcx, b.clone())) {
                    Ok(b) => self.emit_body(env, di, &b, id, "promoted"),
                    Err(_) => { self.bodies[id] = format!("{{\"id\":{},\"kind\":\"error\",\"path\":\"promoted\"}}", id); }
                }
            } else { break; }
        }
    }
}

struct Cb;
impl Callbacks for Cb {
    fn after_analysis<'tcx>(&mut self, _c: &Compiler, tcx: TyCtxt<'tcx>) -> Compilation {
        let krate = tcx.crate_name(rustc_span::def_id::LOCAL_CRATE).to_string();
        let want = std::env::var("MIRDUMP_CRATE").unwrap_or_default();
        if krate != want { return Compilation::Continue; }
        let out = std::env::var("MIRDUMP_OUT").expect("MIRDUMP_OUT");
        let lines = |k: &str| -> Vec<String> { std::env::var(k).ok().and_then(|f| std::fs::read_to_string(f).ok()).map(|s| s.lines().map(|l| l.trim().to_string()).filter(|l| !l.is_empty() && !l.starts_with('#')).collect()).unwrap_or_default() };
        let mut cx = Cx { tcx, tys: HashMap::new(), ty_out: vec![], ids: HashMap::new(), queue: VecDeque::new(), promoted_queue: VecDeque::new(), bodies: vec![], deny: lines("MIRDUMP_DENY"), allow: lines("MIRDUMP_ALLOW"), iter_traits: vec![] };
        let sym = |s: &str| rustc_span::Symbol::intern(s);
        for (n, ms) in [("Iterator", vec!["next"]), ("DoubleEndedIterator", vec!["next_back"]), ("IntoIterator", vec!["into_iter"])] {
            if let Some(d) = tcx.get_diagnostic_item(sym(n)) { cx.iter_traits.push((d, ms)); } else { eprintln!("mirdump: no item {n}"); }
        }
        let only = lines("MIRDUMP_ROOTS");
        let mut roots = vec![];
        let mut items = String::new();
        let mut seen = HashSet::new();
        for d in tcx.hir_body_owners() {
            let d = d.to_def_id();
            let k = tcx.def_kind(d);
            if !matches!(k, DefKind::Fn | DefKind::AssocFn) { continue; }
            let canon = cx.canon(d);
            let path = cx.cpath(d);
            let mut impl_trait = String::from("null");
            let mut self_ty = String::from("null");
            let mut trait_args = String::from("null");
            if let Some(im) = tcx.impl_of_assoc(d) {
                let st = tcx.type_of(im).instantiate_identity().skip_norm_wip();
                self_ty = cx.ty(d, st).to_string();
                if let Some(tr) = tcx.impl_opt_trait_ref(im) {
                    let tr = tr.instantiate_identity().skip_norm_wip();
                    impl_trait = js(&cx.canon(tr.def_id));
                    trait_args = js(&with_no_trimmed_paths!(format!("{}", tr)));
                }
            }
            let vis = tcx.visibility(d).is_public();
            let effective = d.as_local().map(|l| tcx.effective_visibilities(()).is_exported(l)).unwrap_or(false);
            let derived = tcx.impl_of_assoc(d).map(|im| tcx.is_automatically_derived(im)).unwrap_or(false);
            let unsafety = format!("{:?}", tcx.fn_sig(d).instantiate_identity().skip_norm_wip().safety());
            let sig = tcx.fn_sig(d).instantiate_identity().skip_norm_wip();
            let sig = tcx.erase_and_anonymize_regions(sig.skip_binder());
            let ins: Vec<String> = sig.inputs().iter().map(|t| cx.ty(d, *t).to_string()).collect();
            let outt = cx.ty(d, sig.output());
            let expand = only.is_empty() || only.iter().any(|x| canon.contains(x.as_str()) || path.contains(x.as_str()));
            let id = if expand { cx.body_id(d, Instance::new_raw(d, GenericArgs::identity_for_item(tcx, d))) as i64 } else { -1 };
            if seen.insert(canon.clone()) {
                roots.push(format!("{{\"def\":{},\"path\":{},\"name\":{},\"body\":{},\"impl_trait\":{},\"trait_ref\":{},\"self_ty\":{},\"pub\":{},\"exported\":{},\"derived\":{},\"safety\":{},\"span\":{},\"ins\":[{}],\"out\":{}}}",
                    js(&canon), js(&path), js(tcx.item_name(d).as_str()), id, impl_trait, trait_args, self_ty, vis, effective, derived, js(&unsafety), js(&cx.span(tcx.def_span(d))), ins.join(","), outt));
            }
        }
        // ADTs and impls of the local crate
        let mut adts = vec![];
        let mut impls = vec![];
        for l in tcx.hir_crate_items(()).definitions() {
            let d = l.to_def_id();
            match tcx.def_kind(d) {
                DefKind::Struct | DefKind::Enum | DefKind::Union => {
                    let t = tcx.type_of(d).instantiate_identity().skip_norm_wip();
                    let ti = cx.ty(d, t);
                    let def = tcx.adt_def(d);
                    let mut fs = vec![];
                    for v in def.variants() { for f in v.fields.iter() { fs.push(format!("[{},{}]", js(f.name.as_str()), js(&format!("{:?}", f.vis)))); } }
                    adts.push(format!("{{\"def\":{},\"ty\":{},\"pub\":{},\"exported\":{},\"fields\":[{}]}}", js(&cx.canon(d)), ti, tcx.visibility(d).is_public(), tcx.effective_visibilities(()).is_exported(l), fs.join(",")));
                }
                DefKind::Impl { of_trait } => {
                    let st = tcx.type_of(d).instantiate_identity().skip_norm_wip();
                    let ti = cx.ty(d, st);
                    let tr = if of_trait { tcx.impl_opt_trait_ref(d).map(|t| { let t = t.instantiate_identity().skip_norm_wip(); (cx.canon(t.def_id), with_no_trimmed_paths!(format!("{}", t))) }) } else { None };
                    let pol = if of_trait { format!("{:?}", tcx.impl_polarity(d)) } else { "None".into() };
                    impls.push(format!("{{\"self\":{},\"trait\":{},\"ref\":{},\"pol\":{},\"derived\":{},\"span\":{}}}", ti, tr.as_ref().map(|x| js(&x.0)).unwrap_or("null".into()), tr.as_ref().map(|x| js(&x.1)).unwrap_or("null".into()), js(&pol), tcx.is_automatically_derived(d), js(&cx.span(tcx.def_span(d)))));
                }
                _ => {}
            }
        }
        cx.run();
        items.push_str("{\"crate\":");
        items.push_str(&js(&krate));
        items.push_str(",\n\"roots\":[\n"); items.push_str(&roots.join(",\n"));
        items.push_str("],\n\"adts\":[\n"); items.push_str(&adts.join(",\n"));
        items.push_str("],\n\"impls\":[\n"); items.push_str(&impls.join(",\n"));
        items.push_str("],\n\"bodies\":[\n"); items.push_str(&cx.bodies.join(",\n"));
        items.push_str("],\n\"types\":[\n"); items.push_str(&cx.ty_out.join(",\n"));
        items.push_str("]}\n");
        std::fs::write(&out, items).expect("write MIRDUMP_OUT");
        eprintln!("mirdump: {} roots, {} bodies, {} types", roots.len(), cx.bodies.len(), cx.ty_out.len());
        Compilation::Continue
    }
}

fn main() -> std::process::ExitCode {
    let mut args: Vec<String> = std::env::args().collect();
    if args.len() > 1 && (args[1].ends_with("rustc") || args[1].ends_with("/rustc")) { args.remove(1); }
    rustc_driver::catch_with_exit_code(move || rustc_driver::compiler_entrypoint(&args, &mut Cb))
}

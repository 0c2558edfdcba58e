// MIR exporter: a rustc driver that writes the generic, drop-elaborated MIR of
// the crate being compiled (plus std helper bodies it calls) as JSON.
// It never runs the analysed code.
#![feature(rustc_private)]
extern crate rustc_abi;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_span;

use rustc_driver::{Callbacks, Compilation};
use rustc_hir::def::DefKind;
use rustc_hir::def_id::DefId;
use rustc_interface::interface::Compiler;
use rustc_middle::mir::{self, *};
use rustc_middle::ty::{self, Instance, Ty, TyCtxt, TypingEnv};
use std::collections::{BTreeMap, HashMap, HashSet};
use std::fmt::Write as _;

fn esc(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 32 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

struct Cx<'tcx> {
    tcx: TyCtxt<'tcx>,
    types: Vec<String>,
    tymap: HashMap<Ty<'tcx>, usize>,
    adts: BTreeMap<String, String>,
    extern_queue: Vec<DefId>,
    extern_seen: HashSet<DefId>,
}

fn id(tcx: TyCtxt<'_>, d: DefId) -> String {
    format!("{}{}", tcx.crate_name(d.krate), tcx.def_path(d).to_string_no_crate_verbose())
}

impl<'tcx> Cx<'tcx> {
    fn path(&self, d: DefId) -> String {
        ty::print::with_no_trimmed_paths!(self.tcx.def_path_str(d))
    }

    fn want_extern(&mut self, d: DefId) {
        if d.is_local() || self.extern_seen.contains(&d) {
            return;
        }
        let p = id(self.tcx, d);
        let ok = ["core::option::", "core::mem::", "core::result::", "core::ops::", "core::bool::",
            "core::cmp::", "core::num::", "core::iter::adapters", "core::iter::traits", "core::slice::", "core::array::", "core::tuple::"]
            .iter()
            .any(|x| p.starts_with(x));
        if !ok { return; }
        self.extern_seen.insert(d);
        if matches!(self.tcx.def_kind(d), DefKind::Fn | DefKind::AssocFn | DefKind::Closure)
            && self.tcx.is_mir_available(d)
        {
            self.extern_queue.push(d);
        }
    }

    fn ty(&mut self, t: Ty<'tcx>) -> usize {
        if let Some(i) = self.tymap.get(&t) {
            return *i;
        }
        let s = match t.kind() {
            ty::Adt(def, args) => {
                let p = self.path(def.did());
                self.adt(*def, &p);
                let a: Vec<String> = args.iter().filter_map(|g| g.as_type()).map(|t| self.ty(t).to_string()).collect();
                format!("{{\"k\":\"adt\",\"p\":{},\"a\":[{}]", esc(&p), a.join(","))
            }
            ty::Ref(_, t2, m) => { let i = self.ty(*t2); format!("{{\"k\":\"ref\",\"m\":{},\"t\":{}", m.is_mut(), i) }
            ty::RawPtr(t2, m) => { let i = self.ty(*t2); format!("{{\"k\":\"ptr\",\"m\":{},\"t\":{}", m.is_mut(), i) }
            ty::Param(p) => format!("{{\"k\":\"param\",\"n\":{}", esc(p.name.as_str())),
            ty::Tuple(e) => { let a: Vec<String> = e.iter().map(|t| self.ty(t).to_string()).collect(); format!("{{\"k\":\"tuple\",\"a\":[{}]", a.join(",")) }
            ty::Array(t2, n) => { let i = self.ty(*t2); format!("{{\"k\":\"array\",\"t\":{},\"n\":{}", i, esc(&format!("{}", n))) }
            ty::Slice(t2) => { let i = self.ty(*t2); format!("{{\"k\":\"slice\",\"t\":{}", i) }
            ty::Closure(d, _) => format!("{{\"k\":\"closure\",\"d\":{}", esc(&id(self.tcx, *d))),
            ty::FnDef(d, args) => {
                let args = args.skip_binder();
                let r = self.callee(*d, args, None);
                format!("{{\"k\":\"fndef\",\"f\":{}", r)
            }
            ty::Alias(..) => format!("{{\"k\":\"alias\",\"n\":{}", esc(&format!("{}", t))),
            _ => format!("{{\"k\":{}", esc(&format!("{}", t))),
        };
        let s = format!("{},\"s\":{}}}", s, esc(&ty::print::with_no_trimmed_paths!(format!("{}", t))));
        let i = self.types.len();
        self.types.push(s);
        self.tymap.insert(t, i);
        i
    }

    fn adt(&mut self, def: ty::AdtDef<'tcx>, p: &str) {
        if self.adts.contains_key(p) { return; }
        self.adts.insert(p.to_string(), String::new());
        let vs: Vec<String> = def.variants().iter().map(|v| {
            let fs: Vec<String> = v.fields.iter().map(|f| {
                if def.did().is_local() {
                    let ft = self.tcx.type_of(f.did).instantiate_identity().skip_normalization();
                    format!("[{},{}]", esc(f.name.as_str()), self.ty(ft))
                } else { format!("[{},null]", esc(f.name.as_str())) }
            }).collect();
            format!("[{},[{}]]", esc(v.name.as_str()), fs.join(","))
        }).collect();
        let k = if def.is_enum() { "enum" } else if def.is_union() { "union" } else { "struct" };
        let local = def.did().is_local();
        let span = if local { self.span(self.tcx.def_span(def.did())) } else { "null".into() };
        let public = local && self.tcx.visibility(def.did()).is_public();
        self.adts.insert(p.to_string(), format!("{{\"kind\":\"{}\",\"local\":{},\"pub\":{},\"span\":{},\"variants\":[{}]}}", k, local, public, span, vs.join(",")));
    }

    fn span(&self, sp: rustc_span::Span) -> String {
        let sp = sp.source_callsite();
        let sm = self.tcx.sess.source_map();
        let loc = sm.lookup_char_pos(sp.lo());
        let f = format!("{}", loc.file.name.prefer_local_unconditionally());
        esc(&format!("{}:{}", f, loc.line))
    }
    // innermost location (inside macro definitions)
    fn ispan(&self, sp: rustc_span::Span) -> String {
        let sm = self.tcx.sess.source_map();
        let loc = sm.lookup_char_pos(sp.lo());
        esc(&format!("{}:{}", loc.file.name.prefer_local_unconditionally(), loc.line))
    }

    fn callee(&mut self, d: DefId, args: ty::GenericArgsRef<'tcx>, env: Option<TypingEnv<'tcx>>) -> String {
        let tcx = self.tcx;
        self.want_extern(d);
        let mut s = format!("{{\"id\":{},\"p\":{},\"n\":{}", esc(&id(tcx, d)), esc(&self.path(d)), esc(tcx.opt_item_name(d).map(|s| s.to_string()).unwrap_or_default().as_str()));
        let a: Vec<String> = args.iter().filter_map(|g| g.as_type()).map(|t| self.ty(t).to_string()).collect();
        let _ = write!(s, ",\"a\":[{}]", a.join(","));
        if let Some(e) = env {
            // which type arguments are Copy here, and whether the function is unsafe
            let c: Vec<String> = args.iter().filter_map(|g| g.as_type()).map(|t| tcx.type_is_copy_modulo_regions(e, t).to_string()).collect();
            let _ = write!(s, ",\"ac\":[{}]", c.join(","));
            if matches!(tcx.def_kind(d), DefKind::Fn | DefKind::AssocFn) && tcx.fn_sig(d).skip_binder().safety().is_unsafe() {
                let _ = write!(s, ",\"unsafe\":true");
            }
        }
        if let Some(tr) = tcx.trait_of_assoc(d) {
            let _ = write!(s, ",\"trait\":{}", esc(&self.path(tr)));
        } else if let Some(im) = tcx.inherent_impl_of_assoc(d) {
            let st = tcx.type_of(im).instantiate_identity().skip_normalization();
            let i = self.ty(st);
            let _ = write!(s, ",\"inh\":{}", i);
        }
        let _ = write!(s, ",\"local\":{}", d.is_local());
        if let Some(env) = env {
            let args = tcx.erase_and_anonymize_regions(args);
            if let Ok(Some(inst)) = Instance::try_resolve(tcx, env, d, args) {
                let rd = inst.def_id();
                self.want_extern(rd);
                let kind = match inst.def {
                    ty::InstanceKind::Item(_) => "item",
                    ty::InstanceKind::Virtual(..) => "virtual",
                    _ => "shim",
                };
                let ra: Vec<String> = inst.args.iter().filter_map(|g| g.as_type()).map(|t| self.ty(t).to_string()).collect();
                let _ = write!(s, ",\"res\":{{\"id\":{},\"p\":{},\"kind\":\"{}\",\"local\":{},\"a\":[{}]}}", esc(&id(tcx, rd)), esc(&self.path(rd)), kind, rd.is_local(), ra.join(","));
            }
        }
        s.push('}');
        s
    }

    fn place(&mut self, p: &Place<'tcx>) -> String {
        let mut o = format!("[{},[", p.local.as_usize());
        for (i, e) in p.projection.iter().enumerate() {
            if i > 0 { o.push(','); }
            match e {
                ProjectionElem::Deref => o.push_str("\"*\""),
                ProjectionElem::Field(f, _) => { let _ = write!(o, "[\"f\",{}]", f.as_usize()); }
                ProjectionElem::Downcast(_, v) => { let _ = write!(o, "[\"d\",{}]", v.as_usize()); }
                ProjectionElem::Index(l) => { let _ = write!(o, "[\"i\",{}]", l.as_usize()); }
                ProjectionElem::ConstantIndex { offset, min_length, from_end } => { let _ = write!(o, "[\"c\",{},{},{}]", offset, min_length, from_end); }
                ProjectionElem::Subslice { from, to, from_end } => { let _ = write!(o, "[\"s\",{},{},{}]", from, to, from_end); }
                _ => o.push_str("[\"o\"]"),
            }
        }
        o.push_str("]]");
        o
    }

    fn operand(&mut self, op: &Operand<'tcx>, env: TypingEnv<'tcx>) -> String {
        match op {
            Operand::Copy(p) => format!("[\"cp\",{}]", self.place(p)),
            Operand::Move(p) => format!("[\"mv\",{}]", self.place(p)),
            Operand::Constant(c) => self.konst(c, env),
            #[allow(unreachable_patterns)]
            o => format!("[\"k\",{{\"o\":{}}}]", esc(&format!("{:?}", o))),
        }
    }

    fn konst(&mut self, c: &ConstOperand<'tcx>, env: TypingEnv<'tcx>) -> String {
        let t = c.const_.ty();
        let ti = self.ty(t);
        if let ty::FnDef(d, args) = t.kind() {
            let f = self.callee(*d, args.skip_binder(), Some(env));
            return format!("[\"k\",{{\"t\":{},\"fn\":{}}}]", ti, f);
        }
        let mut v = String::from("null");
        if t.is_integral() || t.is_bool() || t.is_char() {
            if let Some(s) = c.const_.try_eval_scalar_int(self.tcx, env) {
                if t.is_signed() { v = format!("{}", s.to_int(s.size())); } else { v = format!("{}", s.to_bits(s.size())); }
            }
        }
        let mut extra = String::new();
        if let mir::Const::Unevaluated(u, _) = c.const_ {
            let _ = write!(extra, ",\"def\":{}", esc(&self.path(u.def)));
            if let Some(p) = u.promoted { let _ = write!(extra, ",\"promoted\":{},\"of\":{}", p.as_usize(), esc(&id(self.tcx, u.def))); }
        }
        format!("[\"k\",{{\"t\":{},\"v\":{},\"s\":{}{}}}]", ti, v, esc(&format!("{}", c.const_)), extra)
    }

    fn rvalue(&mut self, r: &Rvalue<'tcx>, env: TypingEnv<'tcx>, body: &Body<'tcx>) -> String {
        match r {
            Rvalue::Use(o, ..) => format!("[\"use\",{}]", self.operand(o, env)),
            Rvalue::Repeat(o, n) => format!("[\"repeat\",{},{}]", self.operand(o, env), esc(&format!("{}", n))),
            Rvalue::Ref(_, k, p) => format!("[\"ref\",{},{}]", matches!(k, BorrowKind::Mut { .. }), self.place(p)),
            Rvalue::RawPtr(k, p) => format!("[\"addr\",{},{}]", matches!(k, RawPtrKind::Mut), self.place(p)),
            Rvalue::Cast(k, o, t) => { let ti = self.ty(*t); format!("[\"cast\",{},{},{}]", esc(&format!("{:?}", k)), self.operand(o, env), ti) }
            Rvalue::BinaryOp(b, ops) => { let (x, y) = (&ops.0, &ops.1); let a = self.operand(x, env); let c = self.operand(y, env); let ti = self.ty(x.ty(&body.local_decls, self.tcx)); format!("[\"bin\",\"{:?}\",{},{},{}]", b, a, c, ti) }
            Rvalue::UnaryOp(u, o) => format!("[\"un\",\"{:?}\",{}]", u, self.operand(o, env)),
            Rvalue::Discriminant(p) => format!("[\"discr\",{}]", self.place(p)),
            Rvalue::Aggregate(k, ops) => {
                let os: Vec<String> = ops.iter().map(|o| self.operand(o, env)).collect();
                let kk = match &**k {
                    AggregateKind::Array(_) => "{\"k\":\"array\"}".to_string(),
                    AggregateKind::Tuple => "{\"k\":\"tuple\"}".to_string(),
                    AggregateKind::Adt(d, v, args, _, _) => {
                        let def = self.tcx.adt_def(*d);
                        let p = self.path(*d);
                        self.adt(def, &p);
                        let t = Ty::new_adt(self.tcx, def, args);
                        let ti = self.ty(t);
                        format!("{{\"k\":\"adt\",\"p\":{},\"v\":{},\"t\":{}}}", esc(&p), v.as_usize(), ti)
                    }
                    AggregateKind::Closure(d, _) => format!("{{\"k\":\"closure\",\"d\":{}}}", esc(&id(self.tcx, *d))),
                    AggregateKind::RawPtr(..) => "{\"k\":\"rawptr\"}".to_string(),
                    o => format!("{{\"k\":\"other\",\"s\":{}}}", esc(&format!("{:?}", o))),
                };
                format!("[\"agg\",{},[{}]]", kk, os.join(","))
            }
            Rvalue::CopyForDeref(p) => format!("[\"use\",[\"cp\",{}]]", self.place(p)),
            o => format!("[\"other\",{}]", esc(&format!("{:?}", o))),
        }
    }

    fn body(&mut self, d: DefId, body: &Body<'tcx>, promoted: Option<usize>) -> String {
        let tcx = self.tcx;
        let env = TypingEnv::post_analysis(tcx, d);
        let mut o = String::new();
        let kind = match tcx.def_kind(d) {
            DefKind::Fn => "fn", DefKind::AssocFn => "method", DefKind::Closure => "closure",
            DefKind::Ctor(..) => "ctor", _ => "other",
        };
        let mut key = id(tcx, d);
        if let Some(p) = promoted { let _ = write!(key, "#{}", p); }
        let _ = write!(o, "{}:{{\"path\":{},\"kind\":\"{}\",\"name\":{},\"span\":{},\"local\":{}", esc(&key), esc(&self.path(d)), kind,
            esc(&tcx.opt_item_name(d).map(|s| s.to_string()).unwrap_or_default()), self.span(tcx.def_span(d)), d.is_local());
        if d.is_local() {
            if let Some(pr) = tcx.opt_parent(d) { let _ = write!(o, ",\"parent\":{}", esc(&id(tcx, pr))); }
            if kind == "closure" { let root = tcx.typeck_root_def_id(d); let _ = write!(o, ",\"root\":{}", esc(&id(tcx, root))); }
            if matches!(tcx.def_kind(d), DefKind::Fn | DefKind::AssocFn) {
                let _ = write!(o, ",\"vis\":{}", tcx.visibility(d).is_public());
            }
        }
        if let Some(tr) = tcx.trait_of_assoc(d) { let _ = write!(o, ",\"in_trait\":{}", esc(&self.path(tr))); }
        if let Some(im) = tcx.impl_of_assoc(d) {
            let st = tcx.type_of(im).instantiate_identity().skip_normalization();
            let i = self.ty(st);
            let _ = write!(o, ",\"self_ty\":{}", i);
            if let Some(trf) = tcx.impl_opt_trait_ref(im) { let _ = write!(o, ",\"of_trait\":{}", esc(&self.path(trf.skip_binder().def_id))); }
        }
        // generic parameter names in order (types only) so a caller's args can be substituted
        let gens: Vec<String> = { 
            let g = tcx.generics_of(d);
            (0..g.count()).map(|i| g.param_at(i, tcx)).filter(|p| matches!(p.kind, ty::GenericParamDefKind::Type{..})).map(|p| esc(p.name.as_str())).collect()
        };
        let _ = write!(o, ",\"gens\":[{}]", gens.join(","));
        let _ = write!(o, ",\"args\":{},\"locals\":[", body.arg_count);
        for (i, l) in body.local_decls.iter().enumerate() {
            if i > 0 { o.push(','); }
            let t = self.ty(l.ty);
            let _ = write!(o, "{}", t);
        }
        o.push_str("],\"spread\":");
        match body.spread_arg { Some(l) => { let _ = write!(o, "{}", l.as_usize()); }, None => o.push_str("null") }
        o.push_str(",\"names\":{");
        let mut first = true;
        for v in &body.var_debug_info {
            if let VarDebugInfoContents::Place(p) = v.value {
                if p.projection.is_empty() {
                    if !first { o.push(','); }
                    first = false;
                    let _ = write!(o, "\"{}\":{}", p.local.as_usize(), esc(v.name.as_str()));
                }
            }
        }
        o.push_str("},\"blocks\":[");
        for (bi, b) in body.basic_blocks.iter().enumerate() {
            if bi > 0 { o.push(','); }
            let mut ss: Vec<String> = vec![];
            for s in &b.statements {
                match &s.kind {
                    StatementKind::Assign(bx) => { let (p, r) = &**bx; let pl = self.place(p); let rv = self.rvalue(r, env, body); ss.push(format!("[\"=\",{},{},{}]", pl, rv, self.ispan(s.source_info.span))); }
                    StatementKind::SetDiscriminant { place, variant_index } => { let pl = self.place(place); ss.push(format!("[\"setd\",{},{}]", pl, variant_index.as_usize())); }
                    StatementKind::StorageDead(l) => ss.push(format!("[\"dead\",{}]", l.as_usize())),
                    StatementKind::StorageLive(l) => ss.push(format!("[\"live\",{}]", l.as_usize())),
                    _ => {}
                }
            }
            let t = b.terminator();
            let tj = match &t.kind {
                TerminatorKind::Goto { target, .. } => format!("[\"goto\",{}]", target.as_usize()),
                TerminatorKind::SwitchInt { discr, targets } => {
                    let ts: Vec<String> = targets.iter().map(|(v, t)| format!("[{},{}]", v, t.as_usize())).collect();
                    format!("[\"switch\",{},[{}],{}]", self.operand(discr, env), ts.join(","), targets.otherwise().as_usize())
                }
                TerminatorKind::Return => "[\"return\"]".into(),
                TerminatorKind::Unreachable => "[\"unreachable\"]".into(),
                TerminatorKind::UnwindResume => "[\"resume\"]".into(),
                TerminatorKind::UnwindTerminate(_) => "[\"abort\"]".into(),
                TerminatorKind::Drop { place, target, .. } => { let ti = self.ty(place.ty(body, tcx).ty); format!("[\"drop\",{},{},{}]", self.place(place), target.as_usize(), ti) }
                TerminatorKind::Call { func, args, destination, target, .. } => {
                    let f = self.operand(func, env);
                    let a: Vec<String> = args.iter().map(|a| self.operand(&a.node, env)).collect();
                    let dst = self.place(destination);
                    format!("[\"call\",{},[{}],{},{}]", f, a.join(","), dst, target.map(|t| t.as_usize().to_string()).unwrap_or("null".into()))
                }
                TerminatorKind::Assert { cond, expected, target, msg, .. } => {
                    let m = match &**msg { AssertKind::Overflow(op, ..) => format!("overflow:{:?}", op), AssertKind::BoundsCheck { .. } => "bounds".into(), o => format!("{:?}", o) };
                    format!("[\"assert\",{},{},{},{}]", self.operand(cond, env), expected, target.as_usize(), esc(&m))
                }
                o => format!("[\"other\",{}]", esc(&format!("{:?}", o))),
            };
            let _ = write!(o, "{{\"c\":{},\"s\":[{}],\"t\":{},\"l\":{}}}", b.is_cleanup, ss.join(","), tj, self.ispan(t.source_info.span));
        }
        o.push_str("]}");
        o
    }
}

struct Cb;
impl Callbacks for Cb {
    fn after_analysis<'tcx>(&mut self, _c: &Compiler, tcx: TyCtxt<'tcx>) -> Compilation {
        let out = match std::env::var("MIRX_OUT") { Ok(o) => o, Err(_) => return Compilation::Continue };
        let want = std::env::var("MIRX_CRATE").unwrap_or_default();
        if tcx.crate_name(rustc_span::def_id::LOCAL_CRATE).as_str() != want { return Compilation::Continue; }
        let mut cx = Cx { tcx, types: vec![], tymap: HashMap::new(), adts: BTreeMap::new(), extern_queue: vec![], extern_seen: HashSet::new() };
        let mut bodies = vec![];
        for ld in tcx.mir_keys(()) {
            let d = ld.to_def_id();
            if !matches!(tcx.def_kind(d), DefKind::Fn | DefKind::AssocFn | DefKind::Closure) { continue; }
            let b = tcx.optimized_mir(d);
            bodies.push(cx.body(d, b, None));
            for (i, p) in tcx.promoted_mir(d).iter().enumerate() { bodies.push(cx.body(d, p, Some(i))); }
        }
        while let Some(d) = cx.extern_queue.pop() {
            let b = tcx.optimized_mir(d);
            bodies.push(cx.body(d, b, None));
            for (i, p) in tcx.promoted_mir(d).iter().enumerate() { bodies.push(cx.body(d, p, Some(i))); }
        }
        // traits and impls of the crate
        let mut impls = vec![];
        for (tr, ims) in tcx.all_local_trait_impls(()).iter() {
            for im in ims {
                let imd = im.to_def_id();
                let st = tcx.type_of(imd).instantiate_identity().skip_normalization();
                let i = cx.ty(st);
                let items: Vec<String> = tcx.associated_items(imd).in_definition_order().map(|a| format!("[{},{}]", esc(&a.opt_name().map(|s| s.to_string()).unwrap_or_default()), esc(&id(tcx, a.def_id)))).collect();
                let derived = tcx.is_automatically_derived(imd);
                impls.push(format!("{{\"trait\":{},\"self\":{},\"span\":{},\"derived\":{},\"items\":[{}]}}", esc(&cx.path(*tr)), i, cx.span(tcx.def_span(imd)), derived, items.join(",")));
            }
        }
        let mut traits = vec![];
        for d in tcx.hir_crate_items(()).definitions() {
            let d = d.to_def_id();
            if tcx.def_kind(d) == DefKind::Trait {
                let items: Vec<String> = tcx.associated_items(d).in_definition_order().map(|a| format!("[{},{},{}]", esc(&a.opt_name().map(|s| s.to_string()).unwrap_or_default()), esc(&id(tcx, a.def_id)), a.defaultness(tcx).has_value())).collect();
                traits.push(format!("{{\"path\":{},\"pub\":{},\"span\":{},\"items\":[{}]}}", esc(&cx.path(d)), tcx.visibility(d).is_public(), cx.span(tcx.def_span(d)), items.join(",")));
            }
            if matches!(tcx.def_kind(d), DefKind::Struct | DefKind::Enum) { let def = tcx.adt_def(d); let p = cx.path(d); cx.adt(def, &p); }
        }
        let externs: Vec<String> = tcx.crates(()).iter().map(|c| esc(tcx.crate_name(*c).as_str())).collect();
        let adts: Vec<String> = cx.adts.iter().map(|(k, v)| format!("{}:{}", esc(k), v)).collect();
        let s = format!("{{\"crates\":[{}],\n\"types\":[{}],\n\"adts\":{{{}}},\n\"impls\":[{}],\n\"traits\":[{}],\n\"bodies\":{{{}}}}}\n", externs.join(","), cx.types.join(",\n"), adts.join(",\n"), impls.join(",\n"), traits.join(",\n"), bodies.join(",\n"));
        std::fs::write(&out, s).expect("write");
        Compilation::Continue
    }
}

fn main() {
    let mut args: Vec<String> = std::env::args().collect();
    // used as RUSTC_WORKSPACE_WRAPPER: argv[1] is the real rustc
    if args.len() > 1 && args[1].ends_with("rustc") { args.remove(1); }
    rustc_driver::compiler_entrypoint(&args, &mut Cb);
}

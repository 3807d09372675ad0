//! mirfacts: a rustc wrapper that type-checks the crate named in MIRFACTS_CRATE with the
//! real build's flags and writes its resolved MIR (types, layouts, callees, bodies, impls) as JSON.
//! It never runs any code of the analysed crate.
#![feature(rustc_private)]
extern crate rustc_abi;
extern crate rustc_ast;
extern crate rustc_data_structures;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_session;
extern crate rustc_span;

use rustc_driver::{Callbacks, Compilation};
use rustc_hir::def::DefKind;
use rustc_middle::mir;
use rustc_middle::ty::{self, Ty, TyCtxt, TyKind};
use rustc_span::def_id::DefId;
use std::collections::{HashMap, HashSet, VecDeque};
use std::fmt::Write as _;

fn esc(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn arr<I: IntoIterator<Item = String>>(it: I) -> String {
    let v: Vec<String> = it.into_iter().collect();
    format!("[{}]", v.join(","))
}

struct Cx<'tcx> {
    tcx: TyCtxt<'tcx>,
    tys: HashMap<Ty<'tcx>, usize>,
    ty_json: Vec<String>,
    queue: VecDeque<DefId>,
    seen: HashSet<DefId>,
}

fn path(tcx: TyCtxt<'_>, d: DefId) -> String {
    let s = ty::print::with_no_trimmed_paths!(ty::print::with_resolve_crate_name!(tcx.def_path_str(d)));
    s
}

fn allowed_extern(p: &str) -> bool {
    // foreign bodies worth inlining: small generic combinators
    const A: &[&str] = &[
        "core::option::", "core::result::", "core::mem::", "core::ops::", "core::cmp::", "core::convert::",
        "core::borrow::", "core::num::", "core::array::", "core::ptr::", "core::iter::", "core::slice::", "core::str::",
        "core::char::", "core::alloc::", "std::ptr::", "std::num::", "std::array::", "std::iter::", "std::slice::", "std::str::", "std::char::", "std::borrow::", "std::clone::", "std::bool::", "std::default::", "std::hint::", "std::alloc::Layout", "std::primitive", "core::sync::", "alloc::borrow::", "core::marker::", "core::clone::",
        "std::option::", "std::result::", "std::mem::", "std::ops::", "std::cmp::", "std::convert::",
        "core::ascii::", "core::any::", "core::default::", "core::bool::", "core::hint::", "core::cell::",
    ];
    let q = p.trim_start_matches(|c| c == '<' || c == '&' || c == ' ');
    A.iter().any(|a| q.starts_with(a)) || A.iter().any(|a| p.contains(&format!(" as {}", a)))
}

impl<'tcx> Cx<'tcx> {
    fn args(&mut self, args: ty::GenericArgsRef<'tcx>) -> String {
        let mut v = Vec::new();
        for a in args.iter() {
            match a.kind() {
                ty::GenericArgKind::Type(t) => v.push(self.ty(t).to_string()),
                ty::GenericArgKind::Const(c) => v.push(esc(&format!("const {}", self.cst(c)))),
                ty::GenericArgKind::Lifetime(_) => v.push("null".into()),
            }
        }
        arr(v)
    }
    fn cst(&self, c: ty::Const<'tcx>) -> String {
        match c.try_to_target_usize(self.tcx) {
            Some(n) => n.to_string(),
            None => format!("{:?}", c),
        }
    }
    fn ty(&mut self, t: Ty<'tcx>) -> usize {
        let t = self.tcx.erase_and_anonymize_regions(t);
        if let Some(i) = self.tys.get(&t) {
            return *i;
        }
        let i = self.ty_json.len();
        self.tys.insert(t, i);
        self.ty_json.push(String::new());
        let tcx = self.tcx;
        let disp = ty::print::with_no_trimmed_paths!(ty::print::with_resolve_crate_name!(t.to_string()));
        let mut j = format!("{{\"s\":{}", esc(&disp));
        match *t.kind() {
            TyKind::Bool => j.push_str(",\"k\":\"bool\""),
            TyKind::Char => j.push_str(",\"k\":\"char\""),
            TyKind::Int(it) => {
                let _ = write!(j, ",\"k\":\"int\",\"signed\":true,\"bits\":{}", it.bit_width().unwrap_or(64));
            }
            TyKind::Uint(it) => {
                let _ = write!(j, ",\"k\":\"int\",\"signed\":false,\"bits\":{}", it.bit_width().unwrap_or(64));
            }
            TyKind::Float(_) => j.push_str(",\"k\":\"float\""),
            TyKind::Str => j.push_str(",\"k\":\"str\""),
            TyKind::Never => j.push_str(",\"k\":\"never\""),
            TyKind::Adt(def, args) => {
                let kind = if def.is_union() { "union" } else if def.is_enum() { "enum" } else { "struct" };
                let a = self.args(args);
                let _ = write!(j, ",\"k\":\"adt\",\"adt\":\"{}\",\"def\":{},\"args\":{}", kind, esc(&path(tcx, def.did())), a);
                if let Some(d) = tcx.adt_destructor(def.did()) {
                    let _ = write!(j, ",\"drop\":{}", esc(&path(tcx, d.did)));
                    self.want(d.did);
                }
                let _ = write!(j, ",\"manually_drop\":{}", def.is_manually_drop());
                let mut vs = Vec::new();
                for (vi, v) in def.variants().iter_enumerated() {
                    let mut fs = Vec::new();
                    for f in v.fields.iter() {
                        let ft = f.ty(tcx, args);
                        let ft = ft.skip_norm_wip();
                        let env = ty::TypingEnv::post_analysis(tcx, def.did());
                        let ft = if args.iter().any(|a| a.as_type().map_or(false, |t| ty::TypeVisitableExt::has_param(&t))) { ft } else {
                            tcx.try_normalize_erasing_regions(env, ty::Unnormalized::new_wip(ft)).unwrap_or(ft)
                        };
                        let fi = self.ty(ft);
                        let vis = if f.vis.is_public() { "pub" } else { "priv" };
                        fs.push(format!("{{\"n\":{},\"t\":{},\"v\":\"{}\"}}", esc(f.name.as_str()), fi, vis));
                    }
                    let discr = if def.is_enum() { def.discriminant_for_variant(tcx, vi).val.to_string() } else { "0".into() };
                    vs.push(format!("{{\"n\":{},\"d\":\"{}\",\"f\":{}}}", esc(v.name.as_str()), discr, arr(fs)));
                }
                let _ = write!(j, ",\"variants\":{},\"local\":{}", arr(vs), def.did().is_local());
            }
            TyKind::Ref(_, p, m) => {
                let pi = self.ty(p);
                let _ = write!(j, ",\"k\":\"ref\",\"mut\":{},\"t\":{}", m.is_mut(), pi);
            }
            TyKind::RawPtr(p, m) => {
                let pi = self.ty(p);
                let _ = write!(j, ",\"k\":\"ptr\",\"mut\":{},\"t\":{}", m.is_mut(), pi);
            }
            TyKind::Slice(p) => {
                let pi = self.ty(p);
                let _ = write!(j, ",\"k\":\"slice\",\"t\":{}", pi);
            }
            TyKind::Array(p, n) => {
                let pi = self.ty(p);
                let c = self.cst(n);
                let _ = write!(j, ",\"k\":\"array\",\"t\":{},\"n\":{}", pi, esc(&c));
            }
            TyKind::Tuple(ts) => {
                let mut v = Vec::new();
                for x in ts.iter() {
                    v.push(self.ty(x).to_string());
                }
                let _ = write!(j, ",\"k\":\"tuple\",\"ts\":{}", arr(v));
            }
            TyKind::Param(p) => {
                let _ = write!(j, ",\"k\":\"param\",\"i\":{},\"n\":{}", p.index, esc(p.name.as_str()));
            }
            TyKind::FnDef(d, a) => {
                let a = self.args(a.skip_binder());
                let _ = write!(j, ",\"k\":\"fndef\",\"def\":{},\"args\":{}", esc(&path(tcx, d)), a);
            }
            TyKind::FnPtr(..) => j.push_str(",\"k\":\"fnptr\""),
            TyKind::Closure(d, a) => {
                let ups: Vec<Ty<'tcx>> = a.as_closure().upvar_tys().iter().collect();
                let mut v = Vec::new();
                for x in ups {
                    v.push(self.ty(x).to_string());
                }
                let aj = self.args(a);
                let _ = write!(j, ",\"k\":\"closure\",\"def\":{},\"ups\":{},\"args\":{}", esc(&path(tcx, d)), arr(v), aj);
                self.want(d);
            }
            TyKind::Alias(_, al) => {
                j.push_str(",\"k\":\"alias\"");
                if let ty::AliasTyKind::Projection { def_id } = al.kind {
                    let tr = tcx.parent(def_id);
                    let a = self.args(al.args);
                    let _ = write!(j, ",\"trait\":{},\"item\":{},\"args\":{}", esc(&path(tcx, tr)), esc(tcx.item_name(def_id).as_str()), a);
                }
            }
            TyKind::Dynamic(..) => j.push_str(",\"k\":\"dyn\""),
            _ => j.push_str(",\"k\":\"other\""),
        }
        if !ty::TypeVisitableExt::has_param(&t) && !ty::TypeVisitableExt::has_escaping_bound_vars(&t) && !matches!(t.kind(), TyKind::Alias(..)) {
            let env = ty::TypingEnv::fully_monomorphized();
            if let Ok(l) = tcx.layout_of(env.as_query_input(t)) {
                if l.is_sized() {
                    let _ = write!(j, ",\"size\":{},\"align\":{}", l.size.bytes(), l.align.abi.bytes());
                    if let rustc_abi::FieldsShape::Arbitrary { ref offsets, .. } = l.fields {
                        let _ = write!(j, ",\"offs\":{}", arr(offsets.iter().map(|o| o.bytes().to_string())));
                    }
                }
            }
            if !matches!(t.kind(), TyKind::FnPtr(..)) {
                let _ = write!(j, ",\"needs_drop\":{}", t.needs_drop(tcx, env));
                if t.is_sized(tcx, env) {
                    let _ = write!(j, ",\"freeze\":{}", t.is_freeze(tcx, env));
                }
            }
        } else {
            j.push_str(",\"poly\":true");
        }
        j.push('}');
        self.ty_json[i] = j;
        i
    }

    fn want(&mut self, d: DefId) {
        if self.seen.insert(d) {
            self.queue.push_back(d);
        }
    }

    fn place(&mut self, p: &mir::Place<'tcx>) -> String {
        let mut v = vec![p.local.as_usize().to_string()];
        for e in p.projection.iter() {
            v.push(match e {
                mir::ProjectionElem::Deref => "\"*\"".to_string(),
                mir::ProjectionElem::Field(f, t) => format!("[\"f\",{},{}]", f.as_usize(), self.ty(t)),
                mir::ProjectionElem::Index(l) => format!("[\"i\",{}]", l.as_usize()),
                mir::ProjectionElem::ConstantIndex { offset, min_length, from_end } => {
                    format!("[\"ci\",{},{},{}]", offset, min_length, from_end)
                }
                mir::ProjectionElem::Subslice { from, to, from_end } => format!("[\"ss\",{},{},{}]", from, to, from_end),
                mir::ProjectionElem::Downcast(_, v) => format!("[\"d\",{}]", v.as_usize()),
                mir::ProjectionElem::OpaqueCast(t) | mir::ProjectionElem::UnwrapUnsafeBinder(t) => format!("[\"c\",{}]", self.ty(t)),
                _ => "\"?\"".to_string(),
            });
        }
        arr(v)
    }

    fn alloc_bytes(&self, id: mir::interpret::AllocId) -> Option<Vec<u8>> {
        match self.tcx.try_get_global_alloc(id)? {
            mir::interpret::GlobalAlloc::Memory(m) => {
                let a = m.inner();
                let n = a.len();
                Some(a.inspect_with_uninit_and_ptr_outside_interpreter(0..n).to_vec())
            }
            _ => None,
        }
    }

    fn cvalue(&mut self, v: mir::ConstValue, t: Ty<'tcx>) -> String {
        let tcx = self.tcx;
        match v {
            mir::ConstValue::Scalar(mir::interpret::Scalar::Int(i)) => {
                format!(",\"int\":\"{}\"", i.to_bits(i.size()))
            }
            mir::ConstValue::Scalar(mir::interpret::Scalar::Ptr(p, _)) => {
                let (prov, off) = p.prov_and_relative_offset();
                let aid = prov.alloc_id();
                match tcx.try_get_global_alloc(aid) {
                    Some(mir::interpret::GlobalAlloc::Static(d)) => format!(",\"static\":{}", esc(&path(tcx, d))),
                    Some(mir::interpret::GlobalAlloc::Function { instance }) => {
                        self.want(instance.def_id());
                        format!(",\"fnptr\":{}", esc(&path(tcx, instance.def_id())))
                    }
                    _ => match self.alloc_bytes(aid) {
                        Some(b) => format!(",\"mem\":{},\"moff\":{},\"mlen\":{}", esc(&hex(&b)), off.bytes(), b.len()),
                        None => ",\"ptr\":true".into(),
                    },
                }
            }
            mir::ConstValue::ZeroSized => ",\"zst\":true".into(),
            mir::ConstValue::Slice { alloc_id, meta } => {
                let b = self.alloc_bytes(alloc_id).unwrap_or_default();
                format!(",\"slice\":{},\"slen\":{}", esc(&hex(&b)), meta)
            }
            mir::ConstValue::Indirect { alloc_id, offset } => {
                let b = self.alloc_bytes(alloc_id).unwrap_or_default();
                let mut s = format!(",\"ind\":{},\"moff\":{}", esc(&hex(&b)), offset.bytes());
                // pointers inside the allocation (vtables of fn pointers etc.)
                if let Some(mir::interpret::GlobalAlloc::Memory(m)) = tcx.try_get_global_alloc(alloc_id) {
                    let mut ps = Vec::new();
                    for (o, prov) in m.inner().provenance().ptrs().iter() {
                        let tgt = match tcx.try_get_global_alloc(prov.alloc_id()) {
                            Some(mir::interpret::GlobalAlloc::Function { instance }) => {
                                self.want(instance.def_id());
                                path(tcx, instance.def_id())
                            }
                            Some(mir::interpret::GlobalAlloc::Static(d)) => path(tcx, d),
                            _ => "?".into(),
                        };
                        ps.push(format!("[{},{}]", o.bytes(), esc(&tgt)));
                    }
                    let _ = write!(s, ",\"relocs\":{}", arr(ps));
                }
                let _ = t;
                s
            }
        }
    }

    fn constant(&mut self, c: &mir::ConstOperand<'tcx>, owner: DefId) -> String {
        let tcx = self.tcx;
        let t = c.const_.ty();
        let ti = self.ty(t);
        let mut j = format!("{{\"c\":{}", ti);
        if let TyKind::FnDef(d, args) = *t.kind() {
            let _ = write!(j, ",\"fn\":{}", self.callee(d, args.skip_binder(), owner));
            j.push('}');
            return j;
        }
        if let mir::Const::Unevaluated(u, _) = c.const_ {
            let _ = write!(j, ",\"path\":{}", esc(&path(tcx, u.def)));
            let a = self.args(u.args);
            let _ = write!(j, ",\"uargs\":{}", a);
            if let Some(p) = u.promoted {
                let _ = write!(j, ",\"promoted\":{}", p.as_usize());
            }
        }
        let env = ty::TypingEnv::post_analysis(tcx, owner);
        if let mir::Const::Ty(_, ct) = c.const_ {
            let _ = write!(j, ",\"tyconst\":{}", esc(&self.cst(ct)));
        }
        let generic = ty::TypeVisitableExt::has_param(&c.const_);
        if !generic {
            if let Ok(v) = c.const_.eval(tcx, env, c.span) {
                let s = self.cvalue(v, t);
                j.push_str(&s);
            }
        } else {
            j.push_str(",\"generic\":true");
        }
        j.push('}');
        j
    }

    fn callee(&mut self, d: DefId, args: ty::GenericArgsRef<'tcx>, owner: DefId) -> String {
        let tcx = self.tcx;
        let a = self.args(args);
        let mut j = format!("{{\"p\":{},\"a\":{}", esc(&path(tcx, d)), a);
        if let Some(tr) = tcx.trait_of_assoc(d) {
            let _ = write!(j, ",\"tr\":{},\"m\":{}", esc(&path(tcx, tr)), esc(tcx.item_name(d).as_str()));
        }
        if tcx.intrinsic(d).is_some() {
            j.push_str(",\"intr\":true");
        }
        let env = ty::TypingEnv::post_analysis(tcx, owner);
        let args_e = tcx.erase_and_anonymize_regions(args);
        if let Ok(Some(inst)) = ty::Instance::try_resolve(tcx, env, d, args_e) {
            let rd = inst.def_id();
            let kind = match inst.def {
                ty::InstanceKind::Item(_) => "item",
                ty::InstanceKind::Intrinsic(_) => "intrinsic",
                ty::InstanceKind::Virtual(..) => "virtual",
                ty::InstanceKind::Shim(ty::ShimKind::DropGlue(..)) => "dropglue",
                ty::InstanceKind::Shim(ty::ShimKind::Clone(..)) => "cloneshim",
                ty::InstanceKind::Shim(ty::ShimKind::FnPtr(..)) => "fnptrshim",
                ty::InstanceKind::Shim(ty::ShimKind::ClosureOnce { .. }) => "closureonce",
                _ => "other",
            };
            let ra = self.args(inst.args);
            let _ = write!(j, ",\"r\":{},\"ra\":{},\"rk\":\"{}\",\"l\":{}", esc(&path(tcx, rd)), ra, kind, rd.is_local());
            if kind == "item" {
                self.want(rd);
            }
        } else if tcx.trait_of_assoc(d).is_none() {
            self.want(d);
        }
        j.push('}');
        j
    }

    fn operand(&mut self, o: &mir::Operand<'tcx>, owner: DefId) -> String {
        match o {
            mir::Operand::Copy(p) => format!("{{\"cp\":{}}}", self.place(p)),
            mir::Operand::Move(p) => format!("{{\"mv\":{}}}", self.place(p)),
            mir::Operand::Constant(c) => self.constant(c, owner),
            mir::Operand::RuntimeChecks(_) => "{\"rtc\":true}".into(),
        }
    }

    fn rvalue(&mut self, r: &mir::Rvalue<'tcx>, owner: DefId) -> String {
        match r {
            mir::Rvalue::Use(o, _) => format!("[\"use\",{}]", self.operand(o, owner)),
            mir::Rvalue::Repeat(o, n) => format!("[\"repeat\",{},{}]", self.operand(o, owner), esc(&self.cst(*n))),
            mir::Rvalue::Ref(_, k, p) => {
                let m = matches!(k, mir::BorrowKind::Mut { .. });
                format!("[\"ref\",{},{}]", m, self.place(p))
            }
            mir::Rvalue::ThreadLocalRef(d) => format!("[\"tls\",{}]", esc(&path(self.tcx, *d))),
            mir::Rvalue::RawPtr(k, p) => {
                let m = matches!(k, mir::RawPtrKind::Mut);
                format!("[\"addr\",{},{}]", m, self.place(p))
            }
            mir::Rvalue::Cast(k, o, t) => {
                let ks = format!("{:?}", k);
                format!("[\"cast\",{},{},{}]", esc(&ks), self.operand(o, owner), self.ty(*t))
            }
            mir::Rvalue::BinaryOp(op, b) => {
                format!("[\"bin\",\"{:?}\",{},{}]", op, self.operand(&b.0, owner), self.operand(&b.1, owner))
            }
            mir::Rvalue::UnaryOp(op, o) => format!("[\"un\",\"{:?}\",{}]", op, self.operand(o, owner)),
            mir::Rvalue::Discriminant(p) => format!("[\"discr\",{}]", self.place(p)),
            mir::Rvalue::Aggregate(k, ops) => {
                let mut v = Vec::new();
                for o in ops.iter() {
                    v.push(self.operand(o, owner));
                }
                let ks = match **k {
                    mir::AggregateKind::Array(t) => format!("\"array\",{}", self.ty(t)),
                    mir::AggregateKind::Tuple => "\"tuple\",null".to_string(),
                    mir::AggregateKind::Adt(d, vi, args, _, fi) => {
                        let t = self.tcx.type_of(d).instantiate(self.tcx, args).skip_norm_wip();
                        format!("\"adt\",[{},{},{}]", self.ty(t), vi.as_usize(), fi.map_or("null".to_string(), |f| f.as_usize().to_string()))
                    }
                    mir::AggregateKind::Closure(d, args) => {
                        self.want(d);
                        let t = Ty::new_closure(self.tcx, d, args);
                        format!("\"closure\",{}", self.ty(t))
                    }
                    mir::AggregateKind::RawPtr(t, m) => format!("\"rawptr\",[{},{}]", self.ty(t), m.is_mut()),
                    _ => "\"other\",null".to_string(),
                };
                format!("[\"agg\",{},{}]", ks, arr(v))
            }
            mir::Rvalue::CopyForDeref(p) => format!("[\"use\",{{\"cp\":{}}}]", self.place(p)),
            mir::Rvalue::WrapUnsafeBinder(o, _) => format!("[\"use\",{}]", self.operand(o, owner)),
            _ => "[\"?\"]".into(),
        }
    }

    fn span(&self, s: rustc_span::Span) -> String {
        let s = s.source_callsite();
        let sm = self.tcx.sess.source_map();
        let lo = sm.lookup_char_pos(s.lo());
        let f = match &lo.file.name {
            rustc_span::FileName::Real(r) => r.local_path().map(|p| p.display().to_string()).unwrap_or_default(),
            _ => String::new(),
        };
        format!("{}:{}", f, lo.line)
    }

    fn body(&mut self, b: &mir::Body<'tcx>, owner: DefId) -> String {
        let mut locals = Vec::new();
        for l in b.local_decls.iter() {
            locals.push(self.ty(l.ty).to_string());
        }
        let mut names = Vec::new();
        for v in b.var_debug_info.iter() {
            if let mir::VarDebugInfoContents::Place(p) = &v.value {
                names.push(format!("[{},{}]", esc(v.name.as_str()), self.place(p)));
            }
        }
        let mut blocks = Vec::new();
        for bb in b.basic_blocks.iter() {
            let mut ss = Vec::new();
            for s in bb.statements.iter() {
                let line = self.tcx.sess.source_map().lookup_char_pos(s.source_info.span.source_callsite().lo()).line;
                let js = match &s.kind {
                    mir::StatementKind::Assign(x) => {
                        format!("[\"=\",{},{},{}]", self.place(&x.0), self.rvalue(&x.1, owner), line)
                    }
                    mir::StatementKind::SetDiscriminant { place, variant_index } => {
                        format!("[\"sd\",{},{},{}]", self.place(place), variant_index.as_usize(), line)
                    }
                    mir::StatementKind::StorageDead(l) => format!("[\"dead\",{}]", l.as_usize()),
                    mir::StatementKind::Intrinsic(i) => match &**i {
                        mir::NonDivergingIntrinsic::Assume(o) => format!("[\"assume\",{},{}]", self.operand(o, owner), line),
                        mir::NonDivergingIntrinsic::CopyNonOverlapping(c) => format!(
                            "[\"cno\",{},{},{},{}]",
                            self.operand(&c.src, owner),
                            self.operand(&c.dst, owner),
                            self.operand(&c.count, owner),
                            line
                        ),
                    },
                    _ => continue,
                };
                ss.push(js);
            }
            let t = bb.terminator();
            let line = self.tcx.sess.source_map().lookup_char_pos(t.source_info.span.source_callsite().lo()).line;
            let uw = |u: &mir::UnwindAction| match u {
                mir::UnwindAction::Cleanup(b) => b.as_usize().to_string(),
                _ => "null".into(),
            };
            let tj = match &t.kind {
                mir::TerminatorKind::Goto { target, .. } => format!("[\"goto\",{}]", target.as_usize()),
                mir::TerminatorKind::SwitchInt { discr, targets } => {
                    let vs = arr(targets.iter().map(|(v, t)| format!("[\"{}\",{}]", v, t.as_usize())));
                    format!("[\"switch\",{},{},{},{}]", self.operand(discr, owner), vs, targets.otherwise().as_usize(), line)
                }
                mir::TerminatorKind::UnwindResume => "[\"resume\"]".into(),
                mir::TerminatorKind::UnwindTerminate(_) => "[\"abort\"]".into(),
                mir::TerminatorKind::Return => "[\"ret\"]".into(),
                mir::TerminatorKind::Unreachable => "[\"unreachable\"]".into(),
                mir::TerminatorKind::Drop { place, target, unwind, .. } => {
                    let pt = place.ty(&b.local_decls, self.tcx).ty;
                    let pti = self.ty(pt);
                    format!("[\"drop\",{},{},{},{},{}]", self.place(place), target.as_usize(), uw(unwind), pti, line)
                }
                mir::TerminatorKind::Call { func, args, destination, target, unwind, .. } => {
                    let mut v = Vec::new();
                    for a in args.iter() {
                        v.push(self.operand(&a.node, owner));
                    }
                    let f = self.operand(func, owner);
                    format!(
                        "[\"call\",{},{},{},{},{},{}]",
                        f,
                        arr(v),
                        self.place(destination),
                        target.map_or("null".to_string(), |b| b.as_usize().to_string()),
                        uw(unwind),
                        line
                    )
                }
                mir::TerminatorKind::Assert { cond, expected, msg, target, unwind } => {
                    let ms = match &**msg {
                        mir::AssertKind::BoundsCheck { .. } => "bounds".to_string(),
                        mir::AssertKind::Overflow(op, ..) => format!("overflow {:?}", op),
                        o => format!("{:?}", o).chars().take(40).collect(),
                    };
                    format!("[\"assert\",{},{},{},{},{},{}]", self.operand(cond, owner), expected, esc(&ms), target.as_usize(), uw(unwind), line)
                }
                mir::TerminatorKind::FalseEdge { real_target, .. } => format!("[\"goto\",{}]", real_target.as_usize()),
                mir::TerminatorKind::FalseUnwind { real_target, .. } => format!("[\"goto\",{}]", real_target.as_usize()),
                _ => "[\"?\"]".into(),
            };
            blocks.push(format!("{{\"s\":{},\"t\":{},\"cl\":{}}}", arr(ss), tj, bb.is_cleanup));
        }
        format!(
            "\"argc\":{},\"locals\":{},\"names\":{},\"blocks\":{}",
            b.arg_count,
            arr(locals),
            arr(names),
            arr(blocks)
        )
    }
}

fn hex(b: &[u8]) -> String {
    let mut s = String::with_capacity(b.len() * 2);
    for x in b.iter().take(4096) {
        let _ = write!(s, "{:02x}", x);
    }
    s
}

fn dump(tcx: TyCtxt<'_>) {
    let out = std::env::var("MIRFACTS_OUT").expect("MIRFACTS_OUT");
    let mut cx = Cx { tcx, tys: HashMap::new(), ty_json: vec![], queue: VecDeque::new(), seen: HashSet::new() };
    let eff = tcx.effective_visibilities(());
    let mut fns: Vec<String> = Vec::new();
    let mut items: Vec<String> = Vec::new();
    // local bodies
    for ld in tcx.mir_keys(()).iter() {
        cx.want(ld.to_def_id());
    }
    let mut count = 0usize;
    while let Some(d) = cx.queue.pop_front() {
        let p = path(tcx, d);
        let local = d.is_local();
        if !local && !allowed_extern(&p) {
            continue;
        }
        if !tcx.is_mir_available(d) {
            continue;
        }
        let kind = tcx.def_kind(d);
        let body: &mir::Body<'_> = match kind {
            DefKind::Fn | DefKind::AssocFn | DefKind::Closure => tcx.optimized_mir(d),
            DefKind::Ctor(..) => {
                if !local { continue; }
                tcx.optimized_mir(d)
            }
            DefKind::Const { .. } | DefKind::Static { .. } | DefKind::AssocConst { .. } | DefKind::AnonConst => {
                if !local {
                    continue;
                }
                tcx.mir_for_ctfe(d)
            }
            _ => continue,
        };
        if !local && count > 6000 {
            continue;
        }
        count += 1;
        let bj = cx.body(body, d);
        let mut j = format!("{{\"p\":{},\"kind\":{},\"local\":{}", esc(&p), esc(&format!("{:?}", kind).split(|c: char| c == '(' || c == ' ').next().unwrap_or("")), local);
        if matches!(kind, DefKind::Fn | DefKind::AssocFn) {
            let sig = tcx.fn_sig(d).instantiate_identity().skip_norm_wip();
            let ss = ty::print::with_no_trimmed_paths!(ty::print::with_resolve_crate_name!(sig.to_string()));
            let _ = write!(j, ",\"sig\":{},\"unsafe\":{},\"const\":{}", esc(&ss), sig.safety().is_unsafe(), tcx.is_const_fn(d));
            if local {
                let g = tcx.generics_of(d);
                let mut gs = Vec::new();
                let mut cur = Some(g);
                while let Some(x) = cur {
                    for prm in &x.own_params {
                        gs.push(format!("[{},{}]", prm.index, esc(prm.name.as_str())));
                    }
                    cur = x.parent.map(|pp| tcx.generics_of(pp));
                }
                let _ = write!(j, ",\"generics\":{}", arr(gs));
                let preds = tcx.clauses_of(d).instantiate_identity(tcx);
                let ps = arr(preds.clauses.iter().map(|c| {
                    let c = (*c).skip_norm_wip();
                    esc(&ty::print::with_no_trimmed_paths!(ty::print::with_resolve_crate_name!(c.to_string())))
                }));
                let _ = write!(j, ",\"preds\":{}", ps);
            }
        }
        if let Some(imp) = tcx.trait_impl_of_assoc(d) {
            let tr = tcx.impl_trait_ref(imp).instantiate_identity().skip_norm_wip();
            let st = cx.ty(tr.self_ty());
            let ta = cx.args(tr.args);
            let _ = write!(j, ",\"trait\":{},\"self\":{},\"targs\":{},\"m\":{}", esc(&path(tcx, tr.def_id)), st, ta, esc(tcx.item_name(d).as_str()));
        } else if let Some(imp) = tcx.inherent_impl_of_assoc(d) {
            let st = cx.ty(tcx.type_of(imp).instantiate_identity().skip_norm_wip());
            let _ = write!(j, ",\"self\":{},\"m\":{}", st, esc(tcx.item_name(d).as_str()));
        } else if let Some(tr) = tcx.trait_of_assoc(d) {
            let _ = write!(j, ",\"indefault\":{},\"m\":{}", esc(&path(tcx, tr)), esc(tcx.item_name(d).as_str()));
        }
        if let Some(ld) = d.as_local() {
            let reach = eff.is_reachable(ld);
            let ppub = matches!(kind, DefKind::Fn | DefKind::AssocFn) && tcx.visibility(d).is_public();
            let _ = write!(j, ",\"pub\":{},\"reach\":{}", ppub, reach);
            let _ = write!(j, ",\"span\":{}", esc(&cx.span(tcx.def_span(d))));
            let parent = tcx.parent(d);
            let _ = write!(j, ",\"parent\":{}", esc(&path(tcx, parent)));
            let mut pr = Vec::new();
            if matches!(kind, DefKind::Fn | DefKind::AssocFn | DefKind::Closure | DefKind::Const { .. } | DefKind::Static { .. } | DefKind::AssocConst { .. } | DefKind::AnonConst) {
                for pb in tcx.promoted_mir(d).iter() {
                    let pj = cx.body(pb, d);
                    pr.push(format!("{{{}}}", pj));
                }
            }
            let _ = write!(j, ",\"proms\":{}", arr(pr));
        }
        let _ = write!(j, ",{}}}", bj);
        fns.push(j);
    }
    // impls + adts + statics
    for id in tcx.hir_crate_items(()).definitions() {
        let d = id.to_def_id();
        match tcx.def_kind(d) {
            DefKind::Impl { of_trait } => {
                let st = cx.ty(tcx.type_of(d).instantiate_identity().skip_norm_wip());
                let mut j = format!("{{\"k\":\"impl\",\"self\":{}", st);
                if of_trait {
                    let hdr = tcx.impl_trait_header(d);
                    let tr = hdr.trait_ref.instantiate_identity().skip_norm_wip();
                    let ta = cx.args(tr.args);
                    let ts = ty::print::with_no_trimmed_paths!(ty::print::with_resolve_crate_name!(tr.to_string()));
                    let _ = write!(j, ",\"trait\":{},\"targs\":{},\"ts\":{},\"unsafe\":{},\"neg\":{}", esc(&path(tcx, tr.def_id)), ta, esc(&ts), hdr.safety.is_unsafe(), matches!(hdr.polarity, ty::ImplPolarity::Negative));
                }
                let mut ms = Vec::new();
                for it in tcx.associated_items(d).in_definition_order() {
                    let v = if it.is_type() && tcx.defaultness(it.def_id).has_value() { cx.ty(tcx.type_of(it.def_id).instantiate_identity().skip_norm_wip()).to_string() } else { "null".to_string() };
                    ms.push(format!("[{},{},{}]", esc(it.opt_name().map_or(String::new(), |n| n.to_string()).as_str()), esc(&path(tcx, it.def_id)), v));
                }
                let preds = tcx.clauses_of(d).instantiate_identity(tcx);
                let ps = arr(preds.clauses.iter().map(|c| {
                    let c = (*c).skip_norm_wip();
                    esc(&ty::print::with_no_trimmed_paths!(ty::print::with_resolve_crate_name!(c.to_string())))
                }));
                let _ = write!(j, ",\"items\":{},\"preds\":{},\"span\":{}}}", arr(ms), ps, esc(&cx.span(tcx.def_span(d))));
                items.push(j);
            }
            DefKind::Struct | DefKind::Union | DefKind::Enum => {
                let t = tcx.type_of(d).instantiate_identity().skip_norm_wip();
                let ti = cx.ty(t);
                let repr = tcx.adt_def(d).repr();
                // layout with regions erased is in the type table when no type parameters are left
                items.push(format!(
                    "{{\"k\":\"adt\",\"p\":{},\"t\":{},\"pub\":{},\"reprc\":{},\"span\":{}}}",
                    esc(&path(tcx, d)),
                    ti,
                    tcx.visibility(d).is_public(),
                    repr.c(),
                    esc(&cx.span(tcx.def_span(d)))
                ));
            }
            DefKind::Trait => {
                let preds = tcx.clauses_of(d).instantiate_identity(tcx);
                let ps = arr(preds.clauses.iter().map(|c| {
                    let c = (*c).skip_norm_wip();
                    esc(&ty::print::with_no_trimmed_paths!(ty::print::with_resolve_crate_name!(c.to_string())))
                }));
                items.push(format!(
                    "{{\"k\":\"trait\",\"p\":{},\"unsafe\":{},\"preds\":{},\"pub\":{}}}",
                    esc(&path(tcx, d)),
                    tcx.trait_def(d).safety.is_unsafe(),
                    ps,
                    tcx.visibility(d).is_public()
                ));
            }
            DefKind::Static { .. } | DefKind::Const { .. } => {
                let t = tcx.type_of(d).instantiate_identity().skip_norm_wip();
                let ti = cx.ty(t);
                let mut j = format!("{{\"k\":\"const\",\"p\":{},\"t\":{}", esc(&path(tcx, d)), ti);
                if matches!(tcx.def_kind(d), DefKind::Const { .. }) && tcx.generics_of(d).own_params.is_empty() {
                    if let Ok(v) = tcx.const_eval_poly(d) {
                        let s = cx.cvalue(v, t);
                        j.push_str(&s);
                    }
                } else if let Ok(a) = tcx.eval_static_initializer(d) {
                    let mut ps = Vec::new();
                    for (o, prov) in a.inner().provenance().ptrs().iter() {
                        let tgt = match tcx.try_get_global_alloc(prov.alloc_id()) {
                            Some(mir::interpret::GlobalAlloc::Function { instance }) => {
                                cx.want(instance.def_id());
                                path(tcx, instance.def_id())
                            }
                            Some(mir::interpret::GlobalAlloc::Static(d)) => path(tcx, d),
                            _ => "?".into(),
                        };
                        ps.push(format!("[{},{}]", o.bytes(), esc(&tgt)));
                    }
                    let _ = write!(j, ",\"relocs\":{}", arr(ps));
                }
                j.push('}');
                items.push(j);
            }
            _ => {}
        }
    }
    let s = format!(
        "{{\"crate\":{},\"types\":[\n{}\n],\n\"fns\":[\n{}\n],\n\"items\":[\n{}\n]}}\n",
        esc(tcx.crate_name(rustc_span::def_id::LOCAL_CRATE).as_str()),
        cx.ty_json.join(",\n"),
        fns.join(",\n"),
        items.join(",\n")
    );
    std::fs::write(&out, s).expect("write facts");
}

struct Cb {
    active: bool,
}
impl Callbacks for Cb {
    fn after_analysis<'tcx>(&mut self, _c: &rustc_interface::interface::Compiler, tcx: TyCtxt<'tcx>) -> Compilation {
        if self.active {
            dump(tcx);
        }
        Compilation::Continue
    }
}

fn main() -> std::process::ExitCode {
    let mut args: Vec<String> = std::env::args().collect();
    // RUSTC_WORKSPACE_WRAPPER: argv[1] is the rustc path
    if args.len() > 1 && (args[1].ends_with("rustc") || args[1].contains("/rustc")) {
        args.remove(1);
    }
    let want = std::env::var("MIRFACTS_CRATE").unwrap_or_default();
    let name = args.iter().position(|a| a == "--crate-name").and_then(|i| args.get(i + 1)).cloned().unwrap_or_default();
    let test = args.iter().any(|a| a == "--test");
    let active = !want.is_empty() && name == want && !test;
    if active {
        args.push("-Zmir-opt-level=0".into());
        args.push("-Zalways-encode-mir".into());
        args.push("-Zinline-mir=no".into());
        args.push("-Cdebug-assertions=off".into());
        args.push("-Coverflow-checks=off".into());
        args.push("--cap-lints=allow".into());
    }
    let mut cb = Cb { active };
    rustc_driver::catch_with_exit_code(move || rustc_driver::compiler_entrypoint(&args, &mut cb))
}

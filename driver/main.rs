//! MIR extractor: a rustc driver that behaves exactly like rustc, but for the crates named in
//! AJV_CRATES it also writes the *built* MIR (before the coroutine transform) of every body, the
//! ADTs, impls and the bodies of small std helpers (Option/Result/...) as JSON into AJV_OUT.
#![feature(rustc_private)]
extern crate rustc_abi;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_span;

use rustc_driver::{Callbacks, Compilation};
use rustc_hir::def::DefKind;
use rustc_hir::def_id::{DefId, LOCAL_CRATE};
use rustc_interface::interface;
use rustc_middle::mir::{self, *};
use rustc_middle::ty::{self, Ty, TyCtxt, TypingEnv};
use rustc_span::source_map::{FileLoader, RealFileLoader};
use std::collections::{BTreeMap, BTreeSet, HashMap, VecDeque};
use std::fmt::Write as _;
use std::path::{Path, PathBuf};
use std::sync::Arc;

/// redis 0.25 relies on the old `()` fallback of diverging inference variables; this compiler falls
/// back to `!`. Give `!` the (never called) impl, in memory, so the dependency still type-checks.
struct Loader;
impl FileLoader for Loader {
    fn file_exists(&self, p: &Path) -> bool {
        RealFileLoader.file_exists(p)
    }
    fn read_file(&self, p: &Path) -> std::io::Result<String> {
        let mut s = RealFileLoader.read_file(p)?;
        let ps = p.to_string_lossy();
        if ps.contains("/redis-0.") && ps.ends_with("/src/types.rs") {
            s.push_str("\nimpl FromRedisValue for ! { fn from_redis_value(_: &Value) -> RedisResult<Self> { unreachable!() } }\n");
        }
        Ok(s)
    }
    fn read_binary_file(&self, p: &Path) -> std::io::Result<Arc<[u8]>> {
        RealFileLoader.read_binary_file(p)
    }
    fn current_directory(&self) -> std::io::Result<PathBuf> {
        RealFileLoader.current_directory()
    }
}

fn esc(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn arr<I: IntoIterator<Item = String>>(i: I) -> String {
    format!("[{}]", i.into_iter().collect::<Vec<_>>().join(","))
}

struct Dump<'tcx> {
    tcx: TyCtxt<'tcx>,
    tys: HashMap<Ty<'tcx>, usize>,
    ty_out: Vec<String>,
    adts: BTreeMap<String, String>,
    adt_seen: BTreeSet<String>,
    queue: VecDeque<DefId>,
    queued: BTreeSet<(u32, u32)>,
}

fn path(tcx: TyCtxt<'_>, d: DefId) -> String {
    ty::print::with_no_trimmed_paths!(ty::print::with_no_visible_paths!({
        let s = tcx.def_path_str(d);
        if d.is_local() {
            // qualify with the crate name for uniformity
            format!("{}", s)
        } else {
            s
        }
    }))
}
fn key(tcx: TyCtxt<'_>, d: DefId) -> String {
    format!("{}{}", tcx.crate_name(d.krate), tcx.def_path(d).to_string_no_crate_verbose())
}

impl<'tcx> Dump<'tcx> {
    fn ty(&mut self, t: Ty<'tcx>) -> usize {
        if let Some(&i) = self.tys.get(&t) {
            return i;
        }
        let i = self.ty_out.len();
        self.tys.insert(t, i);
        self.ty_out.push(String::new());
        let tcx = self.tcx;
        let s = ty::print::with_no_trimmed_paths!(ty::print::with_no_visible_paths!(format!("{t}")));
        let body = match t.kind() {
            ty::Adt(def, args) => {
                let p = key(tcx, def.did());
                self.adt(*def);
                let a: Vec<String> = args.types().map(|t| self.ty(t).to_string()).collect();
                format!("\"k\":\"adt\",\"path\":{},\"args\":{}", esc(&p), arr(a))
            }
            ty::Ref(_, t2, m) => {
                let k = self.ty(*t2);
                format!("\"k\":\"ref\",\"mut\":{},\"t\":{}", m.is_mut(), k)
            }
            ty::RawPtr(t2, _) => {
                let k = self.ty(*t2);
                format!("\"k\":\"ptr\",\"t\":{}", k)
            }
            ty::Tuple(ts) => {
                let a: Vec<String> = ts.iter().map(|t| self.ty(t).to_string()).collect();
                format!("\"k\":\"tuple\",\"args\":{}", arr(a))
            }
            ty::Slice(t2) | ty::Array(t2, _) => {
                let k = self.ty(*t2);
                format!("\"k\":\"slice\",\"t\":{}", k)
            }
            ty::Closure(d, _) => format!("\"k\":\"closure\",\"def\":{}", esc(&key(tcx, *d))),
            ty::Coroutine(d, _) => format!("\"k\":\"coroutine\",\"def\":{}", esc(&key(tcx, *d))),
            ty::FnDef(d, args) => {
                let args = args.skip_binder();
                let a: Vec<String> = args.types().map(|t| self.ty(t).to_string()).collect();
                format!("\"k\":\"fndef\",\"def\":{},\"args\":{}", esc(&key(tcx, *d)), arr(a))
            }
            ty::Param(p) => format!("\"k\":\"param\",\"name\":{}", esc(p.name.as_str())),
            ty::Dynamic(preds, ..) => {
                let p = preds.principal_def_id().map(|d| key(tcx, d)).unwrap_or_default();
                format!("\"k\":\"dyn\",\"trait\":{}", esc(&p))
            }
            ty::Bool | ty::Char | ty::Int(_) | ty::Uint(_) | ty::Float(_) | ty::Str | ty::Never => {
                format!("\"k\":\"prim\"")
            }
            _ => format!("\"k\":\"other\""),
        };
        self.ty_out[i] = format!("{{{},\"s\":{}}}", body, esc(&s));
        i
    }

    fn adt(&mut self, def: ty::AdtDef<'tcx>) {
        let tcx = self.tcx;
        let p = key(tcx, def.did());
        if !self.adt_seen.insert(p.clone()) {
            return;
        }
        let mut vs = vec![];
        let local = def.did().is_local();
        let discrs: Vec<(rustc_abi::VariantIdx, String)> = if def.is_enum() {
            def.discriminants(tcx)
                .map(|(i, d)| {
                    let v = match d.ty.kind() {
                        ty::Int(it) => {
                            let bits = it.bit_width().unwrap_or(64);
                            if bits == 128 { d.val as i128 } else { ((d.val << (128 - bits)) as i128) >> (128 - bits) }
                        }
                        _ => d.val as i128,
                    };
                    (i, v.to_string())
                })
                .collect()
        } else {
            vec![]
        };
        for (vi, v) in def.variants().iter_enumerated() {
            let mut fs = vec![];
            for f in v.fields.iter() {
                let t = if local {
                    let t = tcx.type_of(f.did).instantiate_identity().skip_norm_wip();
                    self.ty(t).to_string()
                } else {
                    "null".into()
                };
                fs.push(format!("[{},{}]", esc(f.name.as_str()), t));
            }
            let d = discrs.iter().find(|x| x.0 == vi).map(|x| x.1.clone()).unwrap_or("0".into());
            vs.push(format!("{{\"name\":{},\"discr\":{},\"fields\":{}}}", esc(v.name.as_str()), d, arr(fs)));
        }
        let kind = if def.is_enum() { "enum" } else if def.is_union() { "union" } else { "struct" };
        self.adts.insert(p, format!("{{\"kind\":\"{}\",\"local\":{},\"variants\":{}}}", kind, local, arr(vs)));
    }

    fn place(&mut self, p: &Place<'tcx>) -> String {
        let mut pr = vec![];
        for e in p.projection.iter() {
            pr.push(match e {
                ProjectionElem::Deref => "[\"deref\"]".to_string(),
                ProjectionElem::Field(i, t) => format!("[\"f\",{},{}]", i.as_usize(), self.ty(t)),
                ProjectionElem::Index(l) => format!("[\"idx\",{}]", l.as_usize()),
                ProjectionElem::ConstantIndex { offset, from_end, .. } => {
                    format!("[\"cidx\",{},{}]", offset, from_end)
                }
                ProjectionElem::Subslice { from, to, from_end } => {
                    format!("[\"sub\",{},{},{}]", from, to, from_end)
                }
                ProjectionElem::Downcast(_, v) => format!("[\"dc\",{}]", v.as_usize()),
                _ => "[\"nop\"]".to_string(),
            });
        }
        format!("[{},{}]", p.local.as_usize(), arr(pr))
    }

    fn bytes_of(&self, alloc: mir::interpret::AllocId, len: usize) -> Option<Vec<u8>> {
        match self.tcx.try_get_global_alloc(alloc)? {
            mir::interpret::GlobalAlloc::Memory(a) => {
                let a = a.inner();
                Some(a.inspect_with_uninit_and_ptr_outside_interpreter(0..len.min(a.len())).to_vec())
            }
            _ => None,
        }
    }

    fn cval(&mut self, v: ConstValue, t: Ty<'tcx>) -> String {
        let tcx = self.tcx;
        match v {
            ConstValue::ZeroSized => "\"v\":\"zst\"".into(),
            ConstValue::Scalar(mir::interpret::Scalar::Int(i)) => {
                let size = i.size();
                let bits = i.to_bits(size);
                match t.kind() {
                    ty::Bool => format!("\"v\":\"bool\",\"b\":{}", bits != 0),
                    ty::Int(_) => format!("\"v\":\"int\",\"i\":{}", size.sign_extend(bits)),
                    ty::Char => format!("\"v\":\"char\",\"i\":{}", bits),
                    ty::Uint(_) => format!("\"v\":\"int\",\"i\":{}", bits),
                    _ => format!("\"v\":\"bits\",\"i\":{}", bits),
                }
            }
            ConstValue::Scalar(mir::interpret::Scalar::Ptr(p, _)) => {
                let (prov, off) = p.into_raw_parts();
                match tcx.try_get_global_alloc(prov.alloc_id()) {
                    Some(mir::interpret::GlobalAlloc::Static(d)) => {
                        format!("\"v\":\"static\",\"def\":{}", esc(&key(tcx, d)))
                    }
                    Some(mir::interpret::GlobalAlloc::Memory(a)) => {
                        // &[u8; N] literals
                        let a = a.inner();
                        let o = off.bytes_usize();
                        let b = a.inspect_with_uninit_and_ptr_outside_interpreter(o..a.len());
                        let noprov = a.provenance().ptrs().is_empty();
                        if noprov && a.len() <= 4096 {
                            format!("\"v\":\"bytes\",\"b\":{}", arr(b.iter().map(|x| x.to_string())))
                        } else {
                            "\"v\":\"opaque\"".into()
                        }
                    }
                    _ => "\"v\":\"opaque\"".into(),
                }
            }
            ConstValue::Slice { alloc_id, meta } => match self.bytes_of(alloc_id, meta as usize) {
                Some(b) => {
                    let is_str = matches!(t.kind(), ty::Ref(_, t2, _) if t2.is_str());
                    match (is_str, std::str::from_utf8(&b)) {
                        (true, Ok(s)) => format!("\"v\":\"str\",\"s\":{}", esc(s)),
                        _ => format!("\"v\":\"bytes\",\"b\":{}", arr(b.iter().map(|x| x.to_string()))),
                    }
                }
                None => "\"v\":\"opaque\"".into(),
            },
            _ => {
                // aggregates: try to destructure enums/structs of scalars
                let ok = match t.kind() {
                    ty::Adt(d, _) => !d.is_union() && !(d.is_enum() && d.variants().is_empty()),
                    ty::Tuple(_) | ty::Array(..) => true,
                    _ => false,
                };
                match if ok { tcx.try_destructure_mir_constant_for_user_output(v, t) } else { None } {
                    Some(d) => {
                        let vi = d.variant.map(|v| v.as_usize() as i64).unwrap_or(-1);
                        let fs: Vec<String> = d
                            .fields
                            .iter()
                            .map(|(fv, ft)| {
                                let ti = self.ty(*ft);
                                format!("{{\"ty\":{},{}}}", ti, self.cval(*fv, *ft))
                            })
                            .collect();
                        format!("\"v\":\"adt\",\"variant\":{},\"fields\":{}", vi, arr(fs))
                    }
                    None => "\"v\":\"opaque\"".into(),
                }
            }
        }
    }

    fn fndef(&mut self, env: TypingEnv<'tcx>, d: DefId, args: ty::GenericArgsRef<'tcx>) -> String {
        let tcx = self.tcx;
        let mut s = format!("\"fn\":{},\"name\":{}", esc(&key(tcx, d)), esc(&path(tcx, d)));
        let a: Vec<String> = args.types().map(|t| self.ty(t).to_string()).collect();
        let _ = write!(s, ",\"targs\":{}", arr(a));
        if let Some(tr) = tcx.trait_of_assoc(d) {
            let st = args.type_at(0);
            let sti = self.ty(st);
            let _ = write!(s, ",\"trait\":{},\"self\":{},\"method\":{}", esc(&key(tcx, tr)), sti, esc(tcx.item_name(d).as_str()));
        } else if let Some(im) = tcx.impl_of_assoc(d) {
            let st = tcx.type_of(im).instantiate_identity().skip_norm_wip();
            let sti = self.ty(st);
            let _ = write!(s, ",\"impl_self\":{},\"method\":{}", sti, esc(tcx.item_name(d).as_str()));
        }
        if matches!(tcx.def_kind(d), DefKind::Fn | DefKind::AssocFn) {
            let args = tcx.erase_and_anonymize_regions(args);
            let r = ty::Instance::try_resolve(tcx, env, d, args);
            if let Ok(Some(inst)) = r {
                let kind = match inst.def {
                    ty::InstanceKind::Item(_) => "item",
                    ty::InstanceKind::Virtual(..) => "virtual",
                    ty::InstanceKind::Intrinsic(..) => "intrinsic",
                    _ => "other",
                };
                let rd = inst.def_id();
                let _ = write!(s, ",\"res\":{},\"rkind\":\"{}\"", esc(&key(tcx, rd)), kind);
                if kind == "item" {
                    self.enqueue(rd);
                }
            }
        } else if let DefKind::Ctor(..) = tcx.def_kind(d) {
            let p = tcx.parent(d);
            let (adt, vi) = match tcx.def_kind(p) {
                DefKind::Variant => {
                    let e = tcx.parent(p);
                    (e, tcx.adt_def(e).variant_index_with_id(p).as_usize())
                }
                _ => (p, 0),
            };
            let _ = write!(s, ",\"ctor\":{},\"variant\":{}", esc(&key(tcx, adt)), vi);
            self.adt(tcx.adt_def(adt));
        }
        s
    }

    fn enqueue(&mut self, d: DefId) {
        if d.is_local() {
            return;
        }
        let k = key(self.tcx, d);
        const OK: &[&str] = &[
            "core::option", "core::result", "core::ops::control_flow", "core::bool", "core::cmp", "core::convert",
            "core::ops::function",
        ];
        if !OK.iter().any(|p| k.starts_with(p)) {
            return;
        }
        if self.tcx.is_mir_available(d) && matches!(self.tcx.def_kind(d), DefKind::Fn | DefKind::AssocFn | DefKind::Closure)
            && self.queued.insert((d.krate.as_u32(), d.index.as_u32()))
        {
            self.queue.push_back(d);
        }
    }

    fn constant(&mut self, env: TypingEnv<'tcx>, c: &ConstOperand<'tcx>) -> String {
        let tcx = self.tcx;
        let t = c.const_.ty();
        let ti = self.ty(t);
        let mut s = format!("[\"const\",{{\"ty\":{}", ti);
        match t.kind() {
            ty::FnDef(d, args) => {
                let args = args.skip_binder();
                let f = self.fndef(env, *d, args);
                let _ = write!(s, ",\"v\":\"fn\",{}", f);
            }
            _ => {
                let mut done = false;
                if let Const::Unevaluated(u, _) = c.const_ {
                    let _ = write!(s, ",\"const\":{}", esc(&key(tcx, u.def)));
                }
                let cc = tcx.erase_and_anonymize_regions(c.const_);
                let ev = match cc {
                    Const::Val(v, _) => Some(v),
                    // constants and promoteds whose value does not depend on type parameters
                    _ => cc.eval(tcx, env, c.span).ok(),
                };
                if let Some(v) = ev {
                    let r = self.cval(v, t);
                    let _ = write!(s, ",{}", r);
                    done = true;
                }
                if !done {
                    s.push_str(",\"v\":\"opaque\"");
                }
            }
        }
        s.push_str("}]");
        s
    }

    fn operand(&mut self, env: TypingEnv<'tcx>, o: &Operand<'tcx>) -> String {
        match o {
            Operand::Copy(p) => format!("[\"copy\",{}]", self.place(p)),
            Operand::Move(p) => format!("[\"move\",{}]", self.place(p)),
            Operand::Constant(c) => self.constant(env, c),
            Operand::RuntimeChecks(_) => {
                let b = self.tcx.types.bool;
                format!("[\"const\",{{\"ty\":{},\"v\":\"bool\",\"b\":false}}]", self.ty(b))
            }
        }
    }

    fn rvalue(&mut self, env: TypingEnv<'tcx>, r: &Rvalue<'tcx>) -> String {
        let tcx = self.tcx;
        match r {
            Rvalue::Use(o, ..) => format!("[\"use\",{}]", self.operand(env, o)),
            Rvalue::Repeat(o, _) => format!("[\"repeat\",{}]", self.operand(env, o)),
            Rvalue::Ref(_, bk, p) => {
                let m = matches!(bk, BorrowKind::Mut { .. });
                format!("[\"ref\",{},{}]", m, self.place(p))
            }
            Rvalue::Reborrow(_, m, p) => format!("[\"ref\",{},{}]", m.is_mut(), self.place(p)),
            Rvalue::RawPtr(_, p) => format!("[\"ref\",true,{}]", self.place(p)),
            Rvalue::ThreadLocalRef(d) => format!("[\"tls\",{}]", esc(&key(tcx, *d))),
            Rvalue::Cast(k, o, t) => {
                let o = self.operand(env, o);
                let t = self.ty(*t);
                format!("[\"cast\",{},{},{}]", esc(&format!("{k:?}")), o, t)
            }
            Rvalue::BinaryOp(op, b) => {
                let x = self.operand(env, &b.0);
                let y = self.operand(env, &b.1);
                format!("[\"bin\",\"{:?}\",{},{}]", op, x, y)
            }
            Rvalue::UnaryOp(op, o) => format!("[\"un\",\"{:?}\",{}]", op, self.operand(env, o)),
            Rvalue::Discriminant(p) => format!("[\"discr\",{}]", self.place(p)),
            Rvalue::CopyForDeref(p) => format!("[\"use\",[\"copy\",{}]]", self.place(p)),
            Rvalue::WrapUnsafeBinder(o, _) => format!("[\"use\",{}]", self.operand(env, o)),
            Rvalue::Aggregate(k, ops) => {
                let os: Vec<String> = ops.iter().map(|o| self.operand(env, o)).collect();
                let k = match &**k {
                    AggregateKind::Array(_) => "[\"array\"]".to_string(),
                    AggregateKind::Tuple => "[\"tuple\"]".to_string(),
                    AggregateKind::Adt(d, v, ..) => {
                        self.adt(tcx.adt_def(*d));
                        format!("[\"adt\",{},{}]", esc(&key(tcx, *d)), v.as_usize())
                    }
                    AggregateKind::Closure(d, _) => {
                        self.enqueue(*d);
                        format!("[\"closure\",{}]", esc(&key(tcx, *d)))
                    }
                    AggregateKind::Coroutine(d, _) => format!("[\"coroutine\",{}]", esc(&key(tcx, *d))),
                    AggregateKind::CoroutineClosure(d, _) => format!("[\"closure\",{}]", esc(&key(tcx, *d))),
                    AggregateKind::RawPtr(..) => "[\"rawptr\"]".to_string(),
                };
                format!("[\"agg\",{},{}]", k, arr(os))
            }
        }
    }

    fn line(&self, sp: rustc_span::Span) -> String {
        let sp = sp.source_callsite();
        let lo = self.tcx.sess.source_map().lookup_char_pos(sp.lo());
        let f = match &lo.file.name {
            rustc_span::FileName::Real(r) => r.local_path().map(|p| p.to_string_lossy().to_string()).unwrap_or_default(),
            _ => String::new(),
        };
        format!("{}:{}", f, lo.line)
    }

    fn body(&mut self, d: DefId, b: &Body<'tcx>, std: bool) -> String {
        let tcx = self.tcx;
        let root = tcx.typeck_root_def_id(d);
        let env = if std { TypingEnv::post_analysis(tcx, root) } else { TypingEnv::post_analysis(tcx, root) };
        let mut o = String::new();
        let kind = format!("{:?}", tcx.def_kind(d));
        let _ = write!(
            o,
            "{{\"key\":{},\"name\":{},\"kind\":{},\"argc\":{},\"coroutine\":{},\"span\":{},\"std\":{}",
            esc(&key(tcx, d)),
            esc(&path(tcx, d)),
            esc(&kind),
            b.arg_count,
            tcx.is_coroutine(d),
            esc(&self.line(b.span)),
            std
        );
        if matches!(tcx.def_kind(d), DefKind::Fn | DefKind::AssocFn) {
            let _ = write!(o, ",\"vis\":{}", esc(&format!("{:?}", tcx.visibility(d))));
        }
        if d != root {
            let _ = write!(o, ",\"parent\":{}", esc(&key(tcx, tcx.parent(d))));
        }
        if let Some(im) = tcx.impl_of_assoc(d) {
            let st = tcx.type_of(im).instantiate_identity().skip_norm_wip();
            let sti = self.ty(st);
            let _ = write!(o, ",\"impl_self\":{}", sti);
            if let Some(tr) = tcx.impl_opt_trait_ref(im) {
                let tr = tr.instantiate_identity().skip_norm_wip();
                let a: Vec<String> = tr.args.types().map(|t| self.ty(t).to_string()).collect();
                let _ = write!(o, ",\"impl_trait\":{},\"trait_args\":{}", esc(&key(tcx, tr.def_id)), arr(a));
            }
            let _ = write!(o, ",\"method\":{},\"derived\":{}", esc(tcx.item_name(d).as_str()), tcx.is_automatically_derived(im));
        } else if let Some(tr) = tcx.trait_of_assoc(d) {
            let _ = write!(o, ",\"in_trait\":{},\"method\":{}", esc(&key(tcx, tr)), esc(tcx.item_name(d).as_str()));
        }
        let ls: Vec<String> = b.local_decls.iter().map(|l| self.ty(l.ty).to_string()).collect();
        let _ = write!(o, ",\"locals\":{}", arr(ls));
        let mut names = vec![];
        for v in b.var_debug_info.iter() {
            if let VarDebugInfoContents::Place(p) = &v.value {
                let ps = self.place(p);
                names.push(format!("[{},{}]", esc(v.name.as_str()), ps));
            }
        }
        let _ = write!(o, ",\"names\":{}", arr(names));
        let mut bbs = vec![];
        for (_, bb) in b.basic_blocks.iter_enumerated() {
            let mut st = vec![];
            if bb.is_cleanup {
                bbs.push("null".to_string());
                continue;
            }
            for s in bb.statements.iter() {
                match &s.kind {
                    StatementKind::Assign(a) => {
                        let p = self.place(&a.0);
                        let r = self.rvalue(env, &a.1);
                        st.push(format!("[\"=\",{},{},{}]", p, r, esc(&self.line(s.source_info.span))));
                    }
                    StatementKind::SetDiscriminant { place, variant_index } => {
                        st.push(format!("[\"setd\",{},{}]", self.place(place), variant_index.as_usize()));
                    }
                    StatementKind::StorageDead(l) => st.push(format!("[\"dead\",{}]", l.as_usize())),
                    _ => {}
                }
            }
            let t = bb.terminator();
            let sp = esc(&self.line(t.source_info.span));
            let ts = match &t.kind {
                TerminatorKind::Goto { target, .. } => format!("[\"goto\",{}]", target.as_usize()),
                TerminatorKind::SwitchInt { discr, targets } => {
                    let dt = self.operand(env, discr);
                    let ty = discr.ty(&b.local_decls, tcx);
                    let ti = self.ty(ty);
                    let ts: Vec<String> = targets
                        .iter()
                        .map(|(v, bb)| {
                            let v = match ty.kind() {
                                ty::Int(it) => {
                                    let bits = it.bit_width().unwrap_or(64);
                                    if bits == 128 { v as i128 } else { ((v << (128 - bits)) as i128) >> (128 - bits) }
                                }
                                _ => v as i128,
                            };
                            format!("[{},{}]", v, bb.as_usize())
                        })
                        .collect();
                    format!("[\"switch\",{},{},{},{}]", dt, ti, arr(ts), targets.otherwise().as_usize())
                }
                TerminatorKind::Return => "[\"return\"]".into(),
                TerminatorKind::Unreachable => "[\"unreachable\"]".into(),
                TerminatorKind::Drop { place, target, .. } => {
                    let ty = place.ty(&b.local_decls, tcx).ty;
                    let ti = self.ty(ty);
                    format!("[\"drop\",{},{},{}]", self.place(place), target.as_usize(), ti)
                }
                TerminatorKind::Call { func, args, destination, target, .. } => {
                    let f = self.operand(env, func);
                    let a: Vec<String> = args.iter().map(|x| self.operand(env, &x.node)).collect();
                    let dst = self.place(destination);
                    let dty = destination.ty(&b.local_decls, tcx).ty;
                    let dti = self.ty(dty);
                    let tg = target.map(|t| t.as_usize().to_string()).unwrap_or("null".into());
                    format!("[\"call\",{},{},{},{},{},{}]", f, arr(a), dst, tg, sp, dti)
                }
                TerminatorKind::TailCall { .. } => "[\"unsupported\"]".into(),
                TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                    let c = self.operand(env, cond);
                    let m = match &**msg {
                        AssertKind::BoundsCheck { .. } => "bounds".to_string(),
                        AssertKind::Overflow(op, ..) => format!("overflow:{op:?}"),
                        AssertKind::OverflowNeg(..) => "overflow:Neg".into(),
                        AssertKind::DivisionByZero(..) => "div0".into(),
                        AssertKind::RemainderByZero(..) => "rem0".into(),
                        _ => "other".into(),
                    };
                    format!("[\"assert\",{},{},{},{},{}]", c, expected, target.as_usize(), esc(&m), sp)
                }
                TerminatorKind::Yield { resume, resume_arg, .. } => {
                    format!("[\"yield\",{},{},{}]", resume.as_usize(), self.place(resume_arg), sp)
                }
                TerminatorKind::FalseEdge { real_target, .. } => format!("[\"goto\",{}]", real_target.as_usize()),
                TerminatorKind::FalseUnwind { real_target, .. } => format!("[\"goto\",{}]", real_target.as_usize()),
                _ => "[\"unsupported\"]".into(),
            };
            bbs.push(format!("[{},{}]", arr(st), ts));
        }
        let _ = write!(o, ",\"bbs\":{}}}", arr(bbs));
        o
    }
}

struct Cb {
    out: Option<PathBuf>,
    crates: Vec<String>,
}

impl Callbacks for Cb {
    fn config(&mut self, c: &mut interface::Config) {
        c.file_loader = Some(Box::new(Loader));
    }
    fn after_expansion<'tcx>(&mut self, _c: &interface::Compiler, tcx: TyCtxt<'tcx>) -> Compilation {
        let Some(out) = &self.out else { return Compilation::Continue };
        let name = tcx.crate_name(LOCAL_CRATE).to_string();
        if !self.crates.contains(&name) {
            return Compilation::Continue;
        }
        let mut bodies = vec![];
        for d in tcx.hir_body_owners() {
            let k = tcx.def_kind(d);
            if !matches!(k, DefKind::Fn | DefKind::AssocFn | DefKind::Closure | DefKind::SyntheticCoroutineBody) {
                continue;
            }
            // the parent's type check must succeed, otherwise let rustc report the error
            if tcx.typeck(d).tainted_by_errors.is_some() {
                return Compilation::Continue;
            }
            let b = tcx.mir_built(d).borrow().clone();
            bodies.push((d.to_def_id(), b));
        }
        let mut dm = Dump {
            tcx,
            tys: HashMap::new(),
            ty_out: vec![],
            adts: BTreeMap::new(),
            adt_seen: BTreeSet::new(),
            queue: VecDeque::new(),
            queued: BTreeSet::new(),
        };
        let mut outb = vec![];
        for (d, b) in &bodies {
            outb.push(dm.body(*d, b, false));
        }
        // local statics / consts: record initializer text-free info (type only)
        let mut statics = vec![];
        for id in tcx.hir_crate_items(()).definitions() {
            match tcx.def_kind(id) {
                DefKind::Static { .. } | DefKind::Const { .. } => {
                    let t = tcx.type_of(id).instantiate_identity().skip_norm_wip();
                    let ti = dm.ty(t);
                    statics.push(format!("[{},{}]", esc(&key(tcx, id.to_def_id())), ti));
                }
                DefKind::Struct | DefKind::Enum => dm.adt(tcx.adt_def(id.to_def_id())),
                _ => {}
            }
        }
        // impls
        let mut impls = vec![];
        for id in tcx.hir_crate_items(()).definitions() {
            if let DefKind::Impl { of_trait } = tcx.def_kind(id) {
                let st = tcx.type_of(id).instantiate_identity().skip_norm_wip();
                let sti = dm.ty(st);
                let mut s = format!("{{\"self\":{}", sti);
                if of_trait {
                    let tr = tcx.impl_trait_ref(id.to_def_id()).instantiate_identity().skip_norm_wip();
                    let a: Vec<String> = tr.args.types().map(|t| dm.ty(t).to_string()).collect();
                    let _ = write!(s, ",\"trait\":{},\"targs\":{}", esc(&key(tcx, tr.def_id)), arr(a));
                }
                let mut items = vec![];
                for it in tcx.associated_items(id.to_def_id()).in_definition_order() {
                    if matches!(it.kind, ty::AssocKind::Fn { .. }) {
                        items.push(format!("[{},{}]", esc(it.name().as_str()), esc(&key(tcx, it.def_id))));
                    }
                    if let ty::AssocKind::Type { .. } = it.kind {
                        let t = tcx.type_of(it.def_id).instantiate_identity().skip_norm_wip();
                        let ti = dm.ty(t);
                        items.push(format!("[{},{}]", esc(it.name().as_str()), ti));
                    }
                }
                let _ = write!(s, ",\"items\":{}}}", arr(items));
                impls.push(s);
            }
        }
        while let Some(d) = dm.queue.pop_front() {
            let b = tcx.optimized_mir(d);
            let s = dm.body(d, b, true);
            outb.push(s);
        }
        let mut o = String::new();
        let _ = write!(o, "{{\"crate\":{},\n\"types\":[\n{}\n],\n", esc(&name), dm.ty_out.join(",\n"));
        let adts: Vec<String> = dm.adts.iter().map(|(k, v)| format!("{}:{}", esc(k), v)).collect();
        let _ = write!(o, "\"adts\":{{\n{}\n}},\n", adts.join(",\n"));
        let _ = write!(o, "\"statics\":{},\n\"impls\":[\n{}\n],\n", arr(statics), impls.join(",\n"));
        let _ = write!(o, "\"bodies\":[\n{}\n]}}\n", outb.join(",\n"));
        let tmp = out.join(format!("{name}.{}.json.tmp", std::process::id()));
        std::fs::write(&tmp, o).unwrap();
        std::fs::rename(&tmp, out.join(format!("{name}.json"))).unwrap();
        Compilation::Continue
    }
}

fn main() {
    let mut args: Vec<String> = std::env::args().collect();
    // as RUSTC_WRAPPER: argv[1] is the path of rustc
    if args.len() > 1 && args[1].ends_with("rustc") {
        args.remove(1);
    }
    let out = std::env::var("AJV_OUT").ok().map(PathBuf::from);
    let crates = std::env::var("AJV_CRATES").unwrap_or_default().split(',').map(|s| s.to_string()).collect();
    let mut cb = Cb { out, crates };
    let code = rustc_driver::catch_with_exit_code(|| rustc_driver::compiler_entrypoint(&args, &mut cb));
    std::process::exit(if code == std::process::ExitCode::SUCCESS { 0 } else { 1 });
}

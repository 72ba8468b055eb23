//! mirfacts: a rustc driver that dumps the resolved MIR of a crate as JSON.
//!
//! Used as RUSTC_WORKSPACE_WRAPPER under `cargo +nightly check`. It compiles nothing itself and
//! executes nothing of the analysed program: after type checking and borrow checking it walks
//! every body the crate owns (functions, methods, closures, constants, promoteds) and writes
//! types, constants, control flow and resolved callees to $MIRFACTS_OUT/<crate>.json.
#![feature(rustc_private)]
extern crate rustc_abi;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_session;
extern crate rustc_span;

use rustc_driver::Compilation;
use rustc_hir::def::DefKind;
use rustc_hir::def_id::{DefId, LocalDefId};
use rustc_middle::mir;
use rustc_middle::ty::{self, Ty, TyCtxt, TypeVisitableExt};
use rustc_span::Span;
use std::collections::HashMap;
use std::fmt::Write as _;

struct Cb;

impl rustc_driver::Callbacks for Cb {
    fn after_analysis<'tcx>(
        &mut self,
        _c: &rustc_interface::interface::Compiler,
        tcx: TyCtxt<'tcx>,
    ) -> Compilation {
        if let Ok(dir) = std::env::var("MIRFACTS_OUT") {
            let s = rustc_middle::ty::print::with_no_trimmed_paths!(Dump::new(tcx).run());
            let name = tcx.crate_name(rustc_hir::def_id::LOCAL_CRATE).to_string();
            let test = if tcx.sess.is_test_crate() { "-test" } else { "" };
            let path = format!("{}/{}{}.json", dir, name, test);
            let tmp = format!("{}.tmp{}", path, std::process::id());
            std::fs::write(&tmp, s).expect("write facts");
            std::fs::rename(&tmp, &path).expect("rename facts");
        }
        Compilation::Continue
    }
}

fn main() -> std::process::ExitCode {
    let mut args: Vec<String> = std::env::args().collect();
    // RUSTC_WORKSPACE_WRAPPER: argv = [driver, rustc, args...]
    if args.len() > 1 && (args[1].ends_with("rustc") || args[1].contains("/rustc")) {
        args.remove(1);
    }
    args.push("-Zmir-opt-level=0".into());
    args.push("-Zinline-mir=no".into());
    args.push("-Coverflow-checks=on".into());
    args.push("--cap-lints=allow".into());
    rustc_driver::catch_with_exit_code(|| rustc_driver::compiler_entrypoint(&args, &mut Cb))
}

// ---------------------------------------------------------------- JSON
fn esc(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn arr(v: Vec<String>) -> String {
    format!("[{}]", v.join(","))
}
fn opt(v: Option<String>) -> String {
    v.unwrap_or_else(|| "null".into())
}

struct Dump<'tcx> {
    tcx: TyCtxt<'tcx>,
    tys: HashMap<Ty<'tcx>, usize>,
    ty_out: Vec<String>,
    ext: std::collections::BTreeMap<String, Vec<String>>,
}

impl<'tcx> Dump<'tcx> {
    fn new(tcx: TyCtxt<'tcx>) -> Self {
        Dump { tcx, tys: HashMap::new(), ty_out: vec![], ext: Default::default() }
    }

    fn key(&self, d: DefId) -> String {
        let tcx = self.tcx;
        format!("{}{}", tcx.crate_name(d.krate), tcx.def_path(d).to_string_no_crate_verbose())
    }
    fn path(&self, d: DefId) -> String {
        self.tcx.def_path_str(d)
    }

    fn span(&self, sp: Span) -> String {
        let sm = self.tcx.sess.source_map();
        let lo = sm.lookup_char_pos(sp.source_callsite().lo());
        let f = format!("{}", lo.file.name.prefer_local_unconditionally());
        esc(&format!("{}:{}", f, lo.line))
    }

    fn ty(&mut self, t: Ty<'tcx>) -> usize {
        let t = self.tcx.erase_and_anonymize_regions(t);
        if let Some(i) = self.tys.get(&t) {
            return *i;
        }
        let i = self.ty_out.len();
        self.tys.insert(t, i);
        self.ty_out.push(String::new());
        let s = esc(&t.to_string());
        let body = match t.kind() {
            ty::Adt(d, a) => {
                let args = self.gargs(a);
                if !d.did().is_local() && d.is_enum() && d.variants().len() <= 64 {
                    let vs: Vec<String> = d.variants().iter().map(|v| esc(v.name.as_str())).collect();
                    let p = self.path(d.did());
                    self.ext.insert(p, vs);
                }
                format!("\"k\":\"adt\",\"def\":{},\"args\":{}", esc(&self.path(d.did())), args)
            }
            ty::Ref(_, x, m) => {
                let x = self.ty(*x);
                format!("\"k\":\"ref\",\"mut\":{},\"args\":[{}]", m.is_mut(), x)
            }
            ty::RawPtr(x, m) => {
                let x = self.ty(*x);
                format!("\"k\":\"ptr\",\"mut\":{},\"args\":[{}]", m.is_mut(), x)
            }
            ty::Slice(x) => {
                let x = self.ty(*x);
                format!("\"k\":\"slice\",\"args\":[{}]", x)
            }
            ty::Array(x, n) => {
                let x = self.ty(*x);
                let n = n.try_to_target_usize(self.tcx).map(|v| v.to_string());
                format!("\"k\":\"array\",\"args\":[{}],\"len\":{}", x, opt(n))
            }
            ty::Tuple(xs) => {
                let v: Vec<String> = xs.iter().map(|x| self.ty(x).to_string()).collect();
                format!("\"k\":\"tuple\",\"args\":{}", arr(v))
            }
            ty::Closure(d, _) => {
                format!("\"k\":\"closure\",\"key\":{}", esc(&self.key(*d)))
            }
            ty::Coroutine(d, _) => {
                format!("\"k\":\"coroutine\",\"key\":{}", esc(&self.key(*d)))
            }
            ty::FnDef(d, a) => {
                let a = a.no_bound_vars().map(|a| self.gargs(a)).unwrap_or_else(|| "[]".into());
                format!("\"k\":\"fndef\",\"key\":{},\"def\":{},\"args\":{}", esc(&self.key(*d)), esc(&self.path(*d)), a)
            }
            ty::Dynamic(..) => "\"k\":\"dyn\"".to_string(),
            ty::Param(_) => "\"k\":\"param\"".to_string(),
            ty::Alias(..) => "\"k\":\"alias\"".to_string(),
            ty::Int(_) => "\"k\":\"int\"".to_string(),
            ty::Uint(_) => "\"k\":\"uint\"".to_string(),
            ty::Float(_) => "\"k\":\"float\"".to_string(),
            ty::Bool => "\"k\":\"bool\"".to_string(),
            ty::Char => "\"k\":\"char\"".to_string(),
            ty::Str => "\"k\":\"str\"".to_string(),
            ty::Never => "\"k\":\"never\"".to_string(),
            _ => "\"k\":\"other\"".to_string(),
        };
        self.ty_out[i] = format!("{{\"s\":{},{}}}", s, body);
        i
    }

    fn gargs(&mut self, a: ty::GenericArgsRef<'tcx>) -> String {
        let v: Vec<String> = a
            .iter()
            .filter_map(|g| match g.kind() {
                ty::GenericArgKind::Type(t) => Some(self.ty(t).to_string()),
                _ => None,
            })
            .collect();
        arr(v)
    }

    fn place(&mut self, p: &mir::Place<'tcx>) -> String {
        let mut pr = vec![];
        for e in p.projection.iter() {
            pr.push(match e {
                mir::ProjectionElem::Deref => "\"*\"".to_string(),
                mir::ProjectionElem::Field(f, t) => {
                    let t = self.ty(t);
                    format!("[\"f\",{},{}]", f.as_usize(), t)
                }
                mir::ProjectionElem::Index(l) => format!("[\"i\",{}]", l.as_usize()),
                mir::ProjectionElem::ConstantIndex { offset, min_length, from_end } => {
                    format!("[\"c\",{},{},{}]", offset, min_length, from_end)
                }
                mir::ProjectionElem::Subslice { from, to, from_end } => {
                    format!("[\"s\",{},{},{}]", from, to, from_end)
                }
                mir::ProjectionElem::Downcast(n, v) => {
                    format!("[\"v\",{},{}]", v.as_usize(), opt(n.map(|n| esc(n.as_str()))))
                }
                _ => "\"?\"".to_string(),
            });
        }
        format!("[{},{}]", p.local.as_usize(), arr(pr))
    }

    fn konst(&mut self, c: &mir::Const<'tcx>, owner: DefId) -> String {
        let tcx = self.tcx;
        let t = c.ty();
        let ti = self.ty(t);
        if let ty::FnDef(d, a) = t.kind() {
            let a = a.no_bound_vars();
            return match a {
                Some(a) => self.fnref(*d, a, owner, ti),
                None => format!("{{\"t\":{},\"fn\":{},\"key\":{},\"args\":[]}}", ti, esc(&self.path(*d)), esc(&self.key(*d))),
            };
        }
        if let mir::Const::Unevaluated(u, _) = c {
            if let Some(p) = u.promoted {
                return format!("{{\"t\":{},\"promoted\":{}}}", ti, p.as_usize());
            }
        }
        let typing_env = ty::TypingEnv::post_analysis(tcx, owner);
        let uneval = match c {
            mir::Const::Unevaluated(u, _) => Some((self.path(u.def), self.key(u.def))),
            _ => None,
        };
        let mut extra = String::new();
        if let Some((p, k)) = uneval {
            let _ = write!(extra, ",\"const\":{},\"ckey\":{}", esc(&p), esc(&k));
        }
        let val = if c.has_param() { None } else { c.eval(tcx, typing_env, rustc_span::DUMMY_SP).ok() };
        let v = match val {
            Some(mir::ConstValue::Scalar(mir::interpret::Scalar::Int(i))) => {
                Some(format!("\"int\":{}", self.scalar(i, t)))
            }
            Some(mir::ConstValue::Scalar(mir::interpret::Scalar::Ptr(p, _))) => {
                // `&'static [u8; N]` literals, references to statics
                match tcx.global_alloc(p.provenance.alloc_id()) {
                    mir::interpret::GlobalAlloc::Static(d) => Some(format!("\"static\":{}", esc(&self.path(d)))),
                    mir::interpret::GlobalAlloc::Memory(m) => {
                        let a = m.inner();
                        let b = a.inspect_with_uninit_and_ptr_outside_interpreter(0..a.len());
                        Some(format!("\"bytes\":{}", esc(&String::from_utf8_lossy(b))))
                    }
                    _ => Some("\"ptr\":1".to_string()),
                }
            }
            Some(mir::ConstValue::ZeroSized) => Some("\"zst\":1".to_string()),
            Some(cv @ mir::ConstValue::Slice { .. }) => {
                let bytes = cv.try_get_slice_bytes_for_diagnostics(tcx);
                bytes.map(|b| format!("\"str\":{}", esc(&String::from_utf8_lossy(b))))
            }
            _ => None,
        };
        match v {
            Some(v) => format!("{{\"t\":{},{}{}}}", ti, v, extra),
            None => format!("{{\"t\":{},\"text\":{}{}}}", ti, esc(&format!("{}", c)), extra),
        }
    }

    fn scalar(&self, i: ty::ScalarInt, t: Ty<'tcx>) -> String {
        let size = i.size();
        match t.kind() {
            ty::Int(_) => i.to_int(size).to_string(),
            ty::Float(ty::FloatTy::F64) => {
                let f = f64::from_bits(i.to_uint(size) as u64);
                if f.is_finite() { format!("{:?}", f) } else { esc(&format!("{:?}", f)) }
            }
            ty::Float(ty::FloatTy::F32) => {
                let f = f32::from_bits(i.to_uint(size) as u32);
                if f.is_finite() { format!("{:?}", f) } else { esc(&format!("{:?}", f)) }
            }
            _ => i.to_uint(size).to_string(),
        }
    }

    fn fnref(&mut self, d: DefId, a: ty::GenericArgsRef<'tcx>, owner: DefId, ti: usize) -> String {
        let tcx = self.tcx;
        let mut o = format!("{{\"t\":{},\"fn\":{},\"key\":{}", ti, esc(&self.path(d)), esc(&self.key(d)));
        let ga = self.gargs(a);
        let _ = write!(o, ",\"args\":{}", ga);
        if let Some(tr) = tcx.trait_of_assoc(d) {
            let _ = write!(o, ",\"trait\":{}", esc(&self.path(tr)));
        }
        if let Some(im) = tcx.inherent_impl_of_assoc(d) {
            let st = tcx.type_of(im).instantiate_identity().skip_norm_wip();
            let st = self.ty(st);
            let _ = write!(o, ",\"impl_self\":{}", st);
        }
        if let Some(n) = tcx.opt_item_name(d) {
            let _ = write!(o, ",\"name\":{}", esc(n.as_str()));
        }
        // Resolve trait methods to their implementation when it is statically known.
        let typing_env = ty::TypingEnv::post_analysis(tcx, owner);
        let a = tcx.erase_and_anonymize_regions(a);
        if matches!(tcx.def_kind(d), DefKind::Fn | DefKind::AssocFn) {
            let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
                ty::Instance::try_resolve(tcx, typing_env, d, a)
            }));
            if let Ok(Ok(Some(inst))) = r {
                let rd = inst.def_id();
                let kind = match inst.def {
                    ty::InstanceKind::Item(_) => "item",
                    ty::InstanceKind::Virtual(..) => "virtual",
                    ty::InstanceKind::Intrinsic(_) => "intrinsic",
                    _ => "shim",
                };
                let _ = write!(o, ",\"res\":{},\"rkey\":{},\"rkind\":\"{}\"", esc(&self.path(rd)), esc(&self.key(rd)), kind);
                let ga = self.gargs(inst.args);
                let _ = write!(o, ",\"rargs\":{}", ga);
            }
        }
        o.push('}');
        o
    }

    fn operand(&mut self, op: &mir::Operand<'tcx>, owner: DefId) -> String {
        match op {
            mir::Operand::Copy(p) => format!("[\"cp\",{}]", self.place(p)),
            mir::Operand::Move(p) => format!("[\"mv\",{}]", self.place(p)),
            mir::Operand::Constant(c) => {
                let s = self.konst(&c.const_, owner);
                format!("[\"k\",{}]", s)
            }
            _ => "[\"rt\"]".to_string(),
        }
    }

    fn rvalue(&mut self, r: &mir::Rvalue<'tcx>, owner: DefId) -> String {
        match r {
            mir::Rvalue::Use(o, ..) => format!("[\"use\",{}]", self.operand(o, owner)),
            mir::Rvalue::Repeat(o, n) => {
                let n = n.try_to_target_usize(self.tcx).map(|v| v.to_string());
                format!("[\"repeat\",{},{}]", self.operand(o, owner), opt(n))
            }
            mir::Rvalue::Ref(_, bk, p) => {
                let m = matches!(bk, mir::BorrowKind::Mut { .. });
                format!("[\"ref\",{},{}]", m, self.place(p))
            }
            mir::Rvalue::RawPtr(_, p) => format!("[\"addr\",{}]", self.place(p)),
            mir::Rvalue::ThreadLocalRef(d) => format!("[\"tls\",{}]", esc(&self.path(*d))),
            mir::Rvalue::Cast(k, o, t) => {
                let t = self.ty(*t);
                format!("[\"cast\",{},{},{}]", esc(&format!("{:?}", k)), self.operand(o, owner), t)
            }
            mir::Rvalue::BinaryOp(op, b) => {
                format!("[\"bin\",\"{:?}\",{},{}]", op, self.operand(&b.0, owner), self.operand(&b.1, owner))
            }
            mir::Rvalue::UnaryOp(op, o) => format!("[\"un\",\"{:?}\",{}]", op, self.operand(o, owner)),
            mir::Rvalue::Discriminant(p) => format!("[\"disc\",{}]", self.place(p)),
            mir::Rvalue::CopyForDeref(p) => format!("[\"use\",[\"cp\",{}]]", self.place(p)),
            mir::Rvalue::Aggregate(k, ops) => {
                let v: Vec<String> = ops.iter().map(|o| self.operand(o, owner)).collect();
                let kk = match &**k {
                    mir::AggregateKind::Array(t) => {
                        let t = self.ty(*t);
                        format!("[\"array\",{}]", t)
                    }
                    mir::AggregateKind::Tuple => "[\"tuple\"]".to_string(),
                    mir::AggregateKind::Adt(d, vi, a, _, _) => {
                        let def = self.tcx.adt_def(*d);
                        let vn = def.variant(*vi).name.to_string();
                        let args = self.gargs(a);
                        let en = def.is_enum();
                        format!("[\"adt\",{},{},{},{},{}]", esc(&self.path(*d)), vi.as_usize(), esc(&vn), args, en)
                    }
                    mir::AggregateKind::Closure(d, _) => format!("[\"closure\",{}]", esc(&self.key(*d))),
                    mir::AggregateKind::Coroutine(d, _) | mir::AggregateKind::CoroutineClosure(d, _) => {
                        format!("[\"coroutine\",{}]", esc(&self.key(*d)))
                    }
                    _ => "[\"other\"]".to_string(),
                };
                format!("[\"agg\",{},{}]", kk, arr(v))
            }
            _ => "[\"other\"]".to_string(),
        }
    }

    fn body(&mut self, b: &mir::Body<'tcx>, owner: DefId) -> String {
        let mut locals = vec![];
        for (_, d) in b.local_decls.iter_enumerated() {
            locals.push(self.ty(d.ty).to_string());
        }
        let mut names = vec![];
        for v in &b.var_debug_info {
            if let mir::VarDebugInfoContents::Place(p) = &v.value {
                let p = self.place(p);
                names.push(format!("[{},{}]", esc(v.name.as_str()), p));
            }
        }
        let mut blocks = vec![];
        for (_, bb) in b.basic_blocks.iter_enumerated() {
            let mut st = vec![];
            for s in &bb.statements {
                match &s.kind {
                    mir::StatementKind::Assign(a) => {
                        let p = self.place(&a.0);
                        let r = self.rvalue(&a.1, owner);
                        let sp = self.span(s.source_info.span);
                        st.push(format!("[\"=\",{},{},{}]", p, r, sp));
                    }
                    mir::StatementKind::SetDiscriminant { place, variant_index } => {
                        let p = self.place(place);
                        st.push(format!("[\"setd\",{},{}]", p, variant_index.as_usize()));
                    }
                    _ => {}
                }
            }
            let t = bb.terminator();
            let sp = self.span(t.source_info.span);
            let tt = match &t.kind {
                mir::TerminatorKind::Goto { target, .. } => format!("[\"goto\",{}]", target.as_usize()),
                mir::TerminatorKind::SwitchInt { discr, targets } => {
                    let o = self.operand(discr, owner);
                    let dt = discr.ty(&b.local_decls, self.tcx);
                    let dti = self.ty(dt);
                    let v: Vec<String> = targets
                        .iter()
                        .map(|(v, t)| {
                            let vs = match dt.kind() {
                                ty::Int(it) => {
                                    let bits = it.bit_width().unwrap_or(64);
                                    let sh = 128 - bits as u32;
                                    (((v << sh) as i128) >> sh).to_string()
                                }
                                _ => v.to_string(),
                            };
                            format!("[{},{}]", vs, t.as_usize())
                        })
                        .collect();
                    format!("[\"switch\",{},{},{},{}]", o, arr(v), targets.otherwise().as_usize(), dti)
                }
                mir::TerminatorKind::Return => "[\"return\"]".into(),
                mir::TerminatorKind::Unreachable => "[\"unreachable\"]".into(),
                mir::TerminatorKind::UnwindResume | mir::TerminatorKind::UnwindTerminate(_) => "[\"resume\"]".into(),
                mir::TerminatorKind::Drop { place, target, .. } => {
                    format!("[\"drop\",{},{}]", self.place(place), target.as_usize())
                }
                mir::TerminatorKind::Call { func, args, destination, target, .. } => {
                    let f = self.operand(func, owner);
                    let a: Vec<String> = args.iter().map(|x| self.operand(&x.node, owner)).collect();
                    let d = self.place(destination);
                    format!("[\"call\",{},{},{},{}]", f, arr(a), d, opt(target.map(|t| t.as_usize().to_string())))
                }
                mir::TerminatorKind::TailCall { func, args, .. } => {
                    let f = self.operand(func, owner);
                    let a: Vec<String> = args.iter().map(|x| self.operand(&x.node, owner)).collect();
                    format!("[\"call\",{},{},[0,[]],null]", f, arr(a))
                }
                mir::TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                    let c = self.operand(cond, owner);
                    let (k, ops) = match &**msg {
                        mir::AssertKind::BoundsCheck { len, index } => {
                            ("bounds".to_string(), vec![self.operand(len, owner), self.operand(index, owner)])
                        }
                        mir::AssertKind::Overflow(op, x, y) => {
                            (format!("overflow:{:?}", op), vec![self.operand(x, owner), self.operand(y, owner)])
                        }
                        mir::AssertKind::OverflowNeg(x) => ("overflow:Neg".to_string(), vec![self.operand(x, owner)]),
                        mir::AssertKind::DivisionByZero(x) => ("divzero".to_string(), vec![self.operand(x, owner)]),
                        mir::AssertKind::RemainderByZero(x) => ("remzero".to_string(), vec![self.operand(x, owner)]),
                        _ => ("other".to_string(), vec![]),
                    };
                    format!("[\"assert\",{},{},{},{},{}]", c, expected, esc(&k), arr(ops), target.as_usize())
                }
                mir::TerminatorKind::Yield { value, resume, resume_arg, .. } => {
                    let v = self.operand(value, owner);
                    let ra = self.place(resume_arg);
                    format!("[\"yield\",{},{},{}]", v, resume.as_usize(), ra)
                }
                mir::TerminatorKind::FalseEdge { real_target, .. }
                | mir::TerminatorKind::FalseUnwind { real_target, .. } => format!("[\"goto\",{}]", real_target.as_usize()),
                mir::TerminatorKind::CoroutineDrop => "[\"return\"]".into(),
                _ => "[\"other\"]".into(),
            };
            blocks.push(format!("[{},{},{},{}]", arr(st), tt, sp, bb.is_cleanup));
        }
        format!(
            "{{\"argc\":{},\"locals\":{},\"names\":{},\"blocks\":{}}}",
            b.arg_count,
            arr(locals),
            arr(names),
            arr(blocks)
        )
    }

    fn attrs_cfg(&self, _d: LocalDefId) -> String {
        String::new()
    }

    fn run(mut self) -> String {
        let tcx = self.tcx;
        let mut fns = vec![];
        for d in tcx.hir_body_owners() {
            let did = d.to_def_id();
            let dk = tcx.def_kind(did);
            let kind = match dk {
                DefKind::Fn => "fn",
                DefKind::AssocFn => "method",
                DefKind::Closure => {
                    if tcx.coroutine_kind(did).is_some() { "coroutine" } else { "closure" }
                }
                DefKind::Const { .. } => "const",
                DefKind::AssocConst { .. } => "const",
                DefKind::Static { .. } => "static",
                DefKind::AnonConst => continue,
                _ => continue,
            };
            let mut o = format!("{{\"key\":{},\"path\":{},\"kind\":\"{}\"", esc(&self.key(did)), esc(&self.path(did)), kind);
            let _ = write!(o, ",\"span\":{}", self.span(tcx.def_span(did)));
            let from_exp = tcx.def_span(did).from_expansion();
            let _ = write!(o, ",\"expn\":{}", from_exp);
            if let Some(n) = tcx.opt_item_name(did) {
                let _ = write!(o, ",\"name\":{}", esc(n.as_str()));
            }
            if matches!(dk, DefKind::Fn | DefKind::AssocFn) {
                let _ = write!(o, ",\"vis\":{}", esc(&format!("{:?}", tcx.visibility(did))));
                let sig = tcx.fn_sig(did).instantiate_identity().skip_norm_wip();
                let _ = write!(o, ",\"unsafe\":{},\"async\":{}", sig.safety().is_unsafe(), tcx.asyncness(did).is_async());
                let out = sig.skip_binder().output();
                let ins: Vec<Ty<'tcx>> = sig.skip_binder().inputs().to_vec();
                if !out.has_escaping_bound_vars() {
                    let oi = self.ty(out);
                    let _ = write!(o, ",\"ret\":{}", oi);
                } else {
                    let out = tcx.instantiate_bound_regions_with_erased(sig.output());
                    let oi = self.ty(out);
                    let _ = write!(o, ",\"ret\":{}", oi);
                }
                let _ = write!(o, ",\"nin\":{}", ins.len());
            }
            if matches!(tcx.def_kind(did), DefKind::Fn | DefKind::AssocFn) {
                let g = tcx.generics_of(did);
                let mut names = vec![];
                for i in 0..g.count() {
                    let p = g.param_at(i, tcx);
                    if matches!(p.kind, ty::GenericParamDefKind::Type { .. }) {
                        names.push(esc(p.name.as_str()));
                    }
                }
                let _ = write!(o, ",\"generics\":{}", arr(names));
            }
            if let Some(p) = tcx.opt_parent(did) {
                let _ = write!(o, ",\"parent\":{}", esc(&self.key(p)));
            }
            if let Some(im) = tcx.impl_of_assoc(did) {
                let st = tcx.type_of(im).instantiate_identity().skip_norm_wip();
                let st = self.ty(st);
                let _ = write!(o, ",\"impl\":{},\"self\":{}", esc(&self.key(im)), st);
                if let Some(tr) = tcx.impl_opt_trait_ref(im) {
                    let tr = tr.instantiate_identity().skip_norm_wip();
                    let a = self.gargs(tr.args);
                    let _ = write!(o, ",\"trait\":{},\"targs\":{}", esc(&self.path(tr.def_id)), a);
                }
            } else if let Some(tr) = tcx.trait_of_assoc(did) {
                let _ = write!(o, ",\"in_trait\":{}", esc(&self.path(tr)));
            }
            let _ = self.attrs_cfg(d);
            let is_fn = matches!(kind, "fn" | "method" | "closure" | "coroutine");
            if is_fn {
                let body = tcx.mir_drops_elaborated_and_const_checked(d);
                if body.is_stolen() {
                    let b = tcx.optimized_mir(did);
                    let s = self.body(b, did);
                    let _ = write!(o, ",\"stolen\":true,\"body\":{}", s);
                } else {
                    let b = body.borrow();
                    let s = self.body(&b, did);
                    let _ = write!(o, ",\"body\":{}", s);
                }
            } else {
                let t = tcx.type_of(did).instantiate_identity().skip_norm_wip();
                let ti = self.ty(t);
                let _ = write!(o, ",\"ret\":{}", ti);
                let b = tcx.mir_for_ctfe(did);
                let s = self.body(b, did);
                let _ = write!(o, ",\"body\":{}", s);
                if kind == "const" && tcx.generics_of(did).is_empty() {
                    if let Ok(mir::ConstValue::Scalar(mir::interpret::Scalar::Int(i))) = tcx.const_eval_poly(did) {
                        let _ = write!(o, ",\"int\":{}", self.scalar(i, t));
                    }
                }
                if kind == "static" {
                    let m = tcx.is_mutable_static(did);
                    let _ = write!(o, ",\"mut\":{}", m);
                }
            }
            let pm = tcx.promoted_mir(did);
            let v: Vec<String> = pm.iter().map(|b| self.body(b, did)).collect();
            let _ = write!(o, ",\"promoted\":{}}}", arr(v));
            fns.push(o);
        }
        // ADTs, impls, traits
        let mut adts = vec![];
        let mut impls = vec![];
        let mut traits = vec![];
        for id in tcx.hir_crate_items(()).definitions() {
            let did = id.to_def_id();
            match tcx.def_kind(did) {
                DefKind::Struct | DefKind::Enum | DefKind::Union => {
                    let a = tcx.adt_def(did);
                    let env = ty::TypingEnv::post_analysis(tcx, did);
                    let t = tcx.type_of(did).instantiate_identity().skip_norm_wip();
                    let freeze = t.is_freeze(tcx, env);
                    let mut vs = vec![];
                    for v in a.variants() {
                        let mut fs = vec![];
                        for f in &v.fields {
                            let ft = tcx.type_of(f.did).instantiate_identity().skip_norm_wip();
                            let fi = self.ty(ft);
                            fs.push(format!("[{},{},{}]", esc(f.name.as_str()), fi, esc(&format!("{:?}", f.vis))));
                        }
                        vs.push(format!("[{},{}]", esc(v.name.as_str()), arr(fs)));
                    }
                    adts.push(format!(
                        "{{\"def\":{},\"enum\":{},\"freeze\":{},\"span\":{},\"vis\":{},\"variants\":{}}}",
                        esc(&self.path(did)),
                        a.is_enum(),
                        freeze,
                        self.span(tcx.def_span(did)),
                        esc(&format!("{:?}", tcx.visibility(did))),
                        arr(vs)
                    ));
                }
                DefKind::Impl { of_trait } => {
                    let st = tcx.type_of(did).instantiate_identity().skip_norm_wip();
                    let st = self.ty(st);
                    let mut tr_s = "null".to_string();
                    let mut ta = "[]".to_string();
                    let mut uns = false;
                    if of_trait {
                        let tr = tcx.impl_trait_ref(did).instantiate_identity().skip_norm_wip();
                        tr_s = esc(&self.path(tr.def_id));
                        ta = self.gargs(tr.args);
                        uns = tcx.impl_trait_header(did).safety.is_unsafe();
                    }
                    let items: Vec<String> =
                        tcx.associated_item_def_ids(did).iter().map(|x| esc(&self.key(*x))).collect();
                    impls.push(format!(
                        "{{\"key\":{},\"trait\":{},\"targs\":{},\"self\":{},\"unsafe\":{},\"span\":{},\"items\":{}}}",
                        esc(&self.key(did)),
                        tr_s,
                        ta,
                        st,
                        uns,
                        self.span(tcx.def_span(did)),
                        arr(items)
                    ));
                }
                DefKind::Trait => {
                    let items: Vec<String> =
                        tcx.associated_item_def_ids(did).iter().map(|x| esc(&self.key(*x))).collect();
                    traits.push(format!("{{\"def\":{},\"items\":{}}}", esc(&self.path(did)), arr(items)));
                }
                _ => {}
            }
        }
        // unsafe blocks written by the crate
        let mut unsafes = vec![];
        {
            use rustc_hir::intravisit::{self, Visitor};
            struct V<'tcx> {
                tcx: TyCtxt<'tcx>,
                out: Vec<Span>,
            }
            impl<'tcx> Visitor<'tcx> for V<'tcx> {
                type NestedFilter = rustc_middle::hir::nested_filter::All;
                fn maybe_tcx(&mut self) -> TyCtxt<'tcx> {
                    self.tcx
                }
                fn visit_block(&mut self, b: &'tcx rustc_hir::Block<'tcx>) {
                    if let rustc_hir::BlockCheckMode::UnsafeBlock(rustc_hir::UnsafeSource::UserProvided) = b.rules {
                        // blocks that come out of another crate's macros (format!, println!) are not ours
                        let ex = b.span.ctxt().outer_expn_data();
                        let foreign = matches!(ex.macro_def_id, Some(d) if !d.is_local())
                            || (!b.span.ctxt().is_root() && ex.macro_def_id.is_none());
                        if !foreign {
                            self.out.push(b.span);
                        }
                    }
                    intravisit::walk_block(self, b);
                }
            }
            let mut v = V { tcx, out: vec![] };
            tcx.hir_walk_toplevel_module(&mut v);
            for s in v.out {
                unsafes.push(self.span(s));
            }
        }
        format!(
            "{{\"crate\":{},\"fns\":{},\n\"ext\":{{{}}},\n\"adts\":{},\n\"impls\":{},\n\"traits\":{},\n\"unsafe_blocks\":{},\n\"types\":{}}}",
            esc(tcx.crate_name(rustc_hir::def_id::LOCAL_CRATE).as_str()),
            format!("[{}]", fns.join(",\n")),
            self.ext.iter().map(|(k, v)| format!("{}:{}", esc(k), arr(v.clone()))).collect::<Vec<_>>().join(","),
            arr(adts),
            arr(impls),
            arr(traits),
            arr(unsafes),
            format!("[{}]", self.ty_out.join(",\n"))
        )
    }
}

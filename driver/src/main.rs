//! mirfacts: a rustc driver that type-checks one workspace crate with the real build's flags
//! and writes its optimised-off MIR (resolved callees, constants, CFG, types) as JSON.
//! Used as RUSTC_WORKSPACE_WRAPPER: argv = [mirfacts, rustc, args...].
#![feature(rustc_private)]
extern crate rustc_abi;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_session;
extern crate rustc_span;
extern crate rustc_structures;

use rustc_hir::def::DefKind;
use rustc_hir::def_id::{DefId, LOCAL_CRATE};
use rustc_middle::mir::interpret::{AllocRange, GlobalAlloc, Scalar};
use rustc_middle::mir::*;
use rustc_middle::ty::{self, Instance, Ty, TyCtxt, TypingEnv};
use std::fmt::Write as _;

struct Facts;

fn esc(s: &str, o: &mut String) {
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 || c as u32 == 0x7f => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
}
fn q(s: &str) -> String {
    let mut o = String::new();
    esc(s, &mut o);
    o
}

struct Cx<'tcx> {
    tcx: TyCtxt<'tcx>,
    env: TypingEnv<'tcx>,
}

impl<'tcx> Cx<'tcx> {
    fn path(&self, d: DefId) -> String {
        let s = rustc_middle::ty::print::with_no_trimmed_paths!(self.tcx.def_path_str(d));
        if d.is_local() {
            format!("{}::{}", self.tcx.crate_name(LOCAL_CRATE), s)
        } else {
            s
        }
    }
    fn key(&self, d: DefId) -> String {
        // unique and stable within one build: crate + def path with disambiguators
        format!("{}{}", self.tcx.crate_name(d.krate), self.tcx.def_path(d).to_string_no_crate_verbose())
    }
    fn ty(&self, t: Ty<'tcx>) -> String {
        rustc_middle::ty::print::with_no_trimmed_paths!(format!("{}", t))
    }
    fn span(&self, sp: rustc_span::Span) -> String {
        let sp = sp.source_callsite();
        let sm = self.tcx.sess.source_map();
        let lo = sm.lookup_char_pos(sp.lo());
        format!("{}:{}", lo.file.name.prefer_local_unconditionally(), lo.line)
    }

    fn place(&self, p: &Place<'tcx>) -> String {
        let mut o = format!("[{}", p.local.as_usize());
        for e in p.projection.iter() {
            o.push(',');
            match e {
                ProjectionElem::Deref => o.push_str("\"*\""),
                ProjectionElem::Field(f, t) => {
                    let _ = write!(o, "[\"f\",{},{}]", f.as_usize(), q(&self.ty(t)));
                }
                ProjectionElem::Index(l) => {
                    let _ = write!(o, "[\"i\",{}]", l.as_usize());
                }
                ProjectionElem::ConstantIndex { offset, min_length, from_end } => {
                    let _ = write!(o, "[\"ci\",{},{},{}]", offset, min_length, from_end);
                }
                ProjectionElem::Subslice { from, to, from_end } => {
                    let _ = write!(o, "[\"ss\",{},{},{}]", from, to, from_end);
                }
                ProjectionElem::Downcast(n, v) => {
                    let _ = write!(
                        o,
                        "[\"v\",{},{}]",
                        v.as_usize(),
                        q(&n.map(|s| s.to_string()).unwrap_or_default())
                    );
                }
                _ => o.push_str("[\"other\"]"),
            }
        }
        o.push(']');
        o
    }

    fn bytes_json(&self, b: &[u8]) -> String {
        let mut o = String::from("[");
        for (i, x) in b.iter().enumerate() {
            if i > 0 {
                o.push(',');
            }
            let _ = write!(o, "{}", x);
        }
        o.push(']');
        o
    }

    fn fndef(&self, did: DefId, args: ty::GenericArgsRef<'tcx>) -> String {
        let mut o = String::new();
        let _ = write!(o, "{{\"k\":\"fn\",\"path\":{},\"key\":{}", q(&self.path(did)), q(&self.key(did)));
        let a: Vec<String> = args.iter().map(|a| q(&rustc_middle::ty::print::with_no_trimmed_paths!(format!("{}", a)))).collect();
        let _ = write!(o, ",\"args\":[{}]", a.join(","));
        let mut resolved = did;
        if let Ok(Some(inst)) = Instance::try_resolve(self.tcx, self.env, did, args) {
            resolved = inst.def_id();
        }
        let _ = write!(
            o,
            ",\"rpath\":{},\"rkey\":{},\"local\":{}",
            q(&self.path(resolved)),
            q(&self.key(resolved)),
            resolved.is_local()
        );
        if let Some(tr) = self.tcx.trait_of_assoc(did) {
            let _ = write!(o, ",\"trait\":{}", q(&self.path(tr)));
        }
        let _ = write!(o, ",\"name\":{}", q(&self.tcx.opt_item_name(did).map(|s| s.to_string()).unwrap_or_default()));
        // closure type arguments: their def keys, so the analysis can inline them
        let mut cl = vec![];
        for a in args.iter() {
            if let Some(t) = a.as_type() {
                if let ty::Closure(cd, _) = t.kind() {
                    cl.push(q(&self.key(*cd)));
                }
            }
        }
        let _ = write!(o, ",\"closures\":[{}]", cl.join(","));
        // never-returning?
        let sig = self.tcx.fn_sig(did).skip_binder();
        if sig.output().skip_binder().is_never() {
            o.push_str(",\"never\":true");
        }
        o.push('}');
        o
    }

    fn konst(&self, c: &ConstOperand<'tcx>) -> String {
        let t = c.const_.ty();
        if let ty::FnDef(d, a) = t.kind() {
            return self.fndef(*d, a.no_bound_vars().unwrap_or(ty::List::empty()));
        }
        if let ty::Closure(d, _) = t.kind() {
            return format!("{{\"k\":\"closure\",\"key\":{}}}", q(&self.key(*d)));
        }
        let tys = q(&self.ty(t));
        if let Const::Unevaluated(u, _) = c.const_ {
            if let Some(p) = u.promoted {
                return format!("{{\"k\":\"promoted\",\"fn\":{},\"idx\":{},\"ty\":{}}}", q(&self.key(u.def)), p.as_usize(), tys);
            }
        }
        let mut extra = String::new();
        if let Const::Unevaluated(u, _) = c.const_ {
            extra = format!(",\"item\":{}", q(&self.path(u.def)));
        }
        if let Ok(v) = c.const_.eval(self.tcx, self.env, c.span) {
            if let Some(s) = self.constval(v, t) {
                return format!("{{\"k\":\"c\",\"ty\":{}{},{}}}", tys, extra, s);
            }
        }
        format!("{{\"k\":\"c\",\"ty\":{}{},\"raw\":{}}}", tys, extra, q(&format!("{}", c.const_)))
    }

    fn constval(&self, v: ConstValue, t: Ty<'tcx>) -> Option<String> {
        match v {
            ConstValue::ZeroSized => Some("\"zst\":true".to_string()),
            ConstValue::Scalar(Scalar::Int(i)) => {
                let size = i.size();
                let bits = i.to_bits(size);
                match t.kind() {
                    ty::Int(_) => Some(format!("\"int\":{}", size.sign_extend(bits))),
                    ty::Bool => Some(format!("\"bool\":{}", bits != 0)),
                    ty::Char => Some(format!("\"char\":{}", bits)),
                    _ => Some(format!("\"int\":{}", bits)),
                }
            }
            ConstValue::Scalar(Scalar::Ptr(p, _)) => {
                let inner = t.builtin_deref(true)?;
                let (prov, off) = p.into_raw_parts();
                if let GlobalAlloc::Memory(a) = self.tcx.global_alloc(prov.alloc_id()) {
                    let a = a.inner();
                    if let ty::Array(el, _) = inner.kind() {
                        if *el == self.tcx.types.u8 {
                            let r = AllocRange { start: off, size: a.size() - off };
                            let b = a.get_bytes_strip_provenance(&self.tcx, r).ok()?;
                            return Some(format!("\"bytes\":{}", self.bytes_json(b)));
                        }
                    }
                }
                None
            }
            ConstValue::Slice { .. } => {
                let b = v.try_get_slice_bytes_for_diagnostics(self.tcx)?;
                let inner = t.builtin_deref(true)?;
                if inner.is_str() {
                    let s = std::str::from_utf8(b).ok()?;
                    Some(format!("\"str\":{}", q(s)))
                } else {
                    Some(format!("\"bytes\":{}", self.bytes_json(b)))
                }
            }
            _ => None,
        }
    }

    fn op(&self, o: &Operand<'tcx>) -> String {
        match o {
            Operand::Copy(p) => format!("{{\"k\":\"copy\",\"p\":{}}}", self.place(p)),
            Operand::Move(p) => format!("{{\"k\":\"move\",\"p\":{}}}", self.place(p)),
            Operand::Constant(c) => self.konst(c),
            #[allow(unreachable_patterns)]
            _ => "{\"k\":\"other\"}".to_string(),
        }
    }

    fn rvalue(&self, r: &Rvalue<'tcx>, body: &Body<'tcx>) -> String {
        match r {
            Rvalue::Use(o, ..) => format!("{{\"r\":\"use\",\"a\":{}}}", self.op(o)),
            Rvalue::Repeat(o, n) => format!("{{\"r\":\"repeat\",\"a\":{},\"n\":{}}}", self.op(o), q(&format!("{}", n))),
            Rvalue::Ref(_, bk, p) => format!(
                "{{\"r\":\"ref\",\"mut\":{},\"p\":{}}}",
                matches!(bk, BorrowKind::Mut { .. }),
                self.place(p)
            ),
            Rvalue::RawPtr(_, p) => format!("{{\"r\":\"ref\",\"mut\":true,\"raw\":true,\"p\":{}}}", self.place(p)),
            Rvalue::Cast(k, o, t) => format!(
                "{{\"r\":\"cast\",\"kind\":{},\"a\":{},\"to\":{}}}",
                q(&format!("{:?}", k).chars().take(60).collect::<String>()),
                self.op(o),
                q(&self.ty(*t))
            ),
            Rvalue::BinaryOp(b, ops) => format!(
                "{{\"r\":\"bin\",\"op\":{},\"a\":{},\"b\":{}}}",
                q(&format!("{:?}", b)),
                self.op(&ops.0),
                self.op(&ops.1)
            ),
            Rvalue::UnaryOp(u, o) => format!("{{\"r\":\"un\",\"op\":{},\"a\":{}}}", q(&format!("{:?}", u)), self.op(o)),
            Rvalue::Discriminant(p) => {
                let t = p.ty(&body.local_decls, self.tcx).ty;
                let mut vs = vec![];
                if let ty::Adt(ad, _) = t.kind() {
                    if ad.is_enum() {
                        for (vi, d) in ad.discriminants(self.tcx) {
                            vs.push(format!("[{},{}]", d.val, q(ad.variant(vi).name.as_str())));
                        }
                    }
                }
                format!("{{\"r\":\"disc\",\"p\":{},\"ty\":{},\"vs\":[{}]}}", self.place(p), q(&self.ty(t)), vs.join(","))
            }
            Rvalue::Aggregate(k, ops) => {
                let mut o = String::from("{\"r\":\"agg\"");
                match &**k {
                    AggregateKind::Array(_) => o.push_str(",\"kind\":\"array\""),
                    AggregateKind::Tuple => o.push_str(",\"kind\":\"tuple\""),
                    AggregateKind::Adt(d, vi, _, _, _) => {
                        let ad = self.tcx.adt_def(*d);
                        let v = ad.variant(*vi);
                        let f: Vec<String> = v.fields.iter().map(|f| q(f.name.as_str())).collect();
                        let _ = write!(
                            o,
                            ",\"kind\":\"adt\",\"adt\":{},\"variant\":{},\"fields\":[{}]",
                            q(&self.path(*d)),
                            q(v.name.as_str()),
                            f.join(",")
                        );
                    }
                    AggregateKind::Closure(d, _) => {
                        let _ = write!(o, ",\"kind\":\"closure\",\"key\":{}", q(&self.key(*d)));
                    }
                    _ => o.push_str(",\"kind\":\"other\""),
                }
                let os: Vec<String> = ops.iter().map(|x| self.op(x)).collect();
                let _ = write!(o, ",\"ops\":[{}]}}", os.join(","));
                o
            }
            Rvalue::CopyForDeref(p) => format!("{{\"r\":\"use\",\"a\":{{\"k\":\"copy\",\"p\":{}}}}}", self.place(p)),
            _ => format!("{{\"r\":\"other\",\"dbg\":{}}}", q(&format!("{:?}", r).chars().take(200).collect::<String>())),
        }
    }

    fn body(&self, b: &Body<'tcx>) -> String {
        let mut o = String::new();
        let _ = write!(o, "\"argc\":{},\"locals\":[", b.arg_count);
        for (i, l) in b.local_decls.iter().enumerate() {
            if i > 0 {
                o.push(',');
            }
            o.push_str(&q(&self.ty(l.ty)));
        }
        o.push_str("],\"names\":{");
        let mut first = true;
        let mut seen = std::collections::BTreeSet::new();
        for v in &b.var_debug_info {
            if let VarDebugInfoContents::Place(p) = &v.value {
                if p.projection.is_empty() && seen.insert(p.local.as_usize()) {
                    if !first {
                        o.push(',');
                    }
                    first = false;
                    let _ = write!(o, "\"{}\":{}", p.local.as_usize(), q(v.name.as_str()));
                }
            }
        }
        o.push_str("},\"upvars\":[");
        first = true;
        for v in &b.var_debug_info {
            if let VarDebugInfoContents::Place(p) = &v.value {
                if !p.projection.is_empty() {
                    if !first {
                        o.push(',');
                    }
                    first = false;
                    let _ = write!(o, "[{},{}]", q(v.name.as_str()), self.place(p));
                }
            }
        }
        o.push_str("],\"blocks\":[");
        for (bi, bb) in b.basic_blocks.iter().enumerate() {
            if bi > 0 {
                o.push(',');
            }
            let _ = write!(o, "{{\"cleanup\":{},\"s\":[", bb.is_cleanup);
            let mut f = true;
            for s in &bb.statements {
                if let StatementKind::Assign(a) = &s.kind {
                    if !f {
                        o.push(',');
                    }
                    f = false;
                    let _ = write!(
                        o,
                        "{{\"d\":{},\"v\":{},\"sp\":{}}}",
                        self.place(&a.0),
                        self.rvalue(&a.1, b),
                        q(&self.span(s.source_info.span))
                    );
                }
            }
            o.push_str("],\"t\":");
            let t = bb.terminator();
            let sp = q(&self.span(t.source_info.span));
            let tb = |x: &Option<BasicBlock>| x.map(|b| b.as_usize().to_string()).unwrap_or("null".into());
            match &t.kind {
                TerminatorKind::Goto { target, .. } => {
                    let _ = write!(o, "{{\"t\":\"goto\",\"to\":{}}}", target.as_usize());
                }
                TerminatorKind::SwitchInt { discr, targets } => {
                    let ts: Vec<String> = targets.iter().map(|(v, b)| format!("[{},{}]", v, b.as_usize())).collect();
                    let _ = write!(
                        o,
                        "{{\"t\":\"switch\",\"a\":{},\"ty\":{},\"ts\":[{}],\"o\":{},\"sp\":{}}}",
                        self.op(discr),
                        q(&self.ty(discr.ty(&b.local_decls, self.tcx))),
                        ts.join(","),
                        targets.otherwise().as_usize(),
                        sp
                    );
                }
                TerminatorKind::Return => o.push_str("{\"t\":\"return\"}"),
                TerminatorKind::Unreachable => o.push_str("{\"t\":\"unreachable\"}"),
                TerminatorKind::Drop { place, target, .. } => {
                    let _ = write!(o, "{{\"t\":\"drop\",\"p\":{},\"to\":{}}}", self.place(place), target.as_usize());
                }
                TerminatorKind::Call { func, args, destination, target, fn_span, .. } => {
                    let a: Vec<String> = args.iter().map(|x| self.op(&x.node)).collect();
                    let fs = q(&self.span(*fn_span));
                    let _ = write!(
                        o,
                        "{{\"t\":\"call\",\"f\":{},\"a\":[{}],\"d\":{},\"to\":{},\"sp\":{},\"fsp\":{},\"exp\":{}}}",
                        self.op(func),
                        a.join(","),
                        self.place(destination),
                        tb(target),
                        sp,
                        fs,
                        q(&expn(t.source_info.span))
                    );
                }
                TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                    let _ = write!(
                        o,
                        "{{\"t\":\"assert\",\"a\":{},\"exp\":{},\"msg\":{},\"to\":{},\"sp\":{}}}",
                        self.op(cond),
                        expected,
                        q(&format!("{:?}", msg).chars().take(80).collect::<String>()),
                        target.as_usize(),
                        sp
                    );
                }
                TerminatorKind::FalseEdge { real_target, .. } => {
                    let _ = write!(o, "{{\"t\":\"goto\",\"to\":{}}}", real_target.as_usize());
                }
                TerminatorKind::FalseUnwind { real_target, .. } => {
                    let _ = write!(o, "{{\"t\":\"goto\",\"to\":{}}}", real_target.as_usize());
                }
                TerminatorKind::UnwindResume | TerminatorKind::UnwindTerminate(_) => o.push_str("{\"t\":\"resume\"}"),
                _ => o.push_str("{\"t\":\"other\"}"),
            }
            o.push('}');
        }
        o.push(']');
        o
    }
}

fn expn(sp: rustc_span::Span) -> String {
    let mut names = vec![];
    for e in sp.macro_backtrace() {
        names.push(format!("{}", e.kind.descr()));
    }
    names.join(">")
}

impl rustc_driver::Callbacks for Facts {
    fn config(&mut self, config: &mut rustc_interface::Config) {
        config.opts.unstable_opts.mir_opt_level = Some(0);
    }
    fn after_analysis<'tcx>(&mut self, _c: &rustc_interface::interface::Compiler, tcx: TyCtxt<'tcx>) -> rustc_driver::Compilation {
        let dir = match std::env::var("MIRFACTS_OUT") {
            Ok(d) => d,
            Err(_) => return rustc_driver::Compilation::Continue,
        };
        let krate = tcx.crate_name(LOCAL_CRATE).to_string();
        let mut o = String::new();
        let _ = write!(o, "{{\"crate\":{},\"fns\":[", q(&krate));
        let mut first = true;
        let mut n = 0;
        for ld in tcx.mir_keys(()) {
            let did = ld.to_def_id();
            let dk = tcx.def_kind(did);
            let (is_fn, kind) = match dk {
                DefKind::Fn => (true, "fn"),
                DefKind::AssocFn => (true, "method"),
                DefKind::Closure => (true, "closure"),
                DefKind::Const { .. } | DefKind::Static { .. } | DefKind::AssocConst { .. } => (false, "const"),
                _ => continue,
            };
            if tcx.is_constructor(did) || (kind == "closure" && tcx.is_coroutine(did)) {
                continue;
            }
            let cx = Cx { tcx, env: TypingEnv::post_analysis(tcx, did) };
            if !first {
                o.push(',');
            }
            first = false;
            n += 1;
            let vis = tcx.visibility(did).is_public() && matches!(dk, DefKind::Fn | DefKind::AssocFn);
            let eff = vis && tcx.effective_visibilities(()).is_reachable(*ld);
            let span = tcx.def_span(did);
            let derived = span.from_expansion();
            let mut tr = String::new();
            if let Some(imp) = tcx.impl_of_assoc(did) {
                if let Some(t) = tcx.impl_opt_trait_ref(imp) {
                    tr = rustc_middle::ty::print::with_no_trimmed_paths!(format!("{}", t.skip_binder()));
                }
            }
            let _ = write!(
                o,
                "{{\"path\":{},\"key\":{},\"kind\":{},\"pub\":{},\"reach\":{},\"derived\":{},\"exp\":{},\"impl\":{},\"name\":{},\"sp\":{}",
                q(&cx.path(did)),
                q(&cx.key(did)),
                q(kind),
                vis,
                eff,
                derived,
                q(&expn(span)),
                q(&tr),
                q(&tcx.opt_item_name(did).map(|s| s.to_string()).unwrap_or_default()),
                q(&cx.span(span))
            );
            let parent = tcx.opt_parent(did).map(|p| cx.key(p)).unwrap_or_default();
            let _ = write!(o, ",\"parent\":{}", q(&parent));
            let body: &Body<'tcx> = if is_fn { tcx.optimized_mir(did) } else { tcx.mir_for_ctfe(did) };
            let _ = write!(o, ",{}", cx.body(body));
            o.push_str(",\"promoted\":[");
            for (i, p) in tcx.promoted_mir(did).iter().enumerate() {
                if i > 0 {
                    o.push(',');
                }
                let _ = write!(o, "{{{}}}", cx.body(p));
            }
            o.push_str("]}");
        }
        // data types: fields and serde-relevant names
        o.push_str("],\"adts\":[");
        first = true;
        for id in tcx.hir_crate_items(()).definitions() {
            let did = id.to_def_id();
            if !matches!(tcx.def_kind(did), DefKind::Struct | DefKind::Enum) {
                continue;
            }
            let cx = Cx { tcx, env: TypingEnv::post_analysis(tcx, did) };
            let ad = tcx.adt_def(did);
            if !first {
                o.push(',');
            }
            first = false;
            let _ = write!(o, "{{\"path\":{},\"variants\":[", q(&cx.path(did)));
            for (vi, v) in ad.variants().iter().enumerate() {
                if vi > 0 {
                    o.push(',');
                }
                let fs: Vec<String> = v
                    .fields
                    .iter()
                    .map(|f| format!("[{},{}]", q(f.name.as_str()), q(&cx.ty(tcx.type_of(f.did).instantiate_identity().skip_norm_wip()))))
                    .collect();
                let _ = write!(o, "{{\"name\":{},\"fields\":[{}]}}", q(v.name.as_str()), fs.join(","));
            }
            o.push_str("]}");
        }
        let _ = write!(o, "],\"n\":{}}}", n);
        let tag = std::env::var("MIRFACTS_TAG").unwrap_or_default();
        let kind = if tcx.crate_types().iter().any(|t| matches!(t, rustc_structures::CrateType::Executable)) { "bin" } else { "lib" };
        let path = format!("{}/{}-{}{}.json", dir, krate, kind, tag);
        std::fs::write(&path, o).expect("write facts");
        rustc_driver::Compilation::Continue
    }
}

fn main() {
    let mut args: Vec<String> = std::env::args().collect();
    // argv[1] is the real rustc path when used as a wrapper
    if args.len() > 1 && (args[1].ends_with("rustc") || args[1].ends_with("/rustc")) {
        args.remove(1);
    }
    let mut name = String::new();
    for i in 0..args.len() {
        if args[i] == "--crate-name" && i + 1 < args.len() {
            name = args[i + 1].clone();
        }
    }
    let want = name.starts_with("zk_regex");
    if want {
        if let Ok(extra) = std::env::var("MIRFACTS_EXTRA") {
            for e in extra.split_whitespace() {
                args.push(e.to_string());
            }
        }
        rustc_driver::compiler_entrypoint(&args, &mut Facts);
    } else {
        struct N;
        impl rustc_driver::Callbacks for N {}
        rustc_driver::compiler_entrypoint(&args, &mut N);
    }
}

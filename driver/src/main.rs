// rustc driver: compiles the crate as rustc would, then dumps the type-checked MIR of the
// crate named by MIRDUMP_CRATE as JSON to MIRDUMP_OUT. Used as RUSTC_WORKSPACE_WRAPPER.
#![feature(rustc_private)]
extern crate rustc_abi;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_session;
extern crate rustc_span;

use rustc_driver::{Callbacks, Compilation};
use rustc_hir::def::DefKind;
use rustc_hir::def_id::DefId;
use rustc_middle::mir::{self, *};
use rustc_middle::ty::print::with_no_trimmed_paths;
use rustc_middle::ty::{self, Instance, Ty, TyCtxt, TypingEnv};
use rustc_span::Span;
use std::fmt::Write as _;

fn esc(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

struct D<'tcx> {
    tcx: TyCtxt<'tcx>,
}

impl<'tcx> D<'tcx> {
    fn path(&self, d: DefId) -> String {
        with_no_trimmed_paths!(self.tcx.def_path_str(d))
    }
    fn ty(&self, t: Ty<'tcx>) -> String {
        with_no_trimmed_paths!(format!("{}", t))
    }
    fn loc(&self, s: Span) -> String {
        // outermost expansion site, so that macro bodies point at their use
        let s = s.source_callsite();
        let sm = self.tcx.sess.source_map();
        let l = sm.lookup_char_pos(s.lo());
        let f = format!("{}", l.file.name.prefer_local_unconditionally());
        format!("{}:{}", f, l.line)
    }
    fn place(&self, body: &Body<'tcx>, p: &Place<'tcx>) -> String {
        let mut o = format!("[{}", p.local.as_usize());
        let mut pty = mir::PlaceTy::from_ty(body.local_decls[p.local].ty);
        for e in p.projection.iter() {
            o.push(',');
            match e {
                ProjectionElem::Deref => o.push_str("\"*\""),
                ProjectionElem::Field(f, _) => {
                    let name = match pty.ty.kind() {
                        ty::Adt(adt, _) => {
                            let v = pty.variant_index.unwrap_or(rustc_abi::FIRST_VARIANT);
                            if adt.is_enum() && pty.variant_index.is_none() {
                                format!("{}", f.as_usize())
                            } else {
                                adt.variant(v).fields[f].name.to_string()
                            }
                        }
                        _ => format!("{}", f.as_usize()),
                    };
                    let _ = write!(o, "[\"f\",{},{}]", f.as_usize(), esc(&name));
                }
                ProjectionElem::Index(l) => {
                    let _ = write!(o, "[\"i\",{}]", l.as_usize());
                }
                ProjectionElem::ConstantIndex { offset, from_end, .. } => {
                    let _ = write!(o, "[\"ci\",{},{}]", offset, from_end);
                }
                ProjectionElem::Subslice { from, to, from_end } => {
                    let _ = write!(o, "[\"ss\",{},{},{}]", from, to, from_end);
                }
                ProjectionElem::Downcast(name, v) => {
                    let n = name.map(|s| s.to_string()).unwrap_or_default();
                    let _ = write!(o, "[\"d\",{},{}]", v.as_usize(), esc(&n));
                }
                other => {
                    let _ = write!(o, "[\"x\",{}]", esc(&format!("{:?}", other)));
                }
            }
            pty = pty.projection_ty(self.tcx, e);
        }
        o.push(']');
        o
    }
    fn callee(&self, te: TypingEnv<'tcx>, d: DefId, args: ty::GenericArgsRef<'tcx>) -> String {
        let mut o = String::new();
        let orig = self.path(d);
        let a: Vec<String> = args
            .iter()
            .filter(|a| a.as_region().is_none())
            .map(|a| esc(&with_no_trimmed_paths!(format!("{}", a))))
            .collect();
        let mut res = None;
        let mut vis = String::new();
        let args_er = self.tcx.erase_and_anonymize_regions(args);
        if let Ok(Some(inst)) = Instance::try_resolve(self.tcx, te, d, args_er) {
            match inst.def {
                ty::InstanceKind::Item(rd) => res = Some(self.path(rd)),
                ty::InstanceKind::Virtual(rd, _) => {
                    res = Some(self.path(rd));
                    vis = "virtual".into();
                }
                other => {
                    vis = with_no_trimmed_paths!(format!("{:?}", other));
                    vis.truncate(120);
                }
            }
        }
        let r = res.unwrap_or_else(|| orig.clone());
        let _ = write!(
            o,
            "{{\"fn\":{},\"orig\":{},\"args\":[{}],\"local\":{},\"shim\":{}}}",
            esc(&r),
            esc(&orig),
            a.join(","),
            d.is_local(),
            esc(&vis)
        );
        o
    }
    fn bytes_json(b: &[u8]) -> String {
        let v: Vec<String> = b.iter().map(|x| x.to_string()).collect();
        format!("[{}]", v.join(","))
    }
    fn konst(&self, te: TypingEnv<'tcx>, c: &Const<'tcx>, span: Span) -> String {
        let tcx = self.tcx;
        let t = c.ty();
        let mut o = format!("{{\"ty\":{}", esc(&self.ty(t)));
        if let ty::FnDef(d, args) = t.kind() {
            let _ = write!(o, ",\"callee\":{}", self.callee(te, *d, args.no_bound_vars().expect("late-bound")));
            o.push('}');
            return o;
        }
        if let ty::Closure(d, _) = t.kind() {
            let _ = write!(o, ",\"closure\":{}", esc(&self.path(*d)));
        }
        if let Const::Unevaluated(u, _) = c {
            if let Some(p) = u.promoted {
                let _ = write!(o, ",\"promoted\":{},\"of\":{}", p.as_usize(), esc(&self.path(u.def)));
                // still try to evaluate below for &str
            } else {
                let _ = write!(o, ",\"def\":{}", esc(&self.path(u.def)));
            }
        }
        if let Ok(v) = c.eval(tcx, te, span) {
            match v {
                ConstValue::Scalar(mir::interpret::Scalar::Int(i)) => {
                    let size = i.size();
                    match t.kind() {
                        ty::Int(_) => {
                            let _ = write!(o, ",\"int\":{}", i.to_int(size));
                        }
                        ty::Char => {
                            let _ = write!(o, ",\"int\":{},\"char\":true", i.to_uint(size));
                        }
                        ty::Bool => {
                            let _ = write!(o, ",\"int\":{},\"bool\":true", i.to_uint(size));
                        }
                        ty::Adt(..) => {
                            let _ = write!(o, ",\"adtbits\":{}", i.to_uint(size));
                        }
                        _ => {
                            let _ = write!(o, ",\"int\":{}", i.to_uint(size));
                        }
                    }
                }
                ConstValue::Scalar(mir::interpret::Scalar::Ptr(p, _)) => {
                    let (prov, off) = p.into_raw_parts();
                    let id = prov.alloc_id();
                    match tcx.global_alloc(id) {
                        mir::interpret::GlobalAlloc::Memory(a) => {
                            let inner = a.inner();
                            let plain = match t.kind() {
                                ty::Ref(_, it, _) => match it.kind() {
                                    ty::Array(e, _) => e.is_integral(),
                                    ty::Int(_) | ty::Uint(_) | ty::Bool | ty::Char => true,
                                    _ => false,
                                },
                                _ => false,
                            };
                            if plain && inner.provenance().ptrs().is_empty() {
                                let b = inner.inspect_with_uninit_and_ptr_outside_interpreter(
                                    off.bytes_usize()..inner.len(),
                                );
                                let _ = write!(o, ",\"bytes\":{}", Self::bytes_json(b));
                            }
                        }
                        mir::interpret::GlobalAlloc::Static(d) => {
                            let _ = write!(o, ",\"static\":{}", esc(&self.path(d)));
                        }
                        mir::interpret::GlobalAlloc::Function { instance, .. } => {
                            let _ = write!(o, ",\"fnptr\":{}", esc(&self.path(instance.def_id())));
                        }
                        _ => {}
                    }
                }
                ConstValue::Slice { .. } => {
                    if let Some(b) = v.try_get_slice_bytes_for_diagnostics(tcx) {
                        match std::str::from_utf8(b) {
                            Ok(s) if t.builtin_deref(true).map_or(false, |x| x.is_str()) => {
                                let _ = write!(o, ",\"str\":{}", esc(s));
                            }
                            _ => {
                                let _ = write!(o, ",\"bytes\":{}", Self::bytes_json(b));
                            }
                        }
                    }
                }
                ConstValue::ZeroSized => o.push_str(",\"zst\":true"),
                ConstValue::Indirect { .. } => {
                    if let Some(b) = v.try_get_slice_bytes_for_diagnostics(tcx) {
                        let _ = write!(o, ",\"bytes\":{}", Self::bytes_json(b));
                    }
                    o.push_str(",\"indirect\":true");
                }
            }
        }
        // variant for fieldless-enum constants
        if let ty::Adt(adt, _) = t.kind() {
            if adt.is_enum() {
                if let Ok(v) = c.eval(tcx, te, span) {
                    if let Some(dc) = tcx.try_destructure_mir_constant_for_user_output(v, t) {
                        if let Some(vi) = dc.variant {
                            let _ = write!(
                                o,
                                ",\"variant\":{},\"vidx\":{}",
                                esc(adt.variant(vi).name.as_str()),
                                vi.as_usize()
                            );
                        }
                    }
                }
            }
        }
        o.push('}');
        o
    }
    fn operand(&self, body: &Body<'tcx>, te: TypingEnv<'tcx>, op: &Operand<'tcx>) -> String {
        match op {
            Operand::Copy(p) => format!("[\"c\",{}]", self.place(body, p)),
            Operand::Move(p) => format!("[\"m\",{}]", self.place(body, p)),
            Operand::Constant(c) => format!("[\"k\",{}]", self.konst(te, &c.const_, c.span)),
            Operand::RuntimeChecks(r) => format!("[\"rt\",{}]", esc(&format!("{:?}", r))),
        }
    }
    fn rvalue(&self, body: &Body<'tcx>, te: TypingEnv<'tcx>, rv: &Rvalue<'tcx>) -> String {
        match rv {
            Rvalue::Use(op, ..) => format!("[\"use\",{}]", self.operand(body, te, op)),
            Rvalue::Repeat(op, n) => format!(
                "[\"repeat\",{},{}]",
                self.operand(body, te, op),
                esc(&format!("{}", n))
            ),
            Rvalue::Ref(_, bk, p) => format!(
                "[\"ref\",{},{}]",
                match bk {
                    BorrowKind::Mut { .. } => "\"mut\"",
                    _ => "\"shared\"",
                },
                self.place(body, p)
            ),
            Rvalue::ThreadLocalRef(d) => format!("[\"tls\",{}]", esc(&self.path(*d))),
            Rvalue::RawPtr(_, p) => format!("[\"ref\",\"raw\",{}]", self.place(body, p)),
            Rvalue::Reborrow(_, _, p) => format!("[\"ref\",\"mut\",{}]", self.place(body, p)),
            Rvalue::Cast(k, op, t) => format!(
                "[\"cast\",{},{},{}]",
                esc(&format!("{:?}", k)),
                self.operand(body, te, op),
                esc(&self.ty(*t))
            ),
            Rvalue::BinaryOp(b, ops) => format!(
                "[\"bin\",\"{:?}\",{},{}]",
                b,
                self.operand(body, te, &ops.0),
                self.operand(body, te, &ops.1)
            ),
            Rvalue::UnaryOp(u, op) => {
                format!("[\"un\",\"{:?}\",{}]", u, self.operand(body, te, op))
            }
            Rvalue::Discriminant(p) => {
                let t = p.ty(&body.local_decls, self.tcx).ty;
                let mut vs = vec![];
                if let ty::Adt(adt, _) = t.kind() {
                    if adt.is_enum() {
                        for (vi, d) in adt.discriminants(self.tcx) {
                            vs.push(format!(
                                "\"{}\":[{},{}]",
                                d.val,
                                vi.as_usize(),
                                esc(adt.variant(vi).name.as_str())
                            ));
                        }
                    }
                }
                format!(
                    "[\"discr\",{},{},{{{}}}]",
                    self.place(body, p),
                    esc(&self.ty(t)),
                    vs.join(",")
                )
            }
            Rvalue::Aggregate(k, ops) => {
                let f: Vec<String> = ops.iter().map(|o| self.operand(body, te, o)).collect();
                let kind = match &**k {
                    AggregateKind::Array(_) => "[\"array\"]".to_string(),
                    AggregateKind::Tuple => "[\"tuple\"]".to_string(),
                    AggregateKind::Adt(d, v, _, _, _) => {
                        let adt = self.tcx.adt_def(*d);
                        let names: Vec<String> = adt
                            .variant(*v)
                            .fields
                            .iter()
                            .map(|f| esc(f.name.as_str()))
                            .collect();
                        format!(
                            "[\"adt\",{},{},{},[{}],{}]",
                            esc(&self.path(*d)),
                            v.as_usize(),
                            esc(adt.variant(*v).name.as_str()),
                            names.join(","),
                            adt.is_enum()
                        )
                    }
                    AggregateKind::Closure(d, _) => format!("[\"closure\",{}]", esc(&self.path(*d))),
                    _ => "[\"other\"]".to_string(),
                };
                format!("[\"agg\",{},[{}]]", kind, f.join(","))
            }
            Rvalue::CopyForDeref(p) => format!("[\"use\",[\"c\",{}]]", self.place(body, p)),
            Rvalue::WrapUnsafeBinder(op, _) => format!("[\"use\",{}]", self.operand(body, te, op)),
        }
    }
    fn body(&self, body: &Body<'tcx>, name: &str, te: TypingEnv<'tcx>, extra: &str) -> String {
        let mut o = String::new();
        let _ = write!(
            o,
            "{{\"name\":{},\"span\":{},\"argc\":{},{}\"locals\":[",
            esc(name),
            esc(&self.loc(body.span)),
            body.arg_count,
            extra
        );
        for (i, l) in body.local_decls.iter().enumerate() {
            if i > 0 {
                o.push(',');
            }
            o.push_str(&esc(&self.ty(l.ty)));
        }
        o.push_str("],\"vars\":[");
        let mut first = true;
        for v in &body.var_debug_info {
            if let VarDebugInfoContents::Place(p) = &v.value {
                if !first {
                    o.push(',');
                }
                first = false;
                let _ = write!(o, "[{},{}]", esc(v.name.as_str()), self.place(body, p));
            }
        }
        o.push_str("],\"blocks\":[");
        for (bi, bb) in body.basic_blocks.iter_enumerated() {
            if bi.as_usize() > 0 {
                o.push(',');
            }
            o.push_str("{\"s\":[");
            let mut first = true;
            for st in &bb.statements {
                let s = match &st.kind {
                    StatementKind::Assign(b) => {
                        format!(
                            "[\"=\",{},{},{}]",
                            self.place(body, &b.0),
                            self.rvalue(body, te, &b.1),
                            esc(&self.loc(st.source_info.span))
                        )
                    }
                    StatementKind::SetDiscriminant { place, variant_index } => {
                        format!("[\"sd\",{},{}]", self.place(body, place), variant_index.as_usize())
                    }
                    StatementKind::StorageDead(l) => format!("[\"dead\",{}]", l.as_usize()),
                    _ => continue,
                };
                if !first {
                    o.push(',');
                }
                first = false;
                o.push_str(&s);
            }
            o.push_str("],\"t\":");
            let t = bb.terminator();
            let ls = esc(&self.loc(t.source_info.span));
            let s = match &t.kind {
                TerminatorKind::Goto { target, .. } => format!("[\"goto\",{}]", target.as_usize()),
                TerminatorKind::SwitchInt { discr, targets } => {
                    let tt: Vec<String> = targets
                        .iter()
                        .map(|(v, b)| format!("[{},{}]", v, b.as_usize()))
                        .collect();
                    let dty = discr.ty(&body.local_decls, self.tcx);
                    format!(
                        "[\"switch\",{},[{}],{},{},{}]",
                        self.operand(body, te, discr),
                        tt.join(","),
                        targets.otherwise().as_usize(),
                        esc(&self.ty(dty)),
                        ls
                    )
                }
                TerminatorKind::Return => "[\"return\"]".into(),
                TerminatorKind::Unreachable => "[\"unreachable\"]".into(),
                TerminatorKind::UnwindResume | TerminatorKind::UnwindTerminate(_) => {
                    "[\"resume\"]".into()
                }
                TerminatorKind::Drop { place, target, unwind, .. } => {
                    let t = place.ty(&body.local_decls, self.tcx).ty;
                    format!(
                        "[\"drop\",{},{},{},{}]",
                        self.place(body, place),
                        target.as_usize(),
                        esc(&self.ty(t)),
                        match unwind {
                            UnwindAction::Cleanup(b) => b.as_usize() as i64,
                            _ => -1,
                        }
                    )
                }
                TerminatorKind::Call { func, args, destination, target, unwind, .. } => {
                    let a: Vec<String> =
                        args.iter().map(|x| self.operand(body, te, &x.node)).collect();
                    format!(
                        "[\"call\",{},[{}],{},{},{},{}]",
                        self.operand(body, te, func),
                        a.join(","),
                        self.place(body, destination),
                        target.map_or(-1, |b| b.as_usize() as i64),
                        ls,
                        match unwind {
                            UnwindAction::Cleanup(b) => b.as_usize() as i64,
                            _ => -1,
                        }
                    )
                }
                TerminatorKind::TailCall { .. } => "[\"tailcall\"]".into(),
                TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                    let k = match &**msg {
                        AssertKind::BoundsCheck { .. } => "bounds".to_string(),
                        AssertKind::Overflow(op, ..) => format!("overflow:{:?}", op),
                        AssertKind::OverflowNeg(_) => "overflow:Neg".into(),
                        AssertKind::DivisionByZero(_) => "divzero".into(),
                        AssertKind::RemainderByZero(_) => "remzero".into(),
                        _ => "other".into(),
                    };
                    format!(
                        "[\"assert\",{},{},{},{},{}]",
                        self.operand(body, te, cond),
                        expected,
                        esc(&k),
                        target.as_usize(),
                        ls
                    )
                }
                TerminatorKind::FalseEdge { real_target, .. } => {
                    format!("[\"goto\",{}]", real_target.as_usize())
                }
                TerminatorKind::FalseUnwind { real_target, .. } => {
                    format!("[\"goto\",{}]", real_target.as_usize())
                }
                _ => "[\"other\"]".into(),
            };
            o.push_str(&s);
            let _ = write!(o, ",\"c\":{}}}", bb.is_cleanup);
        }
        o.push_str("]}");
        o
    }
}

fn dump(tcx: TyCtxt<'_>, out: &str) {
    let d = D { tcx };
    let mut o = String::new();
    o.push_str("{\"bodies\":[\n");
    let mut first = true;
    let mut push = |o: &mut String, s: String| {
        if !first {
            o.push_str(",\n");
        }
        first = false;
        o.push_str(&s);
    };
    for ld in tcx.mir_keys(()).iter() {
        let def = ld.to_def_id();
        let kind = tcx.def_kind(def);
        let te = TypingEnv::post_analysis(tcx, def);
        let name = d.path(def);
        match kind {
            DefKind::Fn | DefKind::AssocFn | DefKind::Closure => {
                let body = tcx.optimized_mir(def);
                let vis = if kind == DefKind::Closure {
                    "closure".to_string()
                } else {
                    if tcx.visibility(def).is_public() { "pub".to_string() } else { "priv".to_string() }
                };
                let exported = tcx.effective_visibilities(()).is_reachable(*ld);
                let derived = tcx.is_automatically_derived(tcx.parent(def));
                let self_ty = tcx
                    .impl_of_assoc(def)
                    .map(|i| d.ty(tcx.type_of(i).instantiate_identity().skip_norm_wip()))
                    .unwrap_or_default();
                let parent = if kind == DefKind::Closure { d.path(tcx.typeck_root_def_id(def)) } else { String::new() };
                let extra = format!(
                    "\"kind\":\"fn\",\"vis\":{},\"exported\":{},\"derived\":{},\"self\":{},\"parent\":{},",
                    esc(&vis),
                    exported,
                    derived,
                    esc(&self_ty),
                    esc(&parent)
                );
                push(&mut o, d.body(body, &name, te, &extra));
                for (i, p) in tcx.promoted_mir(def).iter_enumerated() {
                    let n = format!("{}::promoted[{}]", name, i.as_usize());
                    push(&mut o, d.body(p, &n, te, "\"kind\":\"promoted\","));
                }
            }
            DefKind::Const { .. } | DefKind::AssocConst { .. } | DefKind::Static { .. } => {
                let body = tcx.mir_for_ctfe(def);
                let k = if matches!(kind, DefKind::Static { .. }) { "static" } else { "const" };
                push(&mut o, d.body(body, &name, te, &format!("\"kind\":\"{}\",", k)));
                for (i, p) in tcx.promoted_mir(def).iter_enumerated() {
                    let n = format!("{}::promoted[{}]", name, i.as_usize());
                    push(&mut o, d.body(p, &n, te, "\"kind\":\"promoted\","));
                }
            }
            _ => {}
        }
    }
    o.push_str("\n],\"adts\":[\n");
    let mut first = true;
    let items = tcx.hir_crate_items(());
    let mut defs: Vec<rustc_hir::def_id::DefId> = items.definitions().map(|d| d.to_def_id()).collect();
    // node types live in a crate of their own
    for c in tcx.crates(()) {
        if tcx.crate_name(*c).as_str() != "lib_ruby_parser_ast" {
            continue;
        }
        let mut todo = vec![c.as_def_id()];
        let mut seen = std::collections::HashSet::new();
        while let Some(m) = todo.pop() {
            for ch in tcx.module_children(m) {
                if let Some(d) = ch.res.opt_def_id() {
                    if d.krate != *c || !seen.insert(d) {
                        continue;
                    }
                    match tcx.def_kind(d) {
                        DefKind::Mod => todo.push(d),
                        DefKind::Struct | DefKind::Enum => defs.push(d),
                        _ => {}
                    }
                }
            }
        }
    }
    for def in defs {
        match tcx.def_kind(def) {
            DefKind::Struct | DefKind::Enum | DefKind::Union => {
                if !first {
                    o.push_str(",\n");
                }
                first = false;
                let adt = tcx.adt_def(def);
                let _ = write!(
                    o,
                    "{{\"name\":{},\"enum\":{},\"variants\":[",
                    esc(&d.path(def)),
                    adt.is_enum()
                );
                for (i, v) in adt.variants().iter().enumerate() {
                    if i > 0 {
                        o.push(',');
                    }
                    let _ = write!(o, "[{},[", esc(v.name.as_str()));
                    for (j, f) in v.fields.iter().enumerate() {
                        if j > 0 {
                            o.push(',');
                        }
                        let t = tcx.type_of(f.did).instantiate_identity().skip_norm_wip();
                        let _ = write!(o, "[{},{}]", esc(f.name.as_str()), esc(&d.ty(t)));
                    }
                    o.push_str("]]");
                }
                o.push_str("]}");
            }
            _ => {}
        }
    }
    o.push_str("\n],\"statics\":[");
    let mut first = true;
    for id in items.definitions() {
        let def = id.to_def_id();
        if let DefKind::Static { mutability, .. } = tcx.def_kind(def) {
            if !first {
                o.push(',');
            }
            first = false;
            let t = tcx.type_of(def).instantiate_identity().skip_norm_wip();
            let freeze = t.is_freeze(tcx, TypingEnv::fully_monomorphized());
            let _ = write!(
                o,
                "{{\"name\":{},\"ty\":{},\"mut\":{},\"freeze\":{},\"span\":{},\"tls\":{}}}",
                esc(&d.path(def)),
                esc(&d.ty(t)),
                mutability.is_mut(),
                freeze,
                esc(&d.loc(tcx.def_span(def))),
                tcx.is_thread_local_static(def)
            );
        }
    }
    o.push_str("]}\n");
    std::fs::write(out, o).unwrap();
}

struct Cb {
    out: Option<String>,
}
impl Callbacks for Cb {
    fn after_analysis<'tcx>(
        &mut self,
        _c: &rustc_interface::interface::Compiler,
        tcx: TyCtxt<'tcx>,
    ) -> Compilation {
        if let Some(o) = &self.out {
            dump(tcx, o);
        }
        Compilation::Continue
    }
}

fn main() {
    let mut args: Vec<String> = std::env::args().collect();
    // RUSTC_WORKSPACE_WRAPPER passes the path of rustc as the first argument
    if args.len() > 1 && std::path::Path::new(&args[1]).file_stem().map_or(false, |s| s == "rustc") {
        args.remove(1);
    }
    let want = std::env::var("MIRDUMP_CRATE").unwrap_or_default();
    let mut out = None;
    let cn = args.iter().position(|a| a == "--crate-name").and_then(|i| args.get(i + 1).cloned());
    let is_lib = args
        .iter()
        .position(|a| a == "--crate-type")
        .and_then(|i| args.get(i + 1).cloned())
        .map_or(false, |t| t == "lib" || t == "rlib");
    if let Some(cn) = cn {
        if cn == want && is_lib {
            out = std::env::var("MIRDUMP_OUT").ok();
            args.push("-Zmir-opt-level=0".into());
            args.push("-Zinline-mir=no".into());
        }
    }
    rustc_driver::install_ice_hook("mirdump", |_| ());
    let code = rustc_driver::catch_with_exit_code(|| {
        rustc_driver::compiler_entrypoint(&args, &mut Cb { out });
    });
    std::process::exit(if format!("{:?}", code).contains("(0)") { 0 } else { 1 });
}

//! mirfacts: a rustc driver that dumps the type-checked, resolved MIR (phase
//! `mir_promoted`: before drop elaboration and before coroutines are turned into
//! state machines) of every body of a workspace crate as JSON.
//! It decides nothing; /verif/sa reads the dump and decides.
#![feature(rustc_private)]
extern crate rustc_abi;
extern crate rustc_data_structures;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_index;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_session;
extern crate rustc_span;

use rustc_driver::{Callbacks, Compilation};
use rustc_hir::def::DefKind;
use rustc_hir::def_id::{DefId, LocalDefId, LOCAL_CRATE};
use rustc_interface::interface;
use rustc_middle::mir::interpret::{GlobalAlloc, Scalar};
use rustc_middle::mir::*;
use rustc_middle::ty::print::{
    with_no_trimmed_paths, with_no_visible_paths, with_resolve_crate_name,
};
use rustc_middle::ty::{self, Instance, Ty, TyCtxt, TypingEnv};
use rustc_span::Span;
use std::collections::HashMap;
use std::fmt::Write as _;

fn esc(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

struct Dumper<'tcx> {
    tcx: TyCtxt<'tcx>,
    types: Vec<String>,
    tymap: HashMap<Ty<'tcx>, usize>,
    adts: HashMap<DefId, ()>,
    adt_out: Vec<String>,
}

impl<'tcx> Dumper<'tcx> {
    fn path(&self, d: DefId) -> String {
        with_resolve_crate_name!(with_no_visible_paths!(with_no_trimmed_paths!(
            self.tcx.def_path_str(d)
        )))
    }
    fn tystr(&self, t: Ty<'tcx>) -> String {
        with_resolve_crate_name!(with_no_visible_paths!(with_no_trimmed_paths!(t.to_string())))
    }
    fn span(&self, s: Span) -> String {
        // report the outermost expansion site, so macro-generated code has a line of /repo
        let s = s.source_callsite();
        let sm = self.tcx.sess.source_map();
        let lo = sm.lookup_char_pos(s.lo());
        let f = lo.file.name.prefer_local_unconditionally().to_string();
        esc(&format!("{}:{}:{}", f, lo.line, lo.col.0 + 1))
    }
    fn ty(&mut self, t: Ty<'tcx>) -> usize {
        let t = self.tcx.erase_and_anonymize_regions(t);
        if let Some(i) = self.tymap.get(&t) {
            return *i;
        }
        let idx = self.types.len();
        self.types.push(String::new());
        self.tymap.insert(t, idx);
        let s = self.tystr(t);
        let (k, p, a): (&str, String, Vec<usize>) = match t.kind() {
            ty::Adt(def, args) => {
                let did = def.did();
                self.adt(did);
                let p = self.path(did);
                let a = args.types().map(|t| self.ty(t)).collect();
                ("adt", p, a)
            }
            ty::Ref(_, t, m) => (
                if m.is_mut() { "refmut" } else { "ref" },
                String::new(),
                vec![self.ty(*t)],
            ),
            ty::RawPtr(t, _) => ("ptr", String::new(), vec![self.ty(*t)]),
            ty::Tuple(ts) => ("tuple", String::new(), ts.iter().map(|t| self.ty(t)).collect()),
            ty::Slice(t) => ("slice", String::new(), vec![self.ty(*t)]),
            ty::Array(t, _) => ("array", String::new(), vec![self.ty(*t)]),
            ty::FnDef(d, args) => {
                let p = self.path(*d);
                let args = args.skip_binder();
                let a = args.types().map(|t| self.ty(t)).collect();
                ("fndef", p, a)
            }
            ty::Closure(d, args) => {
                let p = self.path(*d);
                let ups: Vec<usize> =
                    args.as_closure().upvar_tys().iter().map(|t| self.ty(t)).collect();
                ("closure", p, ups)
            }
            ty::Coroutine(d, args) => {
                let p = self.path(*d);
                let ups: Vec<usize> =
                    args.as_coroutine().upvar_tys().iter().map(|t| self.ty(t)).collect();
                ("coroutine", p, ups)
            }
            ty::Dynamic(..) => ("dyn", String::new(), vec![]),
            ty::FnPtr(..) => ("fnptr", String::new(), vec![]),
            ty::Param(_) => ("param", String::new(), vec![]),
            ty::Alias(..) => ("alias", String::new(), vec![]),
            _ => ("prim", String::new(), vec![]),
        };
        self.types[idx] = format!(
            "{{\"s\":{},\"k\":\"{}\",\"p\":{},\"a\":{:?}}}",
            esc(&s),
            k,
            esc(&p),
            a
        );
        idx
    }
    fn adt(&mut self, d: DefId) {
        if self.adts.contains_key(&d) {
            return;
        }
        self.adts.insert(d, ());
        let def = self.tcx.adt_def(d);
        let mut vs = vec![];
        for v in def.variants().iter() {
            let mut fs = vec![];
            for f in v.fields.iter() {
                let local = d.is_local()
                    || matches!(self.tcx.crate_name(d.krate).as_str(), "lsp_types" | "tree_sitter");
                let t = if local {
                    let t = self.tcx.type_of(f.did).instantiate_identity().skip_normalization();
                    self.ty(t) as i64
                } else {
                    -1
                };
                fs.push(format!("[{},{}]", esc(f.name.as_str()), t));
            }
            vs.push(format!("{{\"n\":{},\"f\":[{}]}}", esc(v.name.as_str()), fs.join(",")));
        }
        let kind = if def.is_enum() { "enum" } else if def.is_union() { "union" } else { "struct" };
        let discrs = if def.is_enum() {
            def.discriminants(self.tcx).map(|(_, d)| esc(&format!("{}", d.val))).collect::<Vec<_>>()
        } else {
            vec![]
        };
        let p = self.path(d);
        self.adt_out.push(format!(
            "{{\"p\":{},\"kind\":\"{}\",\"local\":{},\"variants\":[{}],\"discr\":[{}]}}",
            esc(&p),
            kind,
            d.is_local(),
            vs.join(","),
            discrs.join(",")
        ));
    }

    fn place(&mut self, p: &Place<'tcx>, body: &Body<'tcx>) -> String {
        let mut out = format!("[{}", p.local.as_usize());
        let mut pty = PlaceTy::from_ty(body.local_decls[p.local].ty);
        for e in p.projection.iter() {
            let s = match e {
                ProjectionElem::Deref => "\"*\"".to_string(),
                ProjectionElem::Field(f, fty) => {
                    // name of the field
                    let name = match pty.ty.kind() {
                        ty::Adt(def, _) => {
                            let v = match pty.variant_index {
                                Some(v) => Some(def.variant(v)),
                                None if def.is_struct() => Some(def.non_enum_variant()),
                                _ => None,
                            };
                            v.map(|v| v.fields[f].name.to_string())
                        }
                        _ => None,
                    };
                    let t = self.ty(fty);
                    format!(
                        "[\"f\",{},{},{}]",
                        f.as_usize(),
                        esc(&name.unwrap_or_else(|| f.as_usize().to_string())),
                        t
                    )
                }
                ProjectionElem::Index(l) => format!("[\"i\",{}]", l.as_usize()),
                ProjectionElem::ConstantIndex { offset, from_end, .. } => {
                    format!("[\"ci\",{},{}]", offset, from_end)
                }
                ProjectionElem::Subslice { from, to, from_end } => {
                    format!("[\"ss\",{},{},{}]", from, to, from_end)
                }
                ProjectionElem::Downcast(n, v) => {
                    let name = match n {
                        Some(n) => n.to_string(),
                        None => match pty.ty.kind() {
                            ty::Adt(def, _) => def.variant(v).name.to_string(),
                            _ => String::new(),
                        },
                    };
                    format!("[\"d\",{},{}]", v.as_usize(), esc(&name))
                }
                _ => "\"?\"".to_string(),
            };
            out.push(',');
            out.push_str(&s);
            pty = pty.projection_ty(self.tcx, e);
        }
        out.push(']');
        out
    }

    fn str_of_alloc(&self, id: rustc_middle::mir::interpret::AllocId, len: Option<u64>) -> Option<String> {
        if let GlobalAlloc::Memory(m) = self.tcx.global_alloc(id) {
            let a = m.inner();
            let n = len.map(|l| l as usize).unwrap_or(a.len());
            let b = a.inspect_with_uninit_and_ptr_outside_interpreter(0..n);
            return String::from_utf8(b.to_vec()).ok();
        }
        None
    }

    fn constant(&mut self, c: &ConstOperand<'tcx>, env: TypingEnv<'tcx>) -> String {
        let t = c.const_.ty();
        let ti = self.ty(t);
        if let ty::FnDef(d, args) = t.kind() {
            let args = args.skip_binder();
            let p = self.path(*d);
            let mut res = String::new();
            if matches!(self.tcx.def_kind(*d), DefKind::Fn | DefKind::AssocFn) {
                if let Ok(Some(i)) = Instance::try_resolve(self.tcx, env, *d, args) {
                    res = self.path(i.def_id());
                }
            }
            let a: Vec<usize> = args.types().map(|t| self.ty(t)).collect();
            let krate = self.tcx.crate_name(d.krate).to_string();
            return format!(
                "{{\"k\":\"fn\",\"p\":{},\"r\":{},\"a\":{:?},\"crate\":{},\"t\":{}}}",
                esc(&p),
                esc(&res),
                a,
                esc(&krate),
                ti
            );
        }
        if let Const::Unevaluated(u, _) = c.const_ {
            if let Some(p) = u.promoted {
                return format!(
                    "{{\"k\":\"promoted\",\"p\":{},\"i\":{},\"t\":{}}}",
                    esc(&self.path(u.def)),
                    p.as_usize(),
                    ti
                );
            }
        }
        let name = match c.const_ {
            Const::Unevaluated(u, _) => Some(self.path(u.def)),
            _ => None,
        };
        let nm = name.map(|n| format!(",\"name\":{}", esc(&n))).unwrap_or_default();
        let v = c.const_.eval(self.tcx, env, c.span);
        let out = match v {
            Ok(ConstValue::Scalar(Scalar::Int(i))) => {
                let neg = matches!(t.kind(), ty::Int(_));
                let val = if neg { i.to_int(i.size()).to_string() } else { i.to_bits(i.size()).to_string() };
                format!("{{\"k\":\"int\",\"v\":{},\"t\":{}{}}}", esc(&val), ti, nm)
            }
            Ok(ConstValue::Scalar(Scalar::Ptr(p, _))) => {
                let (prov, _) = p.into_raw_parts();
                match self.tcx.global_alloc(prov.alloc_id()) {
                    GlobalAlloc::Static(d) => {
                        format!("{{\"k\":\"static\",\"p\":{},\"t\":{}{}}}", esc(&self.path(d)), ti, nm)
                    }
                    GlobalAlloc::Memory(m) => {
                        let is_u8 = |t: Ty<'tcx>| matches!(t.kind(), ty::Array(e, _) | ty::Slice(e) if matches!(e.kind(), ty::Uint(ty::UintTy::U8)));
                        let bytes = match t.kind() {
                            ty::Ref(_, inner, _) | ty::RawPtr(inner, _) => is_u8(*inner),
                            _ => false,
                        };
                        if bytes {
                            let a = m.inner();
                            let b = a.inspect_with_uninit_and_ptr_outside_interpreter(0..a.len());
                            format!("{{\"k\":\"bytes\",\"v\":{:?},\"t\":{}{}}}", b, ti, nm)
                        } else {
                            format!("{{\"k\":\"ptr\",\"t\":{}{}}}", ti, nm)
                        }
                    }
                    _ => format!("{{\"k\":\"ptr\",\"t\":{}{}}}", ti, nm),
                }
            }
            Ok(ConstValue::ZeroSized) => format!("{{\"k\":\"zst\",\"t\":{}{}}}", ti, nm),
            Ok(ConstValue::Slice { alloc_id, meta }) => match self.str_of_alloc(alloc_id, Some(meta)) {
                Some(s) => format!("{{\"k\":\"str\",\"v\":{},\"t\":{}{}}}", esc(&s), ti, nm),
                None => format!("{{\"k\":\"slice\",\"t\":{}{}}}", ti, nm),
            },
            Ok(ConstValue::Indirect { .. }) => {
                let s = match t.kind() {
                    ty::Ref(_, inner, _) if inner.is_str() => v
                        .ok()
                        .and_then(|v| v.try_get_slice_bytes_for_diagnostics(self.tcx))
                        .and_then(|b| String::from_utf8(b.to_vec()).ok()),
                    _ => None,
                };
                match s {
                    Some(s) => format!("{{\"k\":\"str\",\"v\":{},\"t\":{}{}}}", esc(&s), ti, nm),
                    None => format!("{{\"k\":\"mem\",\"t\":{}{}}}", ti, nm),
                }
            }
            Err(_) => format!("{{\"k\":\"unk\",\"t\":{}{}}}", ti, nm),
        };
        out
    }

    fn operand(&mut self, o: &Operand<'tcx>, body: &Body<'tcx>, env: TypingEnv<'tcx>) -> String {
        match o {
            Operand::Copy(p) => format!("{{\"k\":\"copy\",\"pl\":{}}}", self.place(p, body)),
            Operand::Move(p) => format!("{{\"k\":\"move\",\"pl\":{}}}", self.place(p, body)),
            Operand::Constant(c) => self.constant(c, env),
            _ => "{\"k\":\"rt\"}".to_string(),
        }
    }

    fn rvalue(&mut self, r: &Rvalue<'tcx>, body: &Body<'tcx>, env: TypingEnv<'tcx>) -> String {
        match r {
            Rvalue::Use(o, _) => format!("{{\"k\":\"use\",\"o\":{}}}", self.operand(o, body, env)),
            Rvalue::Repeat(o, _) => {
                format!("{{\"k\":\"repeat\",\"o\":{}}}", self.operand(o, body, env))
            }
            Rvalue::Ref(_, bk, p) => format!(
                "{{\"k\":\"ref\",\"m\":{},\"fake\":{},\"pl\":{}}}",
                matches!(bk, BorrowKind::Mut { .. }),
                matches!(bk, BorrowKind::Fake(_)),
                self.place(p, body)
            ),
            Rvalue::Reborrow(_, m, p) => format!(
                "{{\"k\":\"ref\",\"m\":{},\"fake\":false,\"pl\":{}}}",
                m.is_mut(),
                self.place(p, body)
            ),
            Rvalue::RawPtr(_, p) => {
                format!("{{\"k\":\"ref\",\"m\":true,\"fake\":false,\"pl\":{}}}", self.place(p, body))
            }
            Rvalue::Cast(k, o, t) => {
                let ti = self.ty(*t);
                format!(
                    "{{\"k\":\"cast\",\"c\":{},\"o\":{},\"t\":{}}}",
                    esc(&format!("{:?}", k)),
                    self.operand(o, body, env),
                    ti
                )
            }
            Rvalue::BinaryOp(op, b) => format!(
                "{{\"k\":\"bin\",\"op\":\"{:?}\",\"a\":{},\"b\":{}}}",
                op,
                self.operand(&b.0, body, env),
                self.operand(&b.1, body, env)
            ),
            Rvalue::UnaryOp(op, o) => {
                format!("{{\"k\":\"un\",\"op\":\"{:?}\",\"o\":{}}}", op, self.operand(o, body, env))
            }
            Rvalue::Discriminant(p) => format!("{{\"k\":\"discr\",\"pl\":{}}}", self.place(p, body)),
            Rvalue::Aggregate(k, ops) => {
                let os: Vec<String> = ops.iter().map(|o| self.operand(o, body, env)).collect();
                let os = os.join(",");
                match &**k {
                    AggregateKind::Array(_) => format!("{{\"k\":\"agg\",\"a\":\"array\",\"ops\":[{}]}}", os),
                    AggregateKind::Tuple => format!("{{\"k\":\"agg\",\"a\":\"tuple\",\"ops\":[{}]}}", os),
                    AggregateKind::Adt(d, v, _, _, _) => {
                        self.adt(*d);
                        let def = self.tcx.adt_def(*d);
                        let vd = def.variant(*v);
                        let names: Vec<String> =
                            vd.fields.iter().map(|f| esc(f.name.as_str())).collect();
                        format!(
                            "{{\"k\":\"agg\",\"a\":\"adt\",\"p\":{},\"v\":{},\"vi\":{},\"fn\":[{}],\"ops\":[{}]}}",
                            esc(&self.path(*d)),
                            esc(vd.name.as_str()),
                            v.as_usize(),
                            names.join(","),
                            os
                        )
                    }
                    AggregateKind::Closure(d, _) | AggregateKind::CoroutineClosure(d, _) => format!(
                        "{{\"k\":\"agg\",\"a\":\"closure\",\"p\":{},\"ops\":[{}]}}",
                        esc(&self.path(*d)),
                        os
                    ),
                    AggregateKind::Coroutine(d, _) => format!(
                        "{{\"k\":\"agg\",\"a\":\"coroutine\",\"p\":{},\"ops\":[{}]}}",
                        esc(&self.path(*d)),
                        os
                    ),
                    AggregateKind::RawPtr(..) => format!("{{\"k\":\"agg\",\"a\":\"rawptr\",\"ops\":[{}]}}", os),
                }
            }
            Rvalue::CopyForDeref(p) => {
                format!("{{\"k\":\"use\",\"o\":{{\"k\":\"copy\",\"pl\":{}}}}}", self.place(p, body))
            }
            _ => "{\"k\":\"other\"}".to_string(),
        }
    }

    fn body(&mut self, key: &str, kind: &str, owner: LocalDefId, body: &Body<'tcx>) -> String {
        let env = TypingEnv::post_analysis(self.tcx, owner);
        let mut names: HashMap<usize, String> = HashMap::new();
        let mut upvars: Vec<String> = vec![];
        for v in &body.var_debug_info {
            if let VarDebugInfoContents::Place(p) = &v.value {
                if p.projection.is_empty() {
                    names.insert(p.local.as_usize(), v.name.to_string());
                } else if p.local.as_usize() == 1 {
                    upvars.push(format!("[{},{}]", esc(v.name.as_str()), self.place(p, body)));
                }
            }
        }
        let mut locals = vec![];
        for (i, l) in body.local_decls.iter_enumerated() {
            let t = self.ty(l.ty);
            let n = names.get(&i.as_usize()).cloned().unwrap_or_default();
            locals.push(format!("[{},{}]", t, esc(&n)));
        }
        let mut blocks = vec![];
        for (_, bb) in body.basic_blocks.iter_enumerated() {
            let mut st = vec![];
            for s in &bb.statements {
                match &s.kind {
                    StatementKind::Assign(b) => {
                        let pl = self.place(&b.0, body);
                        let rv = self.rvalue(&b.1, body, env);
                        let sp = self.span(s.source_info.span);
                        st.push(format!("{{\"l\":{},\"r\":{},\"s\":{}}}", pl, rv, sp));
                    }
                    StatementKind::SetDiscriminant { place, variant_index } => {
                        let pl = self.place(place, body);
                        st.push(format!("{{\"setd\":{},\"v\":{}}}", pl, variant_index.as_usize()));
                    }
                    _ => {}
                }
            }
            let term = bb.terminator();
            let sp = self.span(term.source_info.span);
            let t = match &term.kind {
                TerminatorKind::Goto { target, .. } => {
                    format!("{{\"k\":\"goto\",\"t\":{}}}", target.as_usize())
                }
                TerminatorKind::SwitchInt { discr, targets } => {
                    let d = self.operand(discr, body, env);
                    let dty = discr.ty(body, self.tcx);
                    let ti = self.ty(dty);
                    let ts: Vec<String> = targets
                        .iter()
                        .map(|(v, b)| format!("[\"{}\",{}]", v, b.as_usize()))
                        .collect();
                    format!(
                        "{{\"k\":\"switch\",\"d\":{},\"t\":[{}],\"o\":{},\"ty\":{}}}",
                        d,
                        ts.join(","),
                        targets.otherwise().as_usize(),
                        ti
                    )
                }
                TerminatorKind::Return => "{\"k\":\"return\"}".to_string(),
                TerminatorKind::Unreachable => "{\"k\":\"unreachable\"}".to_string(),
                TerminatorKind::Drop { place, target, .. } => {
                    let p = self.place(place, body);
                    let ti = {
                        let t = place.ty(body, self.tcx).ty;
                        self.ty(t)
                    };
                    format!("{{\"k\":\"drop\",\"pl\":{},\"t\":{},\"ty\":{}}}", p, target.as_usize(), ti)
                }
                TerminatorKind::Call { func, args, destination, target, fn_span, .. } => {
                    let f = self.operand(func, body, env);
                    let a: Vec<String> =
                        args.iter().map(|a| self.operand(&a.node, body, env)).collect();
                    let d = self.place(destination, body);
                    let fs = self.span(*fn_span);
                    let dt = {
                        let t = destination.ty(body, self.tcx).ty;
                        self.ty(t)
                    };
                    format!(
                        "{{\"k\":\"call\",\"f\":{},\"args\":[{}],\"d\":{},\"dt\":{},\"t\":{},\"fs\":{}}}",
                        f,
                        a.join(","),
                        d,
                        dt,
                        target.map(|t| t.as_usize() as i64).unwrap_or(-1),
                        fs
                    )
                }
                TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                    let c = self.operand(cond, body, env);
                    let (mk, ops): (String, Vec<String>) = match &**msg {
                        AssertKind::BoundsCheck { len, index } => (
                            "bounds".into(),
                            vec![self.operand(len, body, env), self.operand(index, body, env)],
                        ),
                        AssertKind::Overflow(op, a, b) => (
                            format!("overflow:{:?}", op),
                            vec![self.operand(a, body, env), self.operand(b, body, env)],
                        ),
                        AssertKind::OverflowNeg(a) => {
                            ("overflow:Neg".into(), vec![self.operand(a, body, env)])
                        }
                        AssertKind::DivisionByZero(a) => {
                            ("divzero".into(), vec![self.operand(a, body, env)])
                        }
                        AssertKind::RemainderByZero(a) => {
                            ("remzero".into(), vec![self.operand(a, body, env)])
                        }
                        _ => ("other".into(), vec![]),
                    };
                    format!(
                        "{{\"k\":\"assert\",\"c\":{},\"e\":{},\"m\":\"{}\",\"ops\":[{}],\"t\":{}}}",
                        c,
                        expected,
                        mk,
                        ops.join(","),
                        target.as_usize()
                    )
                }
                TerminatorKind::Yield { value, resume, .. } => {
                    let v = self.operand(value, body, env);
                    format!("{{\"k\":\"yield\",\"v\":{},\"t\":{}}}", v, resume.as_usize())
                }
                TerminatorKind::FalseEdge { real_target, .. } => {
                    format!("{{\"k\":\"goto\",\"t\":{}}}", real_target.as_usize())
                }
                TerminatorKind::FalseUnwind { real_target, .. } => {
                    format!("{{\"k\":\"goto\",\"t\":{}}}", real_target.as_usize())
                }
                TerminatorKind::UnwindResume
                | TerminatorKind::UnwindTerminate(_)
                | TerminatorKind::CoroutineDrop => "{\"k\":\"unwind\"}".to_string(),
                _ => "{\"k\":\"other\"}".to_string(),
            };
            blocks.push(format!(
                "{{\"c\":{},\"st\":[{}],\"t\":{},\"s\":{}}}",
                bb.is_cleanup,
                st.join(","),
                t,
                sp
            ));
        }
        format!(
            "{{\"key\":{},\"kind\":\"{}\",\"argc\":{},\"span\":{},\"upvars\":[{}],\"locals\":[{}],\"blocks\":[{}]}}",
            esc(key),
            kind,
            body.arg_count,
            self.span(body.span),
            upvars.join(","),
            locals.join(","),
            blocks.join(",")
        )
    }
}

struct Cb;

impl Callbacks for Cb {
    fn config(&mut self, c: &mut interface::Config) {
        c.opts.unstable_opts.mir_opt_level = Some(0);
    }
    fn after_expansion<'tcx>(&mut self, _c: &interface::Compiler, tcx: TyCtxt<'tcx>) -> Compilation {
        let out = match std::env::var("MIRFACTS_OUT") {
            Ok(o) => o,
            Err(_) => return Compilation::Continue,
        };
        // parent links first, then clone every body before anything can steal it
        let mut cloned = vec![];
        for &d in tcx.mir_keys(()).iter() {
            let kind = tcx.def_kind(d);
            if matches!(kind, DefKind::AnonConst | DefKind::GlobalAsm) {
                continue;
            }
            if matches!(kind, DefKind::Ctor(..)) {
                continue;
            }
            let (b, p) = tcx.mir_promoted(d);
            let b = b.borrow().clone();
            let p = p.borrow().clone();
            cloned.push((d, kind, b, p));
        }
        let mut du = Dumper {
            tcx,
            types: vec![],
            tymap: HashMap::new(),
            adts: HashMap::new(),
            adt_out: vec![],
        };
        let mut bodies = vec![];
        for (d, kind, b, promoted) in &cloned {
            let key = du.path(d.to_def_id());
            let k = match kind {
                DefKind::Fn => "fn",
                DefKind::AssocFn => "method",
                DefKind::Closure => {
                    if tcx.is_coroutine(d.to_def_id()) {
                        "coroutine"
                    } else {
                        "closure"
                    }
                }
                DefKind::Static { .. } => "static",
                _ => "const",
            };
            let j = du.body(&key, k, *d, b);
            // trait method this body implements, if any; parent; visibility; derive-expansion
            let did = d.to_def_id();
            let timpl = match kind {
                DefKind::AssocFn => tcx
                    .trait_item_of(did)
                    .map(|t| du.path(t))
                    .unwrap_or_default(),
                _ => String::new(),
            };
            let parent = tcx.opt_parent(did).map(|p| du.path(p)).unwrap_or_default();
            let exp = tcx.def_span(did).from_expansion();
            let auto = match kind {
                DefKind::AssocFn => tcx
                    .impl_of_assoc(did)
                    .map(|i| tcx.is_automatically_derived(i))
                    .unwrap_or(false),
                _ => false,
            };
            let vis = tcx.visibility(did).is_public();
            let mut j2 = j;
            j2.pop();
            let _ = write!(
                j2,
                ",\"trait\":{},\"parent\":{},\"exp\":{},\"derived\":{},\"pub\":{}}}",
                esc(&timpl),
                esc(&parent),
                exp,
                auto,
                vis
            );
            bodies.push(j2);
            for (i, pb) in promoted.iter_enumerated() {
                let k2 = format!("{}::promoted[{}]", key, i.as_usize());
                bodies.push(du.body(&k2, "promoted", *d, pb));
            }
        }
        // local ADTs that no body mentions
        for id in tcx.hir_crate_items(()).definitions() {
            if matches!(tcx.def_kind(id), DefKind::Struct | DefKind::Enum) {
                du.adt(id.to_def_id());
            }
        }
        let krate = tcx.crate_name(LOCAL_CRATE).to_string();
        let ctype = if tcx
            .crate_types()
            .iter()
            .any(|c| format!("{:?}", c).contains("Executable"))
        {
            "bin"
        } else {
            "lib"
        };
        let testcfg = tcx.sess.is_test_crate();
        let mut text = String::new();
        let _ = write!(
            text,
            "{{\"crate\":{},\"ctype\":\"{}\",\"test\":{},\n\"bodies\":[\n{}\n],\n\"adts\":[\n{}\n],\n\"types\":[\n{}\n]}}\n",
            esc(&krate),
            ctype,
            testcfg,
            bodies.join(",\n"),
            du.adt_out.join(",\n"),
            du.types.join(",\n")
        );
        let f = format!("{}/{}-{}{}.json", out, krate, ctype, if testcfg { "-test" } else { "" });
        std::fs::write(&f, text).expect("write facts");
        Compilation::Continue
    }
}

fn main() {
    let mut args: Vec<String> = std::env::args().collect();
    // RUSTC_WORKSPACE_WRAPPER: argv[1] is the real rustc
    if args.len() > 1 && (args[1].ends_with("rustc") || args[1].contains("/rustc")) {
        args.remove(1);
    }
    if args.iter().any(|a| a.starts_with("--print") || a == "-vV" || a == "-V") {
        // queries: behave as rustc
    }
    rustc_driver::install_ice_hook("mirfacts", |_| ());
    rustc_driver::compiler_entrypoint(&args, &mut Cb);
}

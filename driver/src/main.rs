//! rustc driver that writes the resolved MIR of every body of the workspace crate as JSON.
//! It is injected with RUSTC_WORKSPACE_WRAPPER; output goes to $MIRDUMP_OUT/<crate>-<type>.json.
#![feature(rustc_private)]
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_span;
extern crate rustc_abi;
extern crate rustc_ast;

use rustc_driver::{Callbacks, Compilation};
use rustc_hir::def::DefKind;
use rustc_hir::def_id::{DefId, LocalDefId};
use rustc_interface::interface::Compiler;
use rustc_middle::mir::{self, *};
use rustc_middle::ty::{self, print::with_no_trimmed_paths, Instance, Ty, TyCtxt, TyKind, TypingEnv};
use std::fmt::Write as _;

fn esc(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 32 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn arr(v: Vec<String>) -> String {
    format!("[{}]", v.join(","))
}
fn obj(v: Vec<(&str, String)>) -> String {
    format!("{{{}}}", v.into_iter().map(|(k, x)| format!("{}:{}", esc(k), x)).collect::<Vec<_>>().join(","))
}
fn tys(t: Ty<'_>) -> String {
    with_no_trimmed_paths!(t.to_string())
}

struct Cx<'tcx> {
    tcx: TyCtxt<'tcx>,
    body: &'tcx Body<'tcx>,
    def: DefId,
    env: TypingEnv<'tcx>,
}

fn key(tcx: TyCtxt<'_>, d: DefId) -> String {
    format!("{}{}", tcx.crate_name(d.krate), tcx.def_path(d).to_string_no_crate_verbose())
}
fn path(tcx: TyCtxt<'_>, d: DefId) -> String {
    with_no_trimmed_paths!(tcx.def_path_str(d))
}
fn span(tcx: TyCtxt<'_>, sp: rustc_span::Span) -> String {
    let exp = sp.from_expansion();
    let sp0 = sp.source_callsite();
    let lo = tcx.sess.source_map().lookup_char_pos(sp0.lo());
    let f = lo.file.name.prefer_local_unconditionally().to_string();
    arr(vec![esc(&f), lo.line.to_string(), if exp { "1".into() } else { "0".into() }])
}

impl<'tcx> Cx<'tcx> {
    fn fndef(&self, d: DefId, args: ty::GenericArgsRef<'tcx>) -> String {
        let tcx = self.tcx;
        let mut o = vec![
            ("path", esc(&path(tcx, d))),
            ("key", esc(&key(tcx, d))),
            ("local", d.is_local().to_string()),
            ("args", arr(args.iter().filter(|a| a.as_region().is_none()).map(|a| esc(&with_no_trimmed_paths!(a.to_string()))).collect())),
        ];
        if let Some(ai) = tcx.opt_associated_item(d) {
            o.push(("name", esc(ai.name().as_str())));
            if let Some(tr) = tcx.trait_of_assoc(d) {
                o.push(("trait", esc(&path(tcx, tr))));
                o.push(("self_ty", esc(&tys(args.type_at(0)))));
            } else if let Some(im) = tcx.impl_of_assoc(d) {
                o.push(("self_ty", esc(&tys(tcx.type_of(im).instantiate_identity().skip_normalization()))));
                if let Some(t) = tcx.impl_opt_trait_ref(im) {
                    o.push(("trait", esc(&path(tcx, t.skip_binder().def_id))));
                }
            }
        } else {
            o.push(("name", esc(tcx.item_name(d).as_str())));
        }
        let args2 = tcx.erase_and_anonymize_regions(args);
        if let Ok(Some(inst)) = Instance::try_resolve(tcx, self.env, d, args2) {
            let rd = inst.def_id();
            let mut r = vec![
                ("path", esc(&path(tcx, rd))),
                ("key", esc(&key(tcx, rd))),
                ("local", rd.is_local().to_string()),
                ("shim", esc(match inst.def { ty::InstanceKind::Item(_) => "item", ty::InstanceKind::Virtual(..) => "virtual", _ => "shim" })),
            ];
            r.push(("args", arr(inst.args.iter().filter(|a| a.as_region().is_none()).map(|a| esc(&with_no_trimmed_paths!(a.to_string()))).collect())));
            if let Some(im) = tcx.impl_of_assoc(rd) {
                r.push(("self_ty", esc(&tys(tcx.type_of(im).instantiate_identity().skip_normalization()))));
            }
            o.push(("resolved", obj(r)));
        }
        obj(o)
    }
    fn constant(&self, c: &ConstOperand<'tcx>) -> String {
        let tcx = self.tcx;
        let t = c.const_.ty();
        let mut o = vec![("ty", esc(&tys(t)))];
        match t.kind() {
            TyKind::FnDef(d, a) => {
                o.push(("fn", self.fndef(*d, a.skip_binder())));
            }
            TyKind::Closure(d, _) => {
                o.push(("closure", esc(&key(tcx, *d))));
            }
            _ => {}
        }
        if let mir::Const::Unevaluated(u, _) = c.const_ {
            o.push(("def", esc(&path(tcx, u.def))));
            if let Some(p) = u.promoted {
                o.push(("promoted", p.index().to_string()));
            }
            o.push(("cargs", arr(u.args.iter().filter(|a| a.as_region().is_none()).map(|a| esc(&with_no_trimmed_paths!(a.to_string()))).collect())));
        }
        if let Some(s) = c.const_.try_eval_scalar_int(tcx, self.env) {
            let sz = s.size();
            let v = match t.kind() {
                TyKind::Int(_) => s.to_int(sz).to_string(),
                TyKind::Float(ty::FloatTy::F32) => esc(&f32::from_bits(s.to_bits(sz) as u32).to_string()),
                TyKind::Float(ty::FloatTy::F64) => esc(&f64::from_bits(s.to_bits(sz) as u64).to_string()),
                TyKind::Bool => if s.to_bits(sz) == 0 { "false".into() } else { "true".into() },
                _ => s.to_bits(sz).to_string(),
            };
            o.push(("val", v));
        } else if let mir::Const::Val(v, ty) = c.const_ {
            let sl = match ty.kind() {
                TyKind::Ref(_, inner, _) if inner.is_str() => v.try_get_slice_bytes_for_diagnostics(tcx),
                _ => None,
            };
            if let Some(b) = sl {
                o.push(("str", esc(&String::from_utf8_lossy(b))));
            }
        }
        o.push(("repr", esc(&with_no_trimmed_paths!(c.const_.to_string()))));
        obj(o)
    }
    fn place(&self, p: &Place<'tcx>) -> String {
        let tcx = self.tcx;
        let mut pt = mir::PlaceTy::from_ty(self.body.local_decls[p.local].ty);
        let mut pr = vec![];
        for e in p.projection.iter() {
            let s = match e {
                ProjectionElem::Deref => "\"*\"".to_string(),
                ProjectionElem::Field(f, _) => {
                    let nm = match pt.ty.kind() {
                        TyKind::Adt(adt, _) => {
                            let v = match pt.variant_index {
                                Some(v) => adt.variant(v),
                                None => if adt.is_enum() { adt.variant(rustc_abi::VariantIdx::from_u32(0)) } else { adt.non_enum_variant() },
                            };
                            v.fields[f].name.to_string()
                        }
                        TyKind::Closure(d, _) | TyKind::Coroutine(d, _) => {
                            if pt.variant_index.is_none() {
                                tcx.closure_saved_names_of_captured_variables(*d).iter().nth(f.index()).map(|s| s.to_string()).unwrap_or_else(|| f.index().to_string())
                            } else { f.index().to_string() }
                        }
                        _ => f.index().to_string(),
                    };
                    let mut fo = vec![("f", esc(&nm)), ("i", f.index().to_string())];
                    if let TyKind::Adt(adt, _) = pt.ty.kind() {
                        if adt.did().is_local() { fo.push(("o", esc(&path(tcx, adt.did())))); }
                    }
                    obj(fo)
                }
                ProjectionElem::Index(l) => obj(vec![("ix", l.index().to_string())]),
                ProjectionElem::ConstantIndex { offset, from_end, .. } => obj(vec![("ci", offset.to_string()), ("end", from_end.to_string())]),
                ProjectionElem::Subslice { from, to, from_end } => obj(vec![("sub", arr(vec![from.to_string(), to.to_string(), from_end.to_string()]))]),
                ProjectionElem::Downcast(n, vi) => obj(vec![("dc", esc(&n.map(|s| s.to_string()).unwrap_or_else(|| vi.index().to_string())))]),
                ProjectionElem::OpaqueCast(_) => obj(vec![("op", "1".into())]),
                _ => obj(vec![("unk", esc(&format!("{:?}", e)))]),
            };
            pr.push(s);
            pt = pt.projection_ty(tcx, e);
        }
        obj(vec![("l", p.local.index().to_string()), ("p", arr(pr))])
    }
    fn operand(&self, o: &Operand<'tcx>) -> String {
        match o {
            Operand::Copy(p) => obj(vec![("cp", self.place(p))]),
            Operand::Move(p) => obj(vec![("mv", self.place(p))]),
            Operand::Constant(c) => obj(vec![("c", self.constant(c))]),
            #[allow(unreachable_patterns)]
            _ => obj(vec![("unk", esc(&format!("{:?}", o)))]),
        }
    }
    fn rvalue(&self, r: &Rvalue<'tcx>) -> String {
        let tcx = self.tcx;
        match r {
            Rvalue::Use(o, ..) => obj(vec![("k", esc("use")), ("a", self.operand(o))]),
            Rvalue::Repeat(o, n) => obj(vec![("k", esc("repeat")), ("a", self.operand(o)), ("n", esc(&n.to_string()))]),
            Rvalue::Ref(_, bk, p) => obj(vec![("k", esc("ref")), ("mut", matches!(bk, BorrowKind::Mut { .. }).to_string()), ("pl", self.place(p))]),
            Rvalue::RawPtr(_, p) => obj(vec![("k", esc("ref")), ("raw", "true".into()), ("mut", "true".into()), ("pl", self.place(p))]),
            Rvalue::Cast(ck, o, t) => obj(vec![("k", esc("cast")), ("ck", esc(&format!("{:?}", ck))), ("a", self.operand(o)), ("ty", esc(&tys(*t)))]),
            Rvalue::BinaryOp(op, bx) => obj(vec![("k", esc("bin")), ("op", esc(&format!("{:?}", op))), ("a", self.operand(&bx.0)), ("b", self.operand(&bx.1)), ("ty", esc(&tys(bx.0.ty(self.body, tcx))))]),
            Rvalue::UnaryOp(op, a) => obj(vec![("k", esc("un")), ("op", esc(&format!("{:?}", op))), ("a", self.operand(a))]),
            Rvalue::Discriminant(p) => {
                let t = p.ty(self.body, tcx).ty;
                let mut vs = vec![];
                if let TyKind::Adt(adt, _) = t.kind() {
                    if adt.is_enum() {
                        for (vi, d) in adt.discriminants(tcx) {
                            vs.push(arr(vec![esc(adt.variant(vi).name.as_str()), esc(&d.val.to_string())]));
                        }
                    }
                }
                obj(vec![("k", esc("discr")), ("pl", self.place(p)), ("vars", arr(vs))])
            }
            Rvalue::Aggregate(ak, ops) => {
                let ov: Vec<String> = ops.iter().map(|o| self.operand(o)).collect();
                let mut o = vec![("k", esc("agg"))];
                match &**ak {
                    AggregateKind::Array(_) => o.push(("ak", esc("array"))),
                    AggregateKind::Tuple => o.push(("ak", esc("tuple"))),
                    AggregateKind::Adt(d, v, _, _, af) => {
                        let adt = tcx.adt_def(*d);
                        let va = adt.variant(*v);
                        o.push(("ak", esc("adt")));
                        o.push(("adt", esc(&path(tcx, *d))));
                        o.push(("var", esc(va.name.as_str())));
                        o.push(("enum", adt.is_enum().to_string()));
                        let names: Vec<String> = match af {
                            Some(f) => vec![esc(va.fields[*f].name.as_str())],
                            None => va.fields.iter().map(|f| esc(f.name.as_str())).collect(),
                        };
                        o.push(("fn", arr(names)));
                    }
                    AggregateKind::Closure(d, _) | AggregateKind::Coroutine(d, _) | AggregateKind::CoroutineClosure(d, _) => {
                        o.push(("ak", esc(if matches!(&**ak, AggregateKind::Closure(..)) { "closure" } else { "coroutine" })));
                        o.push(("key", esc(&key(tcx, *d))));
                        o.push(("fn", arr(tcx.closure_saved_names_of_captured_variables(*d).iter().map(|s| esc(s.as_str())).collect())));
                    }
                    AggregateKind::RawPtr(..) => o.push(("ak", esc("rawptr"))),
                }
                o.push(("ops", arr(ov)));
                obj(o)
            }
            #[allow(unreachable_patterns)]
            Rvalue::CopyForDeref(p) => obj(vec![("k", esc("use")), ("a", obj(vec![("cp", self.place(p))]))]),
            _ => obj(vec![("k", esc("unk")), ("s", esc(&format!("{:?}", r)))]),
        }
    }
    fn stmt(&self, s: &Statement<'tcx>) -> Option<String> {
        let sp = span(self.tcx, s.source_info.span);
        match &s.kind {
            StatementKind::Assign(bx) => Some(obj(vec![("d", self.place(&bx.0)), ("r", self.rvalue(&bx.1)), ("sp", sp)])),
            StatementKind::SetDiscriminant { place, variant_index } => Some(obj(vec![("d", self.place(place)), ("setd", variant_index.index().to_string()), ("sp", sp)])),
            StatementKind::Intrinsic(i) => Some(obj(vec![("intr", esc(&format!("{:?}", i)))])),
            _ => None,
        }
    }
    fn term(&self, t: &Terminator<'tcx>) -> String {
        let sp = span(self.tcx, t.source_info.span);
        let n = |b: &BasicBlock| b.index().to_string();
        let mut o: Vec<(&str, String)> = match &t.kind {
            TerminatorKind::Goto { target, .. } => vec![("k", esc("goto")), ("t", n(target))],
            TerminatorKind::SwitchInt { discr, targets } => vec![
                ("k", esc("switch")),
                ("a", self.operand(discr)),
                ("ty", esc(&tys(discr.ty(self.body, self.tcx)))),
                ("cases", arr(targets.iter().map(|(v, b)| arr(vec![esc(&v.to_string()), n(&b)])).collect())),
                ("else", n(&targets.otherwise())),
            ],
            TerminatorKind::Return => vec![("k", esc("return"))],
            TerminatorKind::Unreachable => vec![("k", esc("unreachable"))],
            TerminatorKind::Drop { place, target, .. } => vec![("k", esc("drop")), ("pl", self.place(place)), ("ty", esc(&tys(place.ty(self.body, self.tcx).ty))), ("t", n(target))],
            TerminatorKind::Call { func, args, destination, target, .. } => {
                let mut v = vec![("k", esc("call")), ("args", arr(args.iter().map(|a| self.operand(&a.node)).collect())), ("argty", arr(args.iter().map(|a| esc(&tys(a.node.ty(self.body, self.tcx)))).collect())), ("d", self.place(destination)), ("dty", esc(&tys(destination.ty(self.body, self.tcx).ty)))];
                let ft = func.ty(self.body, self.tcx);
                if let TyKind::FnDef(d, a) = ft.kind() {
                    v.push(("fn", self.fndef(*d, a.skip_binder())));
                } else {
                    v.push(("fop", self.operand(func)));
                }
                if let Some(t) = target {
                    v.push(("t", n(t)));
                }
                v
            }
            TerminatorKind::Assert { cond, expected, msg, target, .. } => vec![("k", esc("assert")), ("a", self.operand(cond)), ("exp", expected.to_string()), ("msg", esc(&format!("{:?}", msg).chars().take(60).collect::<String>())), ("t", n(target))],
            TerminatorKind::Yield { value, resume, resume_arg, .. } => vec![("k", esc("yield")), ("a", self.operand(value)), ("t", n(resume)), ("d", self.place(resume_arg))],
            TerminatorKind::FalseEdge { real_target, .. } => vec![("k", esc("goto")), ("t", n(real_target))],
            TerminatorKind::FalseUnwind { real_target, .. } => vec![("k", esc("goto")), ("t", n(real_target))],
            TerminatorKind::CoroutineDrop | TerminatorKind::UnwindResume | TerminatorKind::UnwindTerminate(_) => vec![("k", esc("unreachable"))],
            _ => vec![("k", esc("unk")), ("s", esc(&format!("{:?}", t.kind)))],
        };
        o.push(("sp", sp));
        obj(o)
    }
}

fn dump_body<'tcx>(tcx: TyCtxt<'tcx>, ld: LocalDefId, body: &'tcx Body<'tcx>, promoted: Option<usize>) -> String {
    let d = ld.to_def_id();
    let cx = Cx { tcx, body, def: d, env: TypingEnv::post_analysis(tcx, tcx.typeck_root_def_id(d)) };
    let _ = cx.def;
    let mut names: Vec<Option<String>> = vec![None; body.local_decls.len()];
    for v in &body.var_debug_info {
        if let VarDebugInfoContents::Place(p) = v.value {
            if p.projection.is_empty() {
                names[p.local.index()] = Some(v.name.to_string());
            }
        }
    }
    let locals: Vec<String> = body.local_decls.iter_enumerated().map(|(i, l)| arr(vec![esc(&tys(l.ty)), names[i.index()].as_ref().map(|s| esc(s)).unwrap_or("null".into())])).collect();
    let blocks: Vec<String> = body
        .basic_blocks
        .iter()
        .map(|b| {
            if b.is_cleanup {
                "null".to_string()
            } else {
                obj(vec![("s", arr(b.statements.iter().filter_map(|s| cx.stmt(s)).collect())), ("t", cx.term(b.terminator()))])
            }
        })
        .collect();
    let dk = tcx.def_kind(d);
    let mut o = vec![
        ("key", esc(&match promoted { Some(p) => format!("{}::promoted[{}]", key(tcx, d), p), None => key(tcx, d) })),
        ("path", esc(&path(tcx, d))),
        ("kind", esc(&format!("{:?}", dk))),
        ("span", span(tcx, body.span)),
        ("argc", body.arg_count.to_string()),
        ("locals", arr(locals)),
        ("blocks", arr(blocks)),
    ];
    if let Some(ai) = tcx.opt_associated_item(d) {
        o.push(("name", esc(ai.name().as_str())));
        if let Some(im) = tcx.impl_of_assoc(d) {
            o.push(("self_ty", esc(&tys(tcx.type_of(im).instantiate_identity().skip_normalization()))));
            if let Some(t) = tcx.impl_opt_trait_ref(im) {
                let t = t.skip_binder();
                o.push(("trait", esc(&path(tcx, t.def_id))));
                o.push(("trait_args", arr(t.args.iter().filter(|a| a.as_region().is_none()).map(|a| esc(&with_no_trimmed_paths!(a.to_string()))).collect())));
            }
            o.push(("derived", tcx.is_automatically_derived(im).to_string()));
        } else if let Some(tr) = tcx.trait_of_assoc(d) {
            o.push(("trait_default", esc(&path(tcx, tr))));
        }
    } else if dk != DefKind::Closure {
        if let Some(n) = tcx.opt_item_name(d) { o.push(("name", esc(n.as_str()))); }
    }
    if dk == DefKind::Closure {
        o.push(("parent", esc(&key(tcx, tcx.local_parent(ld).to_def_id()))));
        o.push(("upvars", arr(tcx.closure_saved_names_of_captured_variables(d).iter().map(|s| esc(s.as_str())).collect())));
    }
    {
        let root = tcx.typeck_root_def_id(d);
        let ids = ty::GenericArgs::identity_for_item(tcx, root);
        o.push(("generics", arr(ids.iter().filter(|a| a.as_region().is_none()).map(|a| esc(&with_no_trimmed_paths!(a.to_string()))).collect())));
    }
    o.push(("ret", esc(&tys(body.local_decls[RETURN_PLACE].ty))));
    o.push(("vis", esc(&format!("{:?}", tcx.visibility(tcx.typeck_root_def_id(d))))));
    obj(o)
}

struct Cb;
impl Callbacks for Cb {
    fn after_expansion<'tcx>(&mut self, _c: &Compiler, tcx: TyCtxt<'tcx>) -> Compilation {
        let Ok(dir) = std::env::var("MIRDUMP_OUT") else { return Compilation::Continue };
        let mut bodies = vec![];
        let mut skipped: Vec<String> = vec![];
        let mut owners: Vec<LocalDefId> = tcx.hir_body_owners().collect();
        // Coroutines first: anything that asks for their layout steals the body we want.
        owners.sort_by_key(|d| !(tcx.def_kind(*d) == DefKind::Closure && tcx.is_coroutine(d.to_def_id())));
        let mut early = std::collections::HashMap::new();
        for ld in &owners {
            if tcx.def_kind(*ld) == DefKind::Closure && tcx.is_coroutine(ld.to_def_id()) {
                let (b, _) = tcx.mir_promoted(*ld);
                if !b.is_stolen() {
                    let owned: Body<'tcx> = b.borrow().clone();
                    let leaked: &'tcx Body<'tcx> = tcx.arena.alloc(owned);
                    early.insert(*ld, leaked);
                }
            }
        }
        for ld in owners {
            let dk = tcx.def_kind(ld);
            match dk {
                DefKind::Fn | DefKind::AssocFn | DefKind::Closure => {
                    // Body before the coroutine state transform, after drop elaboration.
                    let b = tcx.mir_drops_elaborated_and_const_checked(ld);
                    if let Some(b) = early.get(&ld) {
                        bodies.push(dump_body(tcx, ld, b, None));
                    } else if b.is_stolen() {
                        let b = tcx.optimized_mir(ld.to_def_id());
                        bodies.push(dump_body(tcx, ld, b, None));
                        skipped.push(esc(&format!("stolen:{}", key(tcx, ld.to_def_id()))));
                    } else {
                        let owned: Body<'tcx> = b.borrow().clone();
                        let leaked: &'tcx Body<'tcx> = tcx.arena.alloc(owned);
                        bodies.push(dump_body(tcx, ld, leaked, None));
                    }
                    let (_, pr) = tcx.mir_promoted(ld);
                    if !pr.is_stolen() {
                        let pv = pr.borrow().clone();
                        for (i, p) in pv.into_iter_enumerated() {
                            let leaked: &'tcx Body<'tcx> = tcx.arena.alloc(p);
                            bodies.push(dump_body(tcx, ld, leaked, Some(i.index())));
                        }
                    } else {
                        let pv = tcx.promoted_mir(ld.to_def_id());
                        for (i, p) in pv.iter_enumerated() {
                            bodies.push(dump_body(tcx, ld, p, Some(i.index())));
                        }
                    }
                }
                _ => {}
            }
        }
        let mut adts = vec![];
        let mut impls = vec![];
        for id in tcx.hir_crate_items(()).definitions() {
            let d = id.to_def_id();
            match tcx.def_kind(d) {
                DefKind::Struct | DefKind::Enum => {
                    let adt = tcx.adt_def(d);
                    let vs: Vec<String> = adt.variants().iter().map(|v| {
                        obj(vec![("name", esc(v.name.as_str())), ("fields", arr(v.fields.iter().map(|f| arr(vec![esc(f.name.as_str()), esc(&tys(tcx.type_of(f.did).instantiate_identity().skip_normalization()))])).collect()))])
                    }).collect();
                    adts.push(obj(vec![("path", esc(&path(tcx, d))), ("enum", adt.is_enum().to_string()), ("vars", arr(vs)), ("span", span(tcx, tcx.def_span(d)))]));
                }
                DefKind::Impl { .. } => {
                    let mut o = vec![("self_ty", esc(&tys(tcx.type_of(d).instantiate_identity().skip_normalization()))), ("span", span(tcx, tcx.def_span(d))), ("derived", tcx.is_automatically_derived(d).to_string())];
                    if let Some(t) = tcx.impl_opt_trait_ref(d) {
                        let t = t.skip_binder();
                        o.push(("trait", esc(&path(tcx, t.def_id))));
                        o.push(("trait_args", arr(t.args.iter().filter(|a| a.as_region().is_none()).map(|a| esc(&with_no_trimmed_paths!(a.to_string()))).collect())));
                    }
                    o.push(("items", arr(tcx.associated_item_def_ids(d).iter().map(|i| esc(&key(tcx, *i))).collect())));
                    impls.push(obj(o));
                }
                _ => {}
            }
        }
        let ct: Vec<String> = tcx.crate_types().iter().map(|c| format!("{:?}", c)).collect();
        let name = tcx.crate_name(rustc_hir::def_id::LOCAL_CRATE).to_string();
        let kind = if ct.iter().any(|c| c == "Executable") { "bin" } else { "lib" };
        let out = obj(vec![
            ("crate", esc(&name)),
            ("kind", esc(kind)),
            ("bodies", format!("[{}]", bodies.join(",\n"))),
            ("adts", format!("[{}]", adts.join(",\n"))),
            ("impls", format!("[{}]", impls.join(",\n"))),
            ("skipped", arr(skipped)),
        ]);
        std::fs::write(format!("{}/{}-{}.json", dir, name, kind), out).expect("write dump");
        Compilation::Continue
    }
}

fn main() {
    let mut args: Vec<String> = std::env::args().collect();
    // RUSTC_WORKSPACE_WRAPPER: argv[1] is the path of the real rustc.
    if args.len() > 1 && (args[1].ends_with("rustc") || args[1].contains("/rustc")) {
        args.remove(1);
    }
    args.push("-Zmir-opt-level=0".into());
    args.push("-Coverflow-checks=off".into());
    rustc_driver::compiler_entrypoint(&args, &mut Cb);
}

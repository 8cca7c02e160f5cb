// MIR extraction driver. Invoked by cargo as RUSTC_WORKSPACE_WRAPPER: argv = [self, rustc, args...].
// For every workspace library crate it writes the type-checked program (MIR as built from THIR, before
// borrow checking / drop elaboration), its items and its resolved callees as JSON into $SA_OUT.
#![feature(rustc_private)]
#![allow(clippy::all)]
extern crate rustc_abi;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_session;
extern crate rustc_span;

use rustc_driver::{Callbacks, Compilation};
use rustc_hir::def::DefKind;
use rustc_hir::def_id::DefId;
use rustc_middle::mir::*;
use rustc_middle::ty::{self, GenericArgKind, Ty, TyCtxt, TypingEnv};
use rustc_span::Span;
use std::fmt::Write as _;

struct J {
    s: String,
}
fn esc(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\t' => o.push_str("\\t"),
            '\r' => o.push_str("\\r"),
            c if (c as u32) < 0x20 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn arr(v: Vec<String>) -> String {
    let mut s = String::from("[");
    s.push_str(&v.join(","));
    s.push(']');
    s
}
fn obj(v: Vec<(&str, String)>) -> String {
    let mut s = String::from("{");
    let parts: Vec<String> = v.into_iter().map(|(k, x)| format!("{}:{}", esc(k), x)).collect();
    s.push_str(&parts.join(","));
    s.push('}');
    s
}

fn did(tcx: TyCtxt<'_>, d: DefId) -> String {
    format!("{}{}", tcx.crate_name(d.krate), tcx.def_path(d).to_string_no_crate_verbose())
}
fn pretty(tcx: TyCtxt<'_>, d: DefId) -> String {
    ty::print::with_no_trimmed_paths!(ty::print::with_resolve_crate_name!(tcx.def_path_str(d)))
}
fn span_json(tcx: TyCtxt<'_>, sp: Span) -> String {
    let sm = tcx.sess.source_map();
    let sp2 = sp.source_callsite();
    let lo = sm.lookup_char_pos(sp2.lo());
    let f = format!("{}", lo.file.name.prefer_local_unconditionally());
    format!("{}:{}", f, lo.line)
}

struct Cx<'tcx> {
    tcx: TyCtxt<'tcx>,
    env: TypingEnv<'tcx>,
}

impl<'tcx> Cx<'tcx> {
    fn gargs(&self, args: &[ty::GenericArg<'tcx>]) -> String {
        let mut v = vec![];
        for a in args {
            match a.kind() {
                GenericArgKind::Type(t) => v.push(self.ty(t)),
                GenericArgKind::Const(c) => v.push(obj(vec![("k", esc("const")), ("v", esc(&format!("{}", c)))])),
                GenericArgKind::Lifetime(_) => {}
                #[allow(unreachable_patterns)]
                _ => {}
            }
        }
        arr(v)
    }
    fn ty(&self, t: Ty<'tcx>) -> String {
        let tcx = self.tcx;
        match t.kind() {
            ty::Adt(def, args) => obj(vec![
                ("k", esc("adt")),
                ("p", esc(&pretty(tcx, def.did()))),
                ("a", self.gargs(args)),
            ]),
            ty::Param(p) => obj(vec![("k", esc("param")), ("n", esc(p.name.as_str()))]),
            ty::Ref(_, t, m) => obj(vec![
                ("k", esc("ref")),
                ("m", (if m.is_mut() { "true" } else { "false" }).to_string()),
                ("t", self.ty(*t)),
            ]),
            ty::RawPtr(t, _) => obj(vec![("k", esc("ptr")), ("t", self.ty(*t))]),
            ty::Slice(t) => obj(vec![("k", esc("slice")), ("t", self.ty(*t))]),
            ty::Array(t, n) => obj(vec![("k", esc("array")), ("t", self.ty(*t)), ("n", esc(&format!("{}", n)))]),
            ty::Tuple(ts) => obj(vec![("k", esc("tuple")), ("a", arr(ts.iter().map(|t| self.ty(t)).collect()))]),
            ty::Closure(d, args) => obj(vec![
                ("k", esc("closure")),
                ("d", esc(&did(tcx, (*d).into()))),
                ("a", self.gargs(args.as_closure().parent_args())),
            ]),
            ty::FnDef(d, args) => obj(vec![
                ("k", esc("fndef")),
                ("d", esc(&did(tcx, (*d).into()))),
                ("p", esc(&pretty(tcx, (*d).into()))),
                ("a", self.gargs(args.skip_binder())),
                ("f", self.callee((*d).into(), args.skip_binder())),
            ]),
            ty::Alias(_, al) => {
                let d: DefId = match al.kind {
                    ty::AliasTyKind::Projection { def_id } => def_id.into(),
                    ty::AliasTyKind::Inherent { def_id } => def_id.into(),
                    ty::AliasTyKind::Opaque { def_id } => def_id.into(),
                    ty::AliasTyKind::Free { def_id } => def_id.into(),
                };
                let assoc = tcx.opt_associated_item(d).is_some() && tcx.opt_parent(d).map_or(false, |p| tcx.def_kind(p) == DefKind::Trait);
                if assoc {
                    obj(vec![
                        ("k", esc("proj")),
                        ("t", esc(&pretty(tcx, tcx.parent(d)))),
                        ("n", esc(tcx.item_name(d).as_str())),
                        ("a", self.gargs(al.args)),
                    ])
                } else {
                    obj(vec![("k", esc("other")), ("s", esc(&format!("{}", t)))])
                }
            }
            ty::Bool | ty::Char | ty::Int(_) | ty::Uint(_) | ty::Float(_) | ty::Str | ty::Never => {
                obj(vec![("k", esc("prim")), ("n", esc(&format!("{}", t)))])
            }
            _ => obj(vec![("k", esc("other")), ("s", esc(&format!("{}", t)))]),
        }
    }

    fn callee(&self, d: DefId, args: &'tcx [ty::GenericArg<'tcx>]) -> String {
        let tcx = self.tcx;
        let mut v = vec![("d", esc(&did(tcx, d))), ("p", esc(&pretty(tcx, d))), ("a", self.gargs(args))];
        v.push(("n", esc(tcx.opt_item_name(d).map(|s| s.to_string()).unwrap_or_default().as_str())));
        v.push(("local", (if d.is_local() { "true" } else { "false" }).to_string()));
        if let Some(tr) = tcx.trait_of_assoc(d) {
            v.push(("trait", esc(&pretty(tcx, tr))));
        }
        if let Some(im) = tcx.inherent_impl_of_assoc(d) {
            let st = tcx.type_of(im).instantiate_identity().skip_norm_wip();
            v.push(("impl_self", self.ty(st)));
        }
        let gens = tcx.generics_of(d);
        let mut names = vec![];
        for i in 0..gens.count() {
            let p = gens.param_at(i, tcx);
            if !matches!(p.kind, ty::GenericParamDefKind::Lifetime) {
                names.push(esc(p.name.as_str()));
            }
        }
        v.push(("gn", arr(names)));
        // resolved target, if trait selection settles it in this body's own environment
        let ga = tcx.mk_args(args);
        if !ga.iter().any(|a| { use rustc_middle::ty::TypeVisitableExt; a.has_infer() || a.has_escaping_bound_vars() }) {
            let ga = tcx.erase_and_anonymize_regions(ga);
            if let Ok(Some(inst)) = ty::Instance::try_resolve(tcx, self.env, d, ga) {
                let rd = inst.def_id();
                if rd != d {
                    v.push(("r", esc(&did(tcx, rd))));
                    v.push(("rp", esc(&pretty(tcx, rd))));
                    v.push(("ra", self.gargs(inst.args)));
                }
            }
        }
        obj(v)
    }

    fn place(&self, p: &Place<'tcx>) -> String {
        let mut v = vec![];
        for e in p.projection.iter() {
            v.push(match e {
                ProjectionElem::Deref => arr(vec![esc("deref")]),
                ProjectionElem::Field(f, _) => arr(vec![esc("f"), f.index().to_string()]),
                ProjectionElem::Index(l) => arr(vec![esc("idx"), l.index().to_string()]),
                ProjectionElem::ConstantIndex { offset, from_end, .. } => {
                    arr(vec![esc("cidx"), offset.to_string(), from_end.to_string()])
                }
                ProjectionElem::Subslice { from, to, from_end } => {
                    arr(vec![esc("sub"), from.to_string(), to.to_string(), from_end.to_string()])
                }
                ProjectionElem::Downcast(n, i) => arr(vec![
                    esc("dc"),
                    i.index().to_string(),
                    esc(n.map(|s| s.to_string()).unwrap_or_default().as_str()),
                ]),
                o => arr(vec![esc("other"), esc(&format!("{:?}", o))]),
            });
        }
        arr(vec![p.local.index().to_string(), arr(v)])
    }

    fn operand(&self, o: &Operand<'tcx>) -> String {
        match o {
            Operand::Copy(p) => obj(vec![("c", self.place(p))]),
            Operand::Move(p) => obj(vec![("m", self.place(p))]),
            Operand::Constant(c) => {
                let t = c.const_.ty();
                let mut v = vec![("ty", self.ty(t))];
                if let ty::FnDef(d, args) = t.kind() {
                    v.push(("fn", self.callee((*d).into(), args.skip_binder())));
                } else {
                    if let Const::Unevaluated(u, _) = c.const_ {
                        v.push(("uneval", esc(&pretty(self.tcx, u.def.into()))));
                        v.push(("ua", self.gargs(u.args)));
                        if let Some(p) = u.promoted {
                            v.push(("promoted", p.index().to_string()));
                        }
                    }
                    if t.is_integral() || t.is_bool() || t.is_char() {
                        if let Some(b) = c.const_.try_eval_bits(self.tcx, self.env) {
                            v.push(("bits", esc(&b.to_string())));
                        }
                    }
                    v.push(("s", esc(&format!("{}", c.const_))));
                }
                obj(vec![("k", obj(v))])
            }
            #[allow(unreachable_patterns)]
            o => obj(vec![("k", obj(vec![("s", esc(&format!("{:?}", o)))]))]),
        }
    }

    fn rvalue(&self, r: &Rvalue<'tcx>) -> String {
        let tcx = self.tcx;
        match r {
            Rvalue::Use(o, ..) => arr(vec![esc("use"), self.operand(o)]),
            Rvalue::Repeat(o, n) => arr(vec![esc("repeat"), self.operand(o), esc(&format!("{}", n))]),
            Rvalue::Ref(_, bk, p) => arr(vec![
                esc("ref"),
                esc(match bk {
                    BorrowKind::Mut { .. } => "mut",
                    BorrowKind::Shared => "shared",
                    _ => "fake",
                }),
                self.place(p),
            ]),
            Rvalue::RawPtr(_, p) => arr(vec![esc("rawptr"), self.place(p)]),
            Rvalue::Cast(k, o, t) => arr(vec![
                esc("cast"),
                esc(&format!("{:?}", k)),
                self.operand(o),
                self.ty(*t),
            ]),
            Rvalue::BinaryOp(op, b) => arr(vec![
                esc("bin"),
                esc(&format!("{:?}", op)),
                self.operand(&b.0),
                self.operand(&b.1),
            ]),
            Rvalue::UnaryOp(op, o) => arr(vec![esc("un"), esc(&format!("{:?}", op)), self.operand(o)]),
            Rvalue::Discriminant(p) => arr(vec![esc("discr"), self.place(p)]),
            Rvalue::Aggregate(k, ops) => {
                let ops: Vec<String> = ops.iter().map(|o| self.operand(o)).collect();
                let k = match &**k {
                    AggregateKind::Array(_) => arr(vec![esc("array")]),
                    AggregateKind::Tuple => arr(vec![esc("tuple")]),
                    AggregateKind::Adt(d, vi, args, _, _) => {
                        let a = tcx.adt_def(*d);
                        let va = a.variant(*vi);
                        arr(vec![
                            esc("adt"),
                            esc(&pretty(tcx, *d)),
                            vi.index().to_string(),
                            esc(va.name.as_str()),
                            arr(va.fields.iter().map(|f| esc(f.name.as_str())).collect()),
                            self.gargs(args),
                        ])
                    }
                    AggregateKind::Closure(d, _) => arr(vec![esc("closure"), esc(&did(tcx, *d))]),
                    o => arr(vec![esc("other"), esc(&format!("{:?}", o))]),
                };
                arr(vec![esc("agg"), k, arr(ops)])
            }
            Rvalue::CopyForDeref(p) => arr(vec![esc("use"), obj(vec![("c", self.place(p))])]),
            Rvalue::Reborrow(_, m, p) => arr(vec![
                esc("ref"),
                esc(if m.is_mut() { "mut" } else { "shared" }),
                self.place(p),
            ]),
            o => arr(vec![esc("other"), esc(&format!("{:?}", o))]),
        }
    }

    fn body(&self, b: &Body<'tcx>) -> String {
        let tcx = self.tcx;
        let locals: Vec<String> = b.local_decls.iter().map(|l| self.ty(l.ty)).collect();
        let mut names = vec![];
        for v in &b.var_debug_info {
            if let VarDebugInfoContents::Place(p) = &v.value {
                names.push(arr(vec![esc(v.name.as_str()), self.place(p)]));
            }
        }
        let mut blocks = vec![];
        for bb in b.basic_blocks.iter() {
            let mut st = vec![];
            for s in &bb.statements {
                match &s.kind {
                    StatementKind::Assign(a) => st.push(arr(vec![
                        esc("="),
                        self.place(&a.0),
                        self.rvalue(&a.1),
                        esc(&span_json(tcx, s.source_info.span)),
                    ])),
                    StatementKind::StorageDead(l) => st.push(arr(vec![esc("dead"), l.index().to_string()])),
                    StatementKind::SetDiscriminant { place, variant_index } => {
                        st.push(arr(vec![esc("setdiscr"), self.place(place), variant_index.index().to_string()]))
                    }
                    StatementKind::Intrinsic(i) => st.push(arr(vec![esc("intrinsic"), esc(&format!("{:?}", i))])),
                    _ => {}
                }
            }
            let t = bb.terminator();
            let sp = esc(&span_json(tcx, t.source_info.span));
            let tj = match &t.kind {
                TerminatorKind::Goto { target, .. } => arr(vec![esc("goto"), target.index().to_string()]),
                TerminatorKind::SwitchInt { discr, targets } => {
                    let mut v = vec![];
                    for (val, t) in targets.iter() {
                        v.push(arr(vec![esc(&val.to_string()), t.index().to_string()]));
                    }
                    arr(vec![
                        esc("switch"),
                        self.operand(discr),
                        arr(v),
                        targets.otherwise().index().to_string(),
                        sp.clone(),
                    ])
                }
                TerminatorKind::Return => arr(vec![esc("return")]),
                TerminatorKind::Unreachable => arr(vec![esc("unreachable")]),
                TerminatorKind::Drop { place, target, .. } => {
                    arr(vec![esc("drop"), target.index().to_string(), self.place(place)])
                }
                TerminatorKind::Call { func, args, destination, target, fn_span, .. } => arr(vec![
                    esc("call"),
                    self.operand(func),
                    arr(args.iter().map(|a| self.operand(&a.node)).collect()),
                    self.place(destination),
                    target.map_or("null".into(), |t| t.index().to_string()),
                    esc(&span_json(tcx, *fn_span)),
                ]),
                TerminatorKind::Assert { cond, expected, msg, target, .. } => arr(vec![
                    esc("assert"),
                    self.operand(cond),
                    expected.to_string(),
                    esc(&match &**msg {
                        AssertKind::BoundsCheck { .. } => "bounds".to_string(),
                        AssertKind::DivisionByZero(_) => "divzero".to_string(),
                        AssertKind::RemainderByZero(_) => "remzero".to_string(),
                        AssertKind::Overflow(op, ..) => format!("overflow-{:?}", op),
                        AssertKind::OverflowNeg(_) => "overflow-neg".to_string(),
                        _ => "other".to_string(),
                    }),
                    target.index().to_string(),
                    sp.clone(),
                ]),
                TerminatorKind::FalseEdge { real_target, .. } => {
                    arr(vec![esc("goto"), real_target.index().to_string()])
                }
                TerminatorKind::FalseUnwind { real_target, .. } => {
                    arr(vec![esc("goto"), real_target.index().to_string()])
                }
                TerminatorKind::UnwindResume => arr(vec![esc("unwind")]),
                o => arr(vec![esc("other"), esc(&format!("{:?}", o))]),
            };
            blocks.push(arr(vec![arr(st), tj, (if bb.is_cleanup { "1" } else { "0" }).to_string()]));
        }
        obj(vec![
            ("args", b.arg_count.to_string()),
            ("locals", arr(locals)),
            ("names", arr(names)),
            ("blocks", arr(blocks)),
        ])
    }
}

struct UnsafeV<'tcx> {
    tcx: TyCtxt<'tcx>,
    out: Vec<String>,
}
impl<'tcx> rustc_hir::intravisit::Visitor<'tcx> for UnsafeV<'tcx> {
    type NestedFilter = rustc_middle::hir::nested_filter::All;
    fn maybe_tcx(&mut self) -> Self::MaybeTyCtxt {
        self.tcx
    }
    fn visit_block(&mut self, b: &'tcx rustc_hir::Block<'tcx>) {
        if let rustc_hir::BlockCheckMode::UnsafeBlock(src) = b.rules {
            let user = matches!(src, rustc_hir::UnsafeSource::UserProvided);
            let ext = b.span.from_expansion();
            self.out.push(obj(vec![
                ("span", esc(&span_json(self.tcx, b.span))),
                ("user", user.to_string()),
                ("expn", ext.to_string()),
            ]));
        }
        rustc_hir::intravisit::walk_block(self, b);
    }
}

struct Cb;
impl Callbacks for Cb {
    fn after_expansion<'tcx>(&mut self, _c: &rustc_interface::interface::Compiler, tcx: TyCtxt<'tcx>) -> Compilation {
        let out = match std::env::var("SA_OUT") {
            Ok(o) => o,
            Err(_) => return Compilation::Continue,
        };
        let krate = tcx.crate_name(rustc_hir::def_id::LOCAL_CRATE);
        let mut bodies = vec![];
        let mut errors = vec![];
        for &ld in tcx.mir_keys(()) {
            let d = ld.to_def_id();
            let kind = tcx.def_kind(d);
            let kname = match kind {
                DefKind::Fn => "fn",
                DefKind::AssocFn => "assocfn",
                DefKind::Closure => "closure",
                DefKind::Const { .. } | DefKind::AssocConst { .. } => "const",
                DefKind::Static { .. } => "static",
                DefKind::Ctor(..) => continue,
                _ => "other",
            };
            let cx = Cx { tcx, env: TypingEnv::post_analysis(tcx, tcx.typeck_root_def_id(d)) };
            let stolen = tcx.mir_built(ld);
            if stolen.is_stolen() {
                errors.push(esc(&did(tcx, d)));
                continue;
            }
            let body = stolen.borrow();
            let gens = tcx.generics_of(d);
            let mut names = vec![];
            for i in 0..gens.count() {
                let p = gens.param_at(i, tcx);
                if !matches!(p.kind, ty::GenericParamDefKind::Lifetime) {
                    names.push(esc(p.name.as_str()));
                }
            }
            let mut v = vec![
                ("id", esc(&did(tcx, d))),
                ("path", esc(&pretty(tcx, d))),
                ("kind", esc(kname)),
                ("name", esc(tcx.opt_item_name(d).map(|s| s.to_string()).unwrap_or_default().as_str())),
                ("span", esc(&span_json(tcx, tcx.def_span(d)))),
                ("expn", tcx.def_span(d).from_expansion().to_string()),
                ("gn", arr(names)),
                ("pub", (matches!(kind, DefKind::Fn | DefKind::AssocFn) && tcx.effective_visibilities(()).is_exported(ld)).to_string()),
                ("body", cx.body(&body)),
            ];
            if matches!(kind, DefKind::Fn | DefKind::AssocFn) {
                v.push(("unsafe", (!tcx.fn_sig(d).skip_binder().safety().is_safe()).to_string()));
                if let Some(im) = tcx.impl_of_assoc(d) {
                    v.push(("impl", esc(&did(tcx, im))));
                }
                if let Some(tr) = tcx.trait_of_assoc(d) {
                    v.push(("trait_default_of", esc(&pretty(tcx, tr))));
                }
            }
            bodies.push(obj(v));
        }
        let mut impls = vec![];
        let mut adts = vec![];
        let mut statics = vec![];
        let mut mods = vec![];
        let mut uns = vec![];
        for id in tcx.hir_crate_items(()).definitions() {
            let d = id.to_def_id();
            match tcx.def_kind(d) {
                DefKind::Impl { of_trait } => {
                    let cx = Cx { tcx, env: TypingEnv::post_analysis(tcx, d) };
                    let st = tcx.type_of(d).instantiate_identity().skip_norm_wip();
                    let mut items = vec![];
                    let mut tys = vec![];
                    for it in tcx.associated_items(d).in_definition_order() {
                        let nm = it.opt_name().map(|s| s.to_string()).unwrap_or_default();
                        if matches!(it.kind, ty::AssocKind::Type { .. }) {
                            let t = tcx.type_of(it.def_id).instantiate_identity().skip_norm_wip();
                            tys.push(arr(vec![esc(&nm), cx.ty(t)]));
                        }
                        items.push(arr(vec![esc(&nm), esc(&did(tcx, it.def_id))]));
                    }
                    let mut v = vec![
                        ("id", esc(&did(tcx, d))),
                        ("self", cx.ty(st)),
                        ("items", arr(items)),
                        ("types", arr(tys)),
                        ("expn", tcx.def_span(d).from_expansion().to_string()),
                        ("span", esc(&span_json(tcx, tcx.def_span(d)))),
                    ];
                    if of_trait {
                        let tr = tcx.impl_trait_ref(d).instantiate_identity().skip_norm_wip();
                        v.push(("trait", esc(&pretty(tcx, tr.def_id.into()))));
                        v.push(("targs", cx.gargs(tr.args)));
                        v.push(("unsafe", (!tcx.impl_trait_header(d).safety.is_safe()).to_string()));
                    }
                    impls.push(obj(v));
                }
                DefKind::Struct | DefKind::Enum | DefKind::Union => {
                    let a = tcx.adt_def(d);
                    let cx = Cx { tcx, env: TypingEnv::post_analysis(tcx, d) };
                    let mut vs = vec![];
                    for va in a.variants() {
                        let mut fs = vec![];
                        for f in &va.fields {
                            fs.push(arr(vec![
                                esc(f.name.as_str()),
                                cx.ty(tcx.type_of(f.did).instantiate_identity().skip_norm_wip()),
                                f.vis.is_public().to_string(),
                            ]));
                        }
                        vs.push(arr(vec![esc(va.name.as_str()), arr(fs)]));
                    }
                    let gens = tcx.generics_of(d);
                    let mut gn = vec![];
                    for i in 0..gens.count() {
                        let p = gens.param_at(i, tcx);
                        if !matches!(p.kind, ty::GenericParamDefKind::Lifetime) {
                            gn.push(esc(p.name.as_str()));
                        }
                    }
                    adts.push(obj(vec![
                        ("path", esc(&pretty(tcx, d))),
                        ("gn", arr(gn)),
                        ("variants", arr(vs)),
                        ("span", esc(&span_json(tcx, tcx.def_span(d)))),
                    ]));
                }
                DefKind::Static { mutability, .. } => statics.push(obj(vec![
                    ("path", esc(&pretty(tcx, d))),
                    ("mut", mutability.is_mut().to_string()),
                    ("freeze", tcx.type_of(d).instantiate_identity().skip_norm_wip().is_freeze(tcx, TypingEnv::post_analysis(tcx, d)).to_string()),
                    ("tls", tcx.is_thread_local_static(d).to_string()),
                    ("ty", esc(&format!("{}", tcx.type_of(d).instantiate_identity().skip_norm_wip()))),
                    ("span", esc(&span_json(tcx, tcx.def_span(d)))),
                ])),
                DefKind::Trait => {
                    if !tcx.trait_def(d).safety.is_safe() {
                        uns.push(arr(vec![esc("unsafe trait"), esc(&pretty(tcx, d)), esc(&span_json(tcx, tcx.def_span(d)))]));
                    }
                }
                DefKind::ForeignMod => {
                    uns.push(arr(vec![esc("extern block"), esc(&pretty(tcx, d)), esc(&span_json(tcx, tcx.def_span(d)))]));
                }
                DefKind::Mod => mods.push(esc(&pretty(tcx, d))),
                _ => {}
            }
        }
        let mut uv = UnsafeV { tcx, out: vec![] };
        tcx.hir_walk_toplevel_module(&mut uv);
        let mut files = vec![];
        for f in tcx.sess.source_map().files().iter() {
            if f.cnum == rustc_hir::def_id::LOCAL_CRATE && f.is_real_file() {
                files.push(esc(&format!("{}", f.name.prefer_local_unconditionally())));
            }
        }
        let js = obj(vec![
            ("crate", esc(krate.as_str())),
            ("bodies", arr(bodies)),
            ("errors", arr(errors)),
            ("impls", arr(impls)),
            ("adts", arr(adts)),
            ("statics", arr(statics)),
            ("mods", arr(mods)),
            ("unsafe_items", arr(uns)),
            ("unsafe_blocks", arr(uv.out)),
            ("files", arr(files)),
        ]);
        let p = format!("{}/{}.json", out, krate);
        let _ = J { s: String::new() }.s;
        std::fs::write(&p, js).expect("write SA_OUT");
        Compilation::Continue
    }
}

fn main() {
    let mut args: Vec<String> = std::env::args().collect();
    // argv[1] is the real rustc when used as a cargo wrapper
    if args.len() > 1 && args[1].contains("rustc") {
        args.remove(0);
    }
    let is_lib = args.windows(2).any(|w| w[0] == "--crate-type" && w[1] == "lib");
    let is_test = args.iter().any(|a| a == "--test");
    if is_lib && !is_test {
        rustc_driver::compiler_entrypoint(&args, &mut Cb);
    } else {
        struct Nop;
        impl Callbacks for Nop {}
        rustc_driver::compiler_entrypoint(&args, &mut Nop);
    }
}

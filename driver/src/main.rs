//! Fact extractor: runs inside rustc (RUSTC_WORKSPACE_WRAPPER) on /repo's crate and dumps the
//! *resolved* program - typed THIR trees, MIR control-flow graphs, ADTs and trait impls - as JSON.
//! It decides nothing; the rules live in /verif/checks.
#![feature(rustc_private)]
#![feature(deref_patterns)]
#![allow(rustc::internal)]
extern crate rustc_abi;
extern crate rustc_ast;
extern crate rustc_data_structures;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_session;
extern crate rustc_span;

mod json;
mod mir;
mod thir;

use json::J;
use rustc_driver::{Callbacks, Compilation};
use rustc_hir::def::DefKind;
use rustc_hir::def_id::DefId;
use rustc_interface::interface;
use rustc_middle::ty::{self, Ty, TyCtxt};
use rustc_span::{ExpnKind, Span};

pub fn id_of(tcx: TyCtxt<'_>, d: DefId) -> String {
    format!("{}{}", tcx.crate_name(d.krate), tcx.def_path(d).to_string_no_crate_verbose())
}

pub fn path_of(tcx: TyCtxt<'_>, d: DefId) -> String {
    rustc_middle::ty::print::with_no_trimmed_paths!(
        rustc_middle::ty::print::with_resolve_crate_name!(
            rustc_middle::ty::print::with_no_visible_paths!(tcx.def_path_str(d))
        )
    )
}

/// `impl Trait` parameters get distinct names (`I#<index>`): several can share one printed form.
/// type and const arguments (lifetimes are left out)
pub fn arg_str(g: ty::GenericArg<'_>) -> Option<String> {
    if let Some(t) = g.as_type() {
        return Some(ty_str(t));
    }
    g.as_const().map(|c| format!("{c}"))
}

pub fn ty_str(t: Ty<'_>) -> String {
    let t = ty::tls::with(|tcx| {
        let t = tcx.lift(t);
        use rustc_middle::ty::TypeFoldable;
        ty_print(t.fold_with(&mut ty::BottomUpFolder {
            tcx,
            ty_op: |x| match x.kind() {
                ty::Param(p) if p.name.as_str().starts_with("impl ") => {
                    ty::Ty::new_param(tcx, p.index, rustc_span::Symbol::intern(&format!("I#{}", p.index)))
                }
                _ => x,
            },
            lt_op: |r| r,
            ct_op: |c| c,
        }))
    })
    ;
    t
}

fn ty_print(t: Ty<'_>) -> String {
    rustc_middle::ty::print::with_no_trimmed_paths!(
        rustc_middle::ty::print::with_resolve_crate_name!(
            rustc_middle::ty::print::with_no_visible_paths!(t.to_string())
        )
    )
}

/// `file:line:col` of the outermost (user-written) call site, plus the macro that produced it.
pub fn span_j(tcx: TyCtxt<'_>, sp: Span) -> J {
    let outer = sp.source_callsite();
    let sm = tcx.sess.source_map();
    let lo = sm.lookup_char_pos(outer.lo());
    let hi = sm.lookup_char_pos(outer.hi());
    let f = match &lo.file.name {
        rustc_span::FileName::Real(r) => r
            .local_path()
            .map(|p| p.display().to_string())
            .unwrap_or_else(|| format!("{:?}", r)),
        o => format!("{:?}", o),
    };
    let mut v = vec![J::S(f), J::I(lo.line as i128), J::I(hi.line as i128)];
    if sp.from_expansion() {
        let e = sp.ctxt().outer_expn_data();
        if let ExpnKind::Macro(_, name) = e.kind {
            v.push(J::S(name.to_string()));
        } else {
            v.push(J::S(format!("{:?}", e.kind)));
        }
    }
    J::A(v)
}

pub fn fn_ref<'tcx>(
    tcx: TyCtxt<'tcx>,
    env: ty::TypingEnv<'tcx>,
    d: DefId,
    args: ty::GenericArgsRef<'tcx>,
) -> J {
    let mut o = vec![
        ("p", J::S(path_of(tcx, d))),
        ("id", J::S(id_of(tcx, d))),
    ];
    if !args.is_empty() {
        let a: Vec<J> = args
            .iter()
            .filter_map(|g| match g.kind() {
                ty::GenericArgKind::Type(t) => Some(J::S(ty_str(t))),
                ty::GenericArgKind::Const(c) => Some(J::S(format!("{}", c))),
                _ => None,
            })
            .collect();
        if !a.is_empty() {
            o.push(("ga", J::A(a)));
        }
    }
    if let Some(tr) = tcx.trait_of_assoc(d) {
        o.push(("tr", J::S(path_of(tcx, tr))));
        let erased = tcx.erase_and_anonymize_regions(args);
        if matches!(tcx.def_kind(d), DefKind::AssocFn) {
            if let Ok(Some(inst)) = ty::Instance::try_resolve(tcx, env, d, erased) {
                let rd = inst.def_id();
                if rd != d {
                    o.push(("rp", J::S(path_of(tcx, rd))));
                    o.push(("rid", J::S(id_of(tcx, rd))));
                    let ga: Vec<J> = inst.args.iter().filter_map(arg_str).map(J::S).collect();
                    o.push(("rga", J::A(ga)));
                } else {
                    o.push(("rdef", J::B(true)));
                }
            }
        }
    }
    if let Some(im) = tcx.impl_of_assoc(d) {
        o.push(("self", J::S(ty_str(tcx.type_of(im).instantiate_identity().skip_norm_wip()))));
    }
    J::O(o)
}

struct Cb;

impl Callbacks for Cb {
    fn config(&mut self, config: &mut interface::Config) {
        config.opts.unstable_opts.no_steal_thir = true;
        config.opts.unstable_opts.mir_opt_level = Some(0);
    }
    fn after_analysis<'tcx>(&mut self, _c: &interface::Compiler, tcx: TyCtxt<'tcx>) -> Compilation {
        let krate = tcx.crate_name(rustc_hir::def_id::LOCAL_CRATE).to_string();
        if let Ok(out) = std::env::var("SPLFACTS_OUT") {
            if krate == std::env::var("SPLFACTS_CRATE").unwrap_or_else(|_| "spl_transpiler".into()) {
                dump(tcx, &krate, &out);
            }
        }
        Compilation::Continue
    }
}

fn dump(tcx: TyCtxt<'_>, krate: &str, out: &str) {
    let mut bodies = vec![];
    for d in tcx.hir_body_owners() {
        let did = d.to_def_id();
        let kind = tcx.def_kind(did);
        let mut o = vec![
            ("id", J::S(id_of(tcx, did))),
            ("path", J::S(path_of(tcx, did))),
            ("kind", J::S(format!("{:?}", kind))),
            ("span", span_j(tcx, tcx.def_span(did))),
        ];
        if let Some(p) = tcx.opt_parent(did) {
            o.push(("parent", J::S(id_of(tcx, p))));
        }
        if let Some(im) = tcx.impl_of_assoc(did) {
            o.push(("impl_self", J::S(ty_str(tcx.type_of(im).instantiate_identity().skip_norm_wip()))));
            if let Some(tr) = tcx.impl_opt_trait_ref(im) {
                let tr = tr.instantiate_identity().skip_norm_wip();
                o.push(("impl_trait", J::S(path_of(tcx, tr.def_id))));
                o.push(("impl_trait_full", J::S(format!("{}", rustc_middle::ty::print::with_no_trimmed_paths!(tr.to_string())))));
                o.push(("name", J::S(tcx.item_name(did).to_string())));
            }
        } else if let Some(tr) = tcx.trait_of_assoc(did) {
            o.push(("in_trait", J::S(path_of(tcx, tr))));
        }
        if let Some(n) = tcx.opt_item_name(did) {
            o.push(("fname", J::S(n.to_string())));
        }
        if matches!(kind, DefKind::Fn | DefKind::AssocFn) {
            let mut names = vec![];
            let mut g = tcx.generics_of(did);
            let mut chain = vec![g];
            while let Some(p) = g.parent {
                g = tcx.generics_of(p);
                chain.push(g);
            }
            for g in chain.iter().rev() {
                for p in &g.own_params {
                    if !matches!(p.kind, ty::GenericParamDefKind::Lifetime) {
                        let n = p.name.to_string();
                        names.push(J::S(if n.starts_with("impl ") { format!("I#{}", p.index) } else { n }));
                    }
                }
            }
            o.push(("gen", J::A(names)));
            o.push(("vis", J::S(format!("{:?}", tcx.visibility(did)))));
        }
        o.push(("thir", thir::dump(tcx, d)));
        if matches!(kind, DefKind::Fn | DefKind::AssocFn | DefKind::Closure) {
            o.push(("mir", mir::dump(tcx, d)));
        }
        bodies.push(J::O(o));
    }
    let mut adts = vec![];
    for ld in tcx.hir_crate_items(()).definitions() {
        let did = ld.to_def_id();
        if matches!(tcx.def_kind(did), DefKind::Struct | DefKind::Enum) {
            let adt = tcx.adt_def(did);
            let vs = adt
                .variants()
                .iter()
                .map(|v| {
                    J::O(vec![
                        ("name", J::S(v.name.to_string())),
                        (
                            "fields",
                            J::A(
                                v.fields
                                    .iter()
                                    .map(|f| {
                                        J::A(vec![
                                            J::S(f.name.to_string()),
                                            J::S(ty_str(tcx.type_of(f.did).instantiate_identity().skip_norm_wip())),
                                            J::S(format!("{:?}", f.vis)),
                                        ])
                                    })
                                    .collect(),
                            ),
                        ),
                    ])
                })
                .collect();
            adts.push(J::O(vec![
                ("id", J::S(id_of(tcx, did))),
                ("path", J::S(path_of(tcx, did))),
                ("kind", J::S(format!("{:?}", tcx.def_kind(did)))),
                ("span", span_j(tcx, tcx.def_span(did))),
                ("variants", J::A(vs)),
            ]));
        }
    }
    let mut impls = vec![];
    for (tr, is) in tcx.all_local_trait_impls(()).iter() {
        for i in is {
            let did = i.to_def_id();
            let tref = tcx.impl_trait_ref(did).instantiate_identity().skip_norm_wip();
            let mut items = vec![];
            for it in tcx.associated_items(did).in_definition_order() {
                let mut o = vec![
                    ("name", J::S(it.opt_name().map(|n| n.to_string()).unwrap_or_default())),
                    ("id", J::S(id_of(tcx, it.def_id))),
                    ("kind", J::S(format!("{:?}", tcx.def_kind(it.def_id)))),
                ];
                if matches!(tcx.def_kind(it.def_id), DefKind::AssocTy) {
                    o.push(("ty", J::S(ty_str(tcx.type_of(it.def_id).instantiate_identity().skip_norm_wip()))));
                }
                if matches!(tcx.def_kind(it.def_id), DefKind::AssocConst { .. }) {
                    o.push(("val", thir::const_value(tcx, it.def_id)));
                }
                items.push(J::O(o));
            }
            let a: Vec<J> = tref
                .args
                .iter()
                .filter_map(|g| g.as_type())
                .map(|t| J::S(ty_str(t)))
                .collect();
            impls.push(J::O(vec![
                ("trait", J::S(path_of(tcx, *tr))),
                ("args", J::A(a)),
                ("id", J::S(id_of(tcx, did))),
                ("span", span_j(tcx, tcx.def_span(did))),
                ("derived", J::B(tcx.is_automatically_derived(did))),
                ("items", J::A(items)),
            ]));
        }
    }
    let top = J::O(vec![
        ("crate", J::s(krate)),
        ("bodies", J::A(bodies)),
        ("adts", J::A(adts)),
        ("impls", J::A(impls)),
    ]);
    let mut s = String::new();
    top.write(&mut s);
    std::fs::write(out, s).expect("write facts");
}

fn main() -> std::process::ExitCode {
    // As a RUSTC_WORKSPACE_WRAPPER, argv[1] is the path of the real rustc.
    let mut args: Vec<String> = std::env::args().collect();
    if args.len() > 1 && args[1].ends_with("rustc") {
        args.remove(1);
    }
    rustc_driver::catch_with_exit_code(|| {
        rustc_driver::compiler_entrypoint(&args, &mut Cb)
    })
}

use crate::json::J;
use crate::thir::{const_val_j, scalar_j};
use crate::{fn_ref, id_of, path_of, span_j, ty_str};
use rustc_hir::def_id::LocalDefId;
use rustc_middle::mir::*;
use rustc_middle::ty::{self, TyCtxt};

struct M<'a, 'tcx> {
    tcx: TyCtxt<'tcx>,
    b: &'a Body<'tcx>,
    env: ty::TypingEnv<'tcx>,
}

pub fn dump(tcx: TyCtxt<'_>, d: LocalDefId) -> J {
    let did = d.to_def_id();
    if !tcx.is_mir_available(did) {
        return J::Null;
    }
    let b = tcx.optimized_mir(did);
    let m = M { tcx, b, env: ty::TypingEnv::post_analysis(tcx, did) };
    let mut names: Vec<(u32, String)> = vec![];
    for v in &b.var_debug_info {
        if let VarDebugInfoContents::Place(p) = v.value {
            if p.projection.is_empty() {
                names.push((p.local.as_u32(), v.name.to_string()));
            }
        }
    }
    let locals = b
        .local_decls
        .iter_enumerated()
        .map(|(l, ld)| {
            let mut o = vec![("ty", J::S(ty_str(ld.ty)))];
            if let Some((_, n)) = names.iter().find(|(i, _)| *i == l.as_u32()) {
                o.push(("n", J::s(n)));
            }
            J::O(o)
        })
        .collect();
    let blocks = b
        .basic_blocks
        .iter()
        .map(|bb| {
            let st = bb.statements.iter().filter_map(|s| m.stmt(s)).collect();
            let mut o = vec![("s", J::A(st)), ("t", m.term(bb.terminator()))];
            if bb.is_cleanup {
                o.push(("cl", J::B(true)));
            }
            J::O(o)
        })
        .collect();
    J::O(vec![("argc", J::I(b.arg_count as i128)), ("locals", J::A(locals)), ("bb", J::A(blocks))])
}

impl<'a, 'tcx> M<'a, 'tcx> {
    fn place(&self, p: Place<'tcx>) -> J {
        let mut proj = vec![];
        let mut pt = PlaceTy::from_ty(self.b.local_decls[p.local].ty);
        for e in p.projection.iter() {
            let j = match e {
                ProjectionElem::Deref => J::s("*"),
                ProjectionElem::Field(f, _) => {
                    let mut v = vec![J::s("f"), J::I(f.as_u32() as i128)];
                    if let ty::Adt(a, _) = pt.ty.kind() {
                        let var = match pt.variant_index {
                            Some(i) => Some(&a.variants()[i]),
                            None if a.is_struct() => Some(a.non_enum_variant()),
                            _ => None,
                        };
                        if let Some(var) = var {
                            v.push(J::S(var.fields[f].name.to_string()));
                            v.push(J::S(path_of(self.tcx, a.did())));
                        }
                    }
                    J::A(v)
                }
                ProjectionElem::Index(l) => J::A(vec![J::s("i"), J::I(l.as_u32() as i128)]),
                ProjectionElem::ConstantIndex { offset, min_length, from_end } => J::A(vec![
                    J::s("ci"),
                    J::I(offset as i128),
                    J::I(min_length as i128),
                    J::B(from_end),
                ]),
                ProjectionElem::Subslice { from, to, from_end } => {
                    J::A(vec![J::s("ss"), J::I(from as i128), J::I(to as i128), J::B(from_end)])
                }
                ProjectionElem::Downcast(n, i) => {
                    J::A(vec![J::s("d"), J::S(n.map(|s| s.to_string()).unwrap_or_default()), J::I(i.as_u32() as i128)])
                }
                _ => J::s("?"),
            };
            proj.push(j);
            pt = pt.projection_ty(self.tcx, e);
        }
        let mut v = vec![J::I(p.local.as_u32() as i128)];
        v.extend(proj);
        J::A(v)
    }
    fn cst(&self, c: &ConstOperand<'tcx>) -> J {
        let t = c.const_.ty();
        let mut o = vec![("ty", J::S(ty_str(t)))];
        if let ty::FnDef(d, ga) = t.kind() {
            o.push(("fn", fn_ref(self.tcx, self.env, *d, ga.no_bound_vars().unwrap())));
        } else if let Ok(v) = c.const_.eval(self.tcx, self.env, rustc_span::DUMMY_SP) {
            o.push(("v", const_val_j(self.tcx, v, t)));
        }
        if let Const::Unevaluated(u, _) = c.const_ {
            if u.promoted.is_none() {
                o.push(("c", J::S(path_of(self.tcx, u.def))));
            } else {
                o.push(("promoted", J::I(u.promoted.unwrap().as_u32() as i128)));
            }
        }
        J::O(vec![("c", J::O(o))])
    }
    fn op(&self, o: &Operand<'tcx>) -> J {
        match o {
            Operand::Copy(p) => J::O(vec![("p", self.place(*p))]),
            Operand::Move(p) => J::O(vec![("p", self.place(*p)), ("m", J::B(true))]),
            Operand::Constant(c) => self.cst(c),
            other => J::O(vec![("x", J::S(format!("{:?}", other)))]),
        }
    }
    fn rv(&self, r: &Rvalue<'tcx>) -> J {
        let mut o: Vec<(&'static str, J)> = vec![];
        macro_rules! k { ($s:expr) => { o.push(("k", J::s($s))) }; }
        match r {
            Rvalue::Use(op, _) => {
                k!("Use");
                o.push(("a", J::A(vec![self.op(op)])));
            }
            Rvalue::Repeat(op, _) => {
                k!("Repeat");
                o.push(("a", J::A(vec![self.op(op)])));
            }
            Rvalue::Ref(_, bk, p) => {
                k!("Ref");
                o.push(("pl", self.place(*p)));
                if !matches!(bk, BorrowKind::Shared) {
                    o.push(("mut", J::B(true)));
                }
            }
            Rvalue::RawPtr(_, p) => {
                k!("Raw");
                o.push(("pl", self.place(*p)));
            }
            Rvalue::CopyForDeref(p) | Rvalue::Reborrow(_, _, p) => {
                k!("Use");
                o.push(("a", J::A(vec![J::O(vec![("p", self.place(*p))])])));
            }
            Rvalue::Cast(ck, op, t) => {
                k!("Cast");
                o.push(("ck", J::S(format!("{:?}", ck))));
                o.push(("a", J::A(vec![self.op(op)])));
                o.push(("ty", J::S(ty_str(*t))));
            }
            Rvalue::BinaryOp(b, (l, r)) => {
                k!("Bin");
                o.push(("op", J::S(format!("{:?}", b))));
                o.push(("a", J::A(vec![self.op(l), self.op(r)])));
            }
            Rvalue::UnaryOp(u, x) => {
                k!("Un");
                o.push(("op", J::S(format!("{:?}", u))));
                o.push(("a", J::A(vec![self.op(x)])));
            }
            Rvalue::Discriminant(p) => {
                k!("Discr");
                o.push(("pl", self.place(*p)));
                let t = p.ty(self.b, self.tcx).ty;
                if let ty::Adt(a, _) = t.kind() {
                    o.push(("adt", J::S(path_of(self.tcx, a.did()))));
                    let vs = a
                        .discriminants(self.tcx)
                        .map(|(i, d)| J::A(vec![J::S(a.variant(i).name.to_string()), J::I(d.val as i128)]))
                        .collect();
                    o.push(("vs", J::A(vs)));
                }
            }
            Rvalue::Aggregate(ak, ops) => {
                k!("Agg");
                match ak {
                    AggregateKind::Adt(d, vi, _, _, _) => {
                        o.push(("adt", J::S(path_of(self.tcx, *d))));
                        let a = self.tcx.adt_def(*d);
                        let v = a.variant(*vi);
                        o.push(("v", J::S(v.name.to_string())));
                        o.push(("fs", J::A(v.fields.iter().map(|f| J::S(f.name.to_string())).collect())));
                    }
                    AggregateKind::Closure(d, _) => {
                        o.push(("clo", J::S(id_of(self.tcx, *d))));
                    }
                    AggregateKind::Array(_) => o.push(("arr", J::B(true))),
                    AggregateKind::Tuple => o.push(("tup", J::B(true))),
                    _ => {}
                }
                o.push(("a", J::A(ops.iter().map(|x| self.op(x)).collect())));
            }
            other => {
                k!("Other");
                o.push(("d", J::S(format!("{:?}", other))));
            }
        }
        J::O(o)
    }
    fn stmt(&self, s: &Statement<'tcx>) -> Option<J> {
        match &s.kind {
            StatementKind::Assign(bx) => Some(J::O(vec![
                ("l", self.place(bx.0)),
                ("r", self.rv(&bx.1)),
                ("sp", span_j(self.tcx, s.source_info.span)),
            ])),
            StatementKind::SetDiscriminant { place, variant_index } => Some(J::O(vec![
                ("sd", self.place(**place)),
                ("v", J::I(variant_index.as_u32() as i128)),
            ])),
            _ => None,
        }
    }
    fn term(&self, t: &Terminator<'tcx>) -> J {
        let mut o: Vec<(&'static str, J)> = vec![];
        macro_rules! k { ($s:expr) => { o.push(("k", J::s($s))) }; }
        let bb = |b: &BasicBlock| J::I(b.as_u32() as i128);
        match &t.kind {
            TerminatorKind::Goto { target, .. } => {
                k!("Goto");
                o.push(("to", J::A(vec![bb(target)])));
            }
            TerminatorKind::SwitchInt { discr, targets } => {
                k!("Switch");
                let dt = discr.ty(self.b, self.tcx);
                o.push(("d", self.op(discr)));
                o.push(("ty", J::S(ty_str(dt))));
                o.push(("vals", J::A(targets.iter().map(|(v, _)| J::I(v as i128)).collect())));
                let mut to: Vec<J> = targets.iter().map(|(_, b)| bb(&b)).collect();
                to.push(bb(&targets.otherwise()));
                o.push(("to", J::A(to)));
            }
            TerminatorKind::Return => k!("Return"),
            TerminatorKind::Unreachable => k!("Unreachable"),
            TerminatorKind::UnwindResume => k!("Resume"),
            TerminatorKind::UnwindTerminate(_) => k!("Abort"),
            TerminatorKind::Drop { place, target, .. } => {
                k!("Drop");
                o.push(("pl", self.place(*place)));
                o.push(("to", J::A(vec![bb(target)])));
            }
            TerminatorKind::Call { func, args, destination, target, fn_span, .. } => {
                k!("Call");
                let ft = func.ty(self.b, self.tcx);
                if let ty::FnDef(d, ga) = ft.kind() {
                    o.push(("fn", fn_ref(self.tcx, self.env, *d, ga.no_bound_vars().unwrap())));
                } else {
                    o.push(("fe", self.op(func)));
                }
                o.push(("a", J::A(args.iter().map(|x| self.op(&x.node)).collect())));
                o.push(("l", self.place(*destination)));
                o.push(("to", J::A(target.iter().map(|b| bb(b)).collect())));
                let _ = fn_span;
            }
            TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                k!("Assert");
                o.push(("c", self.op(cond)));
                o.push(("exp", J::B(*expected)));
                let (name, ops): (String, Vec<J>) = match &**msg {
                    AssertKind::BoundsCheck { len, index } => ("BoundsCheck".into(), vec![self.op(len), self.op(index)]),
                    AssertKind::Overflow(op, l, r) => (format!("Overflow:{:?}", op), vec![self.op(l), self.op(r)]),
                    AssertKind::OverflowNeg(x) => ("OverflowNeg".into(), vec![self.op(x)]),
                    AssertKind::DivisionByZero(x) => ("DivisionByZero".into(), vec![self.op(x)]),
                    AssertKind::RemainderByZero(x) => ("RemainderByZero".into(), vec![self.op(x)]),
                    other => (format!("{:?}", other).split('(').next().unwrap().to_string(), vec![]),
                };
                o.push(("msg", J::S(name)));
                o.push(("a", J::A(ops)));
                o.push(("to", J::A(vec![bb(target)])));
            }
            other => {
                k!("Other");
                o.push(("d", J::S(format!("{:?}", other))));
                o.push(("to", J::A(t.successors().map(|b| bb(&b)).collect())));
            }
        }
        let _ = scalar_j;
        o.push(("sp", span_j(self.tcx, t.source_info.span)));
        J::O(o)
    }
}

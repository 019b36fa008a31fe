use crate::json::J;
use crate::{fn_ref, id_of, path_of, span_j, ty_str};
use rustc_hir::def_id::{DefId, LocalDefId};
use rustc_middle::thir::*;
use rustc_middle::ty::{self, Ty, TyCtxt};

pub fn const_value(tcx: TyCtxt<'_>, d: DefId) -> J {
    if tcx.generics_of(d).own_requires_monomorphization() || tcx.generics_of(d).parent_count > 0 && tcx.generics_of(d).requires_monomorphization(tcx) {
        return J::Null;
    }
    let Ok(v) = tcx.const_eval_poly(d) else { return J::Null };
    let t = tcx.type_of(d).instantiate_identity().skip_norm_wip();
    const_val_j(tcx, v, t)
}

pub fn const_val_j<'tcx>(tcx: TyCtxt<'tcx>, v: rustc_middle::mir::ConstValue, t: Ty<'tcx>) -> J {
    if let ty::Ref(_, inner, _) = t.kind() {
        if inner.is_str() {
            if let Some(b) = v.try_get_slice_bytes_for_diagnostics(tcx) {
                return J::S(String::from_utf8_lossy(b).to_string());
            }
        }
    }
    if let ty::Adt(def, _) = t.kind() {
        if let Some(c) = tcx.try_destructure_mir_constant_for_user_output(v, t) {
            let var = match c.variant {
                Some(i) => def.variant(i),
                None => return J::Null,
            };
            return J::O(vec![
                ("adt", J::S(path_of(tcx, def.did()))),
                ("variant", J::S(var.name.to_string())),
                (
                    "fields",
                    J::A(var.fields.iter().zip(c.fields).map(|(f, (fv, ft))| J::A(vec![J::S(f.name.to_string()), const_val_j(tcx, *fv, *ft)])).collect()),
                ),
            ]);
        }
        return J::Null;
    }
    if let Some(s) = v.try_to_scalar_int() {
        return scalar_j(s, t);
    }
    J::Null
}

pub fn scalar_j(s: ty::ScalarInt, t: Ty<'_>) -> J {
    let size = s.size();
    match t.kind() {
        ty::Bool => J::B(s.to_bits(size) != 0),
        ty::Int(_) => J::I(s.to_int(size)),
        ty::Char => J::S(char::from_u32(s.to_bits(size) as u32).map(|c| c.to_string()).unwrap_or_default()),
        _ => J::I(s.to_bits(size) as i128),
    }
}

struct D<'a, 'tcx> {
    tcx: TyCtxt<'tcx>,
    t: &'a Thir<'tcx>,
    env: ty::TypingEnv<'tcx>,
}

pub fn dump(tcx: TyCtxt<'_>, d: LocalDefId) -> J {
    let Ok((thir, root)) = tcx.thir_body(d) else { return J::Null };
    let thir = thir.borrow();
    if thir.exprs.is_empty() {
        return J::Null;
    }
    let env = ty::TypingEnv::post_analysis(tcx, d.to_def_id());
    let dd = D { tcx, t: &thir, env };
    let params = thir
        .params
        .iter()
        .map(|p| {
            J::O(vec![
                ("ty", J::S(ty_str(p.ty))),
                ("pat", p.pat.as_ref().map(|p| dd.pat(p)).unwrap_or(J::Null)),
            ])
        })
        .collect();
    J::O(vec![("params", J::A(params)), ("body", dd.expr(root))])
}

impl<'a, 'tcx> D<'a, 'tcx> {
    fn exprs(&self, v: &[ExprId]) -> J {
        J::A(v.iter().map(|e| self.expr(*e)).collect())
    }
    fn var(&self, id: LocalVarId) -> J {
        J::S(format!("{}.{}", self.tcx.hir_name(id.0), id.0.local_id.as_u32()))
    }
    fn block(&self, b: BlockId) -> Vec<(&'static str, J)> {
        let b = &self.t.blocks[b];
        let mut st = vec![];
        for s in b.stmts.iter() {
            match &self.t.stmts[*s].kind {
                StmtKind::Expr { expr, .. } => st.push(J::O(vec![("k", J::s("S")), ("e", self.expr(*expr))])),
                StmtKind::Let { pattern, initializer, else_block, .. } => {
                    let mut o = vec![("k", J::s("Let")), ("pat", self.pat(pattern))];
                    if let Some(i) = initializer {
                        o.push(("init", self.expr(*i)));
                    }
                    if let Some(e) = else_block {
                        let mut v = vec![("k", J::s("Block"))];
                        v.extend(self.block(*e));
                        o.push(("else", J::O(v)));
                    }
                    st.push(J::O(o));
                }
            }
        }
        vec![("st", J::A(st)), ("e", b.expr.map(|e| self.expr(e)).unwrap_or(J::Null))]
    }
    fn expr(&self, id: ExprId) -> J {
        let e = &self.t.exprs[id];
        let mut o: Vec<(&'static str, J)> = vec![];
        macro_rules! k { ($s:expr) => { o.push(("k", J::s($s))) }; }
        match &e.kind {
            ExprKind::Scope { value, .. } => return self.expr(*value),
            ExprKind::NeverToAny { source }
            | ExprKind::PlaceTypeAscription { source, .. }
            | ExprKind::ValueTypeAscription { source, .. }
            | ExprKind::ValueExpr { source } => return self.expr(*source),
            ExprKind::PointerCoercion { source, cast, .. } => {
                k!("Coerce");
                o.push(("c", J::S(format!("{:?}", cast))));
                o.push(("e", self.expr(*source)));
            }
            ExprKind::If { cond, then, else_opt, .. } => {
                k!("If");
                o.push(("c", self.expr(*cond)));
                o.push(("t", self.expr(*then)));
                o.push(("f", else_opt.map(|e| self.expr(e)).unwrap_or(J::Null)));
            }
            ExprKind::Call { ty, fun, args, from_hir_call, .. } => {
                k!("Call");
                if let ty::FnDef(d, ga) = ty.kind() {
                    o.push(("fn", fn_ref(self.tcx, self.env, *d, ga.no_bound_vars().unwrap())));
                } else {
                    o.push(("fe", self.expr(*fun)));
                }
                if !*from_hir_call {
                    o.push(("op", J::B(true)));
                }
                o.push(("a", self.exprs(args)));
            }
            ExprKind::ByUse { expr, .. } => return self.expr(*expr),
            ExprKind::Deref { arg } => {
                k!("Deref");
                o.push(("e", self.expr(*arg)));
            }
            ExprKind::Binary { op, lhs, rhs } => {
                k!("Bin");
                o.push(("op", J::S(format!("{:?}", op))));
                o.push(("l", self.expr(*lhs)));
                o.push(("r", self.expr(*rhs)));
            }
            ExprKind::LogicalOp { op, lhs, rhs } => {
                k!("Logic");
                o.push(("op", J::S(format!("{:?}", op))));
                o.push(("l", self.expr(*lhs)));
                o.push(("r", self.expr(*rhs)));
            }
            ExprKind::Unary { op, arg } => {
                k!("Un");
                o.push(("op", J::S(format!("{:?}", op))));
                o.push(("e", self.expr(*arg)));
            }
            ExprKind::Cast { source } => {
                k!("Cast");
                o.push(("e", self.expr(*source)));
            }
            ExprKind::Loop { body } => {
                k!("Loop");
                o.push(("e", self.expr(*body)));
            }
            ExprKind::Let { expr, pat } => {
                k!("LetE");
                o.push(("e", self.expr(*expr)));
                o.push(("pat", self.pat(pat)));
            }
            ExprKind::Match { scrutinee, arms, match_source } => {
                k!("Match");
                o.push(("src", J::S(format!("{:?}", match_source).split('(').next().unwrap().to_string())));
                o.push(("e", self.expr(*scrutinee)));
                let arms = arms
                    .iter()
                    .map(|a| {
                        let a = &self.t.arms[*a];
                        J::O(vec![
                            ("pat", self.pat(&a.pattern)),
                            ("g", a.guard.map(|g| self.expr(g)).unwrap_or(J::Null)),
                            ("b", self.expr(a.body)),
                            ("sp", span_j(self.tcx, a.span)),
                        ])
                    })
                    .collect();
                o.push(("arms", J::A(arms)));
            }
            ExprKind::Block { block } => {
                k!("Block");
                o.extend(self.block(*block));
            }
            ExprKind::Assign { lhs, rhs } => {
                k!("Assign");
                o.push(("l", self.expr(*lhs)));
                o.push(("r", self.expr(*rhs)));
            }
            ExprKind::AssignOp { op, lhs, rhs } => {
                k!("AssignOp");
                o.push(("op", J::S(format!("{:?}", op))));
                o.push(("l", self.expr(*lhs)));
                o.push(("r", self.expr(*rhs)));
            }
            ExprKind::Field { lhs, variant_index, name } => {
                k!("Field");
                let lt = self.t.exprs[*lhs].ty;
                if let ty::Adt(a, _) = lt.kind() {
                    let v = &a.variants()[*variant_index];
                    o.push(("f", J::S(v.fields[*name].name.to_string())));
                    o.push(("adt", J::S(path_of(self.tcx, a.did()))));
                } else {
                    o.push(("f", J::S(name.as_u32().to_string())));
                }
                o.push(("e", self.expr(*lhs)));
            }
            ExprKind::Index { lhs, index } => {
                k!("Index");
                o.push(("l", self.expr(*lhs)));
                o.push(("i", self.expr(*index)));
            }
            ExprKind::VarRef { id } => {
                k!("Var");
                o.push(("v", self.var(*id)));
            }
            ExprKind::UpvarRef { var_hir_id, .. } => {
                k!("Var");
                o.push(("v", self.var(*var_hir_id)));
                o.push(("up", J::B(true)));
            }
            ExprKind::Borrow { arg, borrow_kind } => {
                k!("Ref");
                if !matches!(borrow_kind, rustc_middle::mir::BorrowKind::Shared) {
                    o.push(("mut", J::B(true)));
                }
                o.push(("e", self.expr(*arg)));
            }
            ExprKind::RawBorrow { arg, .. } => {
                k!("RawRef");
                o.push(("e", self.expr(*arg)));
            }
            ExprKind::Break { value, .. } => {
                k!("Break");
                o.push(("e", value.map(|e| self.expr(e)).unwrap_or(J::Null)));
            }
            ExprKind::Continue { .. } => k!("Continue"),
            ExprKind::Return { value } => {
                k!("Return");
                o.push(("e", value.map(|e| self.expr(e)).unwrap_or(J::Null)));
            }
            ExprKind::Repeat { value, count } => {
                k!("Repeat");
                o.push(("e", self.expr(*value)));
                o.push(("n", J::S(format!("{}", count))));
            }
            ExprKind::Array { fields } => {
                k!("Array");
                o.push(("a", self.exprs(fields)));
            }
            ExprKind::Tuple { fields } => {
                k!("Tuple");
                o.push(("a", self.exprs(fields)));
            }
            ExprKind::Adt(a) => {
                k!("Adt");
                let v = &a.adt_def.variants()[a.variant_index];
                o.push(("adt", J::S(path_of(self.tcx, a.adt_def.did()))));
                o.push(("v", J::S(v.name.to_string())));
                let f = a
                    .fields
                    .iter()
                    .map(|f| J::A(vec![J::S(v.fields[f.name].name.to_string()), self.expr(f.expr)]))
                    .collect();
                o.push(("f", J::A(f)));
                if let AdtExprBase::Base(b) = &a.base {
                    o.push(("base", self.expr(b.base)));
                }
            }
            ExprKind::Closure(c) => {
                k!("Closure");
                o.push(("id", J::S(id_of(self.tcx, c.closure_id.to_def_id()))));
                o.push(("up", self.exprs(&c.upvars)));
            }
            ExprKind::Literal { lit, neg } => {
                k!("Lit");
                use rustc_ast::LitKind::*;
                let v = match &lit.node {
                    Str(s, _) => J::S(s.to_string()),
                    ByteStr(b, _) | CStr(b, _) => {
                        o.push(("bytes", J::B(true)));
                        J::A(b.as_byte_str().iter().map(|b| J::I(*b as i128)).collect())
                    }
                    Byte(b) => J::I(*b as i128),
                    Char(c) => {
                        o.push(("char", J::B(true)));
                        J::S(c.to_string())
                    }
                    Int(i, _) => {
                        let x = i.get() as i128;
                        J::I(if *neg { -x } else { x })
                    }
                    Float(s, _) => {
                        o.push(("float", J::B(true)));
                        J::S(format!("{}{}", if *neg { "-" } else { "" }, s))
                    }
                    Bool(b) => J::B(*b),
                    Err(_) => J::Null,
                };
                o.push(("v", v));
            }
            ExprKind::NonHirLiteral { lit, .. } => {
                k!("Lit");
                o.push(("v", scalar_j(*lit, e.ty)));
            }
            ExprKind::ZstLiteral { .. } => {
                k!("Fn");
                match e.ty.kind() {
                    ty::FnDef(d, ga) => o.push(("fn", fn_ref(self.tcx, self.env, *d, ga.no_bound_vars().unwrap()))),
                    _ => {}
                }
            }
            ExprKind::NamedConst { def_id, args, .. } => {
                k!("Const");
                o.push(("id", J::S(id_of(self.tcx, *def_id))));
                o.push(("p", J::S(path_of(self.tcx, *def_id))));
                // Evaluate with the actual generic arguments (associated consts).
                let uv = rustc_middle::mir::UnevaluatedConst { def: *def_id, args: self.tcx.erase_and_anonymize_regions(*args), promoted: None };
                let _ = &uv;
                if let Ok(v) = self.tcx.const_eval_resolve(self.env, uv, rustc_span::DUMMY_SP) {
                    o.push(("v", const_val_j(self.tcx, v, e.ty)));
                }
                let a: Vec<J> = args.iter().filter_map(|g| g.as_type()).map(|t| J::S(ty_str(t))).collect();
                o.push(("ga", J::A(a)));
            }
            ExprKind::ConstParam { param, .. } => {
                k!("ConstParam");
                o.push(("name", J::S(param.name.to_string())));
            }
            ExprKind::ConstBlock { .. } => k!("ConstBlock"),
            ExprKind::StaticRef { def_id, .. } => {
                k!("Static");
                o.push(("id", J::S(id_of(self.tcx, *def_id))));
                o.push(("p", J::S(path_of(self.tcx, *def_id))));
            }
            ExprKind::ThreadLocalRef(_) => k!("Tls"),
            other => {
                k!("Other");
                o.push(("d", J::S(format!("{:?}", other))));
            }
        }
        o.push(("ty", J::S(ty_str(e.ty))));
        o.push(("sp", span_j(self.tcx, e.span)));
        J::O(o)
    }

    fn fields(&self, v: &[FieldPat<'tcx>], names: Option<&ty::VariantDef>) -> J {
        J::A(
            v.iter()
                .map(|f| {
                    let n = match names {
                        Some(v) => v.fields[f.field].name.to_string(),
                        None => f.field.as_u32().to_string(),
                    };
                    J::A(vec![J::S(n), self.pat(&f.pattern)])
                })
                .collect(),
        )
    }

    fn pat(&self, p: &Pat<'tcx>) -> J {
        let mut o: Vec<(&'static str, J)> = vec![];
        macro_rules! k { ($s:expr) => { o.push(("k", J::s($s))) }; }
        match &p.kind {
            PatKind::Wild | PatKind::Missing | PatKind::Never => k!("_"),
            PatKind::Binding { var, subpattern, .. } => {
                k!("Bind");
                o.push(("v", self.var(*var)));
                if let Some(s) = subpattern {
                    o.push(("p", self.pat(s)));
                }
            }
            PatKind::Variant { adt_def, variant_index, subpatterns, .. } => {
                k!("Variant");
                let v = &adt_def.variants()[*variant_index];
                o.push(("adt", J::S(path_of(self.tcx, adt_def.did()))));
                o.push(("v", J::S(v.name.to_string())));
                o.push(("f", self.fields(subpatterns, Some(v))));
            }
            PatKind::Leaf { subpatterns } => {
                k!("Leaf");
                let names = match p.ty.kind() {
                    ty::Adt(a, _) if a.is_struct() => {
                        o.push(("adt", J::S(path_of(self.tcx, a.did()))));
                        Some(a.non_enum_variant())
                    }
                    ty::Adt(a, _) if a.is_enum() => {
                        o.push(("adt", J::S(path_of(self.tcx, a.did()))));
                        Some(&a.variants()[rustc_abi::VariantIdx::from_u32(0)])
                    }
                    _ => None,
                };
                o.push(("f", self.fields(subpatterns, names)));
            }
            PatKind::Deref { subpattern, .. } | PatKind::DerefPattern { subpattern, .. } => return self.pat(subpattern),
            PatKind::Constant { value } => {
                k!("Const");
                let j = match value.ty.kind() {
                    ty::Ref(_, i, _) if i.is_str() => match value.try_to_raw_bytes(self.tcx) {
                        Some(b) => J::S(String::from_utf8_lossy(b).to_string()),
                        None => J::Null,
                    },
                    ty::Str => {
                        let r = ty::Value { ty: Ty::new_static_str(self.tcx), valtree: value.valtree };
                        match r.try_to_raw_bytes(self.tcx) {
                            Some(b) => J::S(String::from_utf8_lossy(b).to_string()),
                            None => J::Null,
                        }
                    }
                    _ => match value.try_to_leaf() {
                        Some(s) => scalar_j(s, value.ty),
                        None => J::S(format!("{:?}", value)),
                    },
                };
                o.push(("v", j));
            }
            PatKind::Range(r) => {
                k!("Range");
                o.push(("d", J::S(format!("{}", r))));
            }
            PatKind::Slice { prefix, slice, suffix } | PatKind::Array { prefix, slice, suffix } => {
                k!("Slice");
                o.push(("pre", J::A(prefix.iter().map(|p| self.pat(p)).collect())));
                o.push(("mid", slice.as_ref().map(|p| self.pat(p)).unwrap_or(J::Null)));
                o.push(("suf", J::A(suffix.iter().map(|p| self.pat(p)).collect())));
            }
            PatKind::Or { pats } => {
                k!("Or");
                o.push(("a", J::A(pats.iter().map(|p| self.pat(p)).collect())));
            }
            _ => k!("Other"),
        }
        o.push(("ty", J::S(ty_str(p.ty))));
        J::O(o)
    }
}

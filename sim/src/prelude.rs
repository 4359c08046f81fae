//! The reference's own version of `data/scripts/prelude.dm`: the machine runs the real file, the evaluator runs this program.
use crate::ast::*;
use crate::world::*;
use std::rc::Rc;

struct Pb {
    p: Program,
}

fn b(e: E) -> Box<E> {
    Box::new(e)
}

fn ty(name: &'static str, nullable: bool) -> Option<TyRef> {
    Some(TyRef { name: TyName::Global(name), nullable })
}

fn set_field(o: VarId, name: &str, v: E) -> S {
    S::Expr(E::AssignField(b(E::Var(o)), name.into(), AOp::Set, b(v)))
}

impl Pb {
    fn var(&mut self, n: &str) -> VarId {
        self.p.vars.push(VarInfo { name: n.into(), mutable: true });
        self.p.vars.len() as VarId - 1
    }

    fn func(&self, name: &str, kind: FnKind, params: Vec<(VarId, Option<TyRef>)>, ret: Option<TyRef>, stmts: Vec<S>) -> Rc<FnDef> {
        let body = Blk { stmts };
        let free = free_vars(&params, &ret, &body);
        Rc::new(FnDef { name: name.into(), params, ret, kind, body, bare: false, free })
    }

    fn range(&mut self, name: &str, op: Op) -> (VarId, S) {
        let var = self.var(name);
        let super_var = self.var("super");
        let (s, st, en) = (self.var("self"), self.var("start"), self.var("end"));
        let new = self.func(
            "new",
            FnKind::Ctor,
            vec![(s, None), (st, None), (en, None)],
            None,
            vec![set_field(s, "start", E::Var(st)), set_field(s, "end", E::Var(en))],
        );
        let s = self.var("self");
        let cur = self.var("current");
        let res = self.var("result");
        let yes = E::Obj(vec![("value".into(), E::Var(cur)), ("is_done".into(), E::Bool(false))]);
        let no = E::Obj(vec![("is_done".into(), E::Bool(true))]);
        let cond = E::Bin(op, b(E::Var(cur)), b(E::Field(b(E::Var(s)), "end".into())));
        let next = self.func(
            "",
            FnKind::Anon,
            vec![],
            None,
            vec![
                S::Let(
                    res,
                    E::If(b(cond), Blk { stmts: vec![S::Expr(yes)] }, Some(b(E::Block(Blk { stmts: vec![S::Expr(no)] })))),
                ),
                S::Expr(E::Assign(cur, AOp::Add, b(E::Int(1)))),
                S::Expr(E::Var(res)),
            ],
        );
        let iter = self.func(
            "iter",
            FnKind::Method,
            vec![(s, None)],
            None,
            vec![
                S::Let(cur, E::Field(b(E::Var(s)), "start".into())),
                S::Expr(E::Obj(vec![("next".into(), E::Fn(next))])),
            ],
        );
        let class = ClassDef { var, super_var, base: None, items: vec![ClassItem::Fn(new), ClassItem::Fn(iter)] };
        (var, S::Export(Box::new(S::Class(Rc::new(class)))))
    }

    fn range_op(&mut self, op: Op, class: VarId) -> S {
        let (st, en) = (self.var("start"), self.var("end"));
        let call = E::Call(b(E::Var(class)), vec![E::Var(st), E::Var(en)]);
        S::Op(op, self.func(op.method(), FnKind::Named, vec![(st, None), (en, None)], None, vec![S::Expr(call)]))
    }

    fn derived(&mut self, var: VarId, base: VarId, ok: bool) -> S {
        let super_var = self.var("super");
        let (s, r) = (self.var("self"), self.var("result"));
        let call = E::SuperCall { super_: super_var, self_: s, args: vec![E::Bool(ok), E::Var(r)] };
        let new = self.func("new", FnKind::Ctor, vec![(s, None), (r, None)], None, vec![S::Expr(call)]);
        S::Export(Box::new(S::Class(Rc::new(ClassDef { var, super_var, base: Some(E::Var(base)), items: vec![ClassItem::Fn(new)] }))))
    }
}

pub const NAME: &str = "prelude";

pub fn program() -> Program {
    let mut p = Pb { p: Program::default() };
    let mut stmts = Vec::new();
    let (range, s) = p.range("Range", Op::Lt);
    stmts.push(s);
    let (range_in, s) = p.range("RangeInclusive", Op::Lte);
    stmts.push(s);
    let s = p.range_op(Op::RangeEx, range);
    stmts.push(s);
    let s = p.range_op(Op::RangeIn, range_in);
    stmts.push(s);

    let result = p.var("Result");
    let ok = p.var("Ok");
    let err = p.var("Err");
    let super_var = p.var("super");
    let (s, i, r) = (p.var("self"), p.var("is_ok"), p.var("result"));
    let new = p.func(
        "new",
        FnKind::Ctor,
        vec![(s, None), (i, ty("Bool", false)), (r, ty("Any", true))],
        None,
        vec![set_field(s, "is_ok", E::Var(i)), set_field(s, "result", E::Var(r))],
    );
    let (s, f) = (p.var("self"), p.var("map_fn"));
    let payload = || E::Field(b(E::Var(s)), "result".into());
    let yes = E::Call(b(E::Var(ok)), vec![E::Call(b(E::Var(f)), vec![payload()])]);
    let no = E::Call(b(E::Var(err)), vec![payload()]);
    let cond = E::Field(b(E::Var(s)), "is_ok".into());
    let map = p.func(
        "map",
        FnKind::Method,
        vec![(s, None), (f, ty("Function", false))],
        Some(TyRef { name: TyName::Var(result), nullable: false }),
        vec![S::Expr(E::If(
            b(cond),
            Blk { stmts: vec![S::Expr(yes)] },
            Some(b(E::Block(Blk { stmts: vec![S::Expr(no)] }))),
        ))],
    );
    stmts.push(S::Export(Box::new(S::Class(Rc::new(ClassDef {
        var: result,
        super_var,
        base: None,
        items: vec![ClassItem::Fn(new), ClassItem::Fn(map)],
    })))));
    let s = p.derived(ok, result, true);
    stmts.push(s);
    let s = p.derived(err, result, false);
    stmts.push(s);
    let (roll, e) = (p.var("roll"), p.var("expression"));
    let f = p.func("roll", FnKind::Named, vec![(e, ty("String", false))], None, vec![S::Expr(E::Var(e))]);
    stmts.push(S::Export(Box::new(S::Fn(roll, f))));
    p.p.modules.push((NAME.to_string(), Blk { stmts }));
    p.p
}

/// Runs the prelude in an engine and makes its exports global.
pub fn install(eng: &mut dyn Engine) -> Result<(), Fail> {
    let w = eng.w();
    let class = w.module_class;
    let export = w.object(class);
    eng.run_module(NAME, export.clone())?;
    let w = eng.w();
    for (k, v) in w.fields_of(&export) {
        w.globals.entry(k).or_insert(v);
    }
    Ok(())
}

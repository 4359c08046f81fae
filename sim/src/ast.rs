//! The abstract programs that the reference evaluator runs and the renderer turns into source text. Variables are resolved
//! by construction (`VarId`), so the reference never depends on how names are looked up in the text.
use std::rc::Rc;

pub type VarId = u32;

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Op {
    Mul,
    Div,
    Rem,
    Add,
    Sub,
    Gt,
    Gte,
    Lt,
    Lte,
    Eq,
    Neq,
    RangeEx,
    RangeIn,
}

impl Op {
    pub fn symbol(self) -> &'static str {
        match self {
            Op::Mul => "*",
            Op::Div => "/",
            Op::Rem => "%",
            Op::Add => "+",
            Op::Sub => "-",
            Op::Gt => ">",
            Op::Gte => ">=",
            Op::Lt => "<",
            Op::Lte => "<=",
            Op::Eq => "==",
            Op::Neq => "!=",
            Op::RangeEx => "..",
            Op::RangeIn => "..=",
        }
    }
    pub fn method(self) -> &'static str {
        match self {
            Op::Mul => "#mul",
            Op::Div => "#div",
            Op::Rem => "#rem",
            Op::Add => "#add",
            Op::Sub => "#sub",
            Op::Gt => "#gt",
            Op::Gte => "#gte",
            Op::Lt => "#lt",
            Op::Lte => "#lte",
            Op::Eq => "#eq",
            Op::Neq => "#neq",
            Op::RangeEx => "#range_exclusive",
            Op::RangeIn => "#range_inclusive",
        }
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum AOp {
    Set,
    Mul,
    Div,
    Add,
    Sub,
}

impl AOp {
    pub fn symbol(self) -> &'static str {
        match self {
            AOp::Set => "=",
            AOp::Mul => "*=",
            AOp::Div => "/=",
            AOp::Add => "+=",
            AOp::Sub => "-=",
        }
    }
    pub fn op(self) -> Option<Op> {
        match self {
            AOp::Set => None,
            AOp::Mul => Some(Op::Mul),
            AOp::Div => Some(Op::Div),
            AOp::Add => Some(Op::Add),
            AOp::Sub => Some(Op::Sub),
        }
    }
}

#[derive(Clone, Debug)]
pub enum TyName {
    Global(&'static str),
    Var(VarId),
}

#[derive(Clone, Debug)]
pub struct TyRef {
    pub name: TyName,
    pub nullable: bool,
}

pub type B<T> = Box<T>;

#[derive(Clone, Debug)]
pub enum E {
    Unit,
    Null,
    Bool(bool),
    Int(i64),
    Float(f64),
    Str(String),
    Var(VarId),
    Global(&'static str),
    Assign(VarId, AOp, B<E>),
    AssignField(B<E>, String, AOp, B<E>),
    AssignIndex(B<E>, B<E>, AOp, B<E>),
    Neg(B<E>),
    Not(B<E>),
    Bin(Op, B<E>, B<E>),
    And(B<E>, B<E>),
    Or(B<E>, B<E>),
    Coalesce(B<E>, B<E>),
    Pipe(B<E>, B<E>),
    Is(B<E>, TyRef),
    If(B<E>, Blk, Option<B<E>>),
    Block(Blk),
    Fn(Rc<FnDef>),
    List(Vec<E>),
    Obj(Vec<(String, E)>),
    Call(B<E>, Vec<E>),
    Field(B<E>, String),
    Index(B<E>, B<E>),
    NullP(B<E>),
    ErrP(B<E>),
    OrH(B<E>, VarId, Blk),
    SuperAcc { super_: VarId, explicit: bool, self_: VarId, name: String },
    SuperCall { super_: VarId, self_: VarId, args: Vec<E> },
}

#[derive(Clone, Debug, Default)]
pub struct Blk {
    pub stmts: Vec<S>,
}

#[derive(Clone, Debug)]
pub enum S {
    Expr(E),
    Let(VarId, E),
    LetDestr(Vec<VarId>, E),
    Fn(VarId, Rc<FnDef>),
    Class(Rc<ClassDef>),
    Op(Op, Rc<FnDef>),
    Import { star: Option<VarId>, items: Vec<VarId>, path: String },
    Export(B<S>),
    ExportVar(VarId),
    Loop(Blk),
    While(E, Blk),
    For(VarId, E, Blk),
    Return(Option<E>),
    Break,
    Continue,
    /// Source text, as tokens between blanks: something that is not a program.
    Raw(String),
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum FnKind {
    Named,
    Anon,
    Method,
    Ctor,
    Static,
}

#[derive(Debug)]
pub struct FnDef {
    pub name: String,
    pub params: Vec<(VarId, Option<TyRef>)>,
    pub ret: Option<TyRef>,
    pub kind: FnKind,
    pub body: Blk,
    /// The body is written as a bare expression (anonymous functions only).
    pub bare: bool,
    /// Variables of enclosing functions that the body (or a function inside it) uses.
    pub free: Vec<VarId>,
}

#[derive(Debug)]
pub struct ClassDef {
    pub var: VarId,
    pub super_var: VarId,
    pub base: Option<E>,
    pub items: Vec<ClassItem>,
}

#[derive(Debug)]
pub enum ClassItem {
    Fn(Rc<FnDef>),
    Op(Op, Rc<FnDef>),
}

#[derive(Clone, Debug)]
pub struct VarInfo {
    pub name: String,
    pub mutable: bool,
}

#[derive(Debug, Default)]
pub struct Program {
    /// The constructs with many parts, and how many.
    pub wide: Vec<(Wide, u32)>,
    pub vars: Vec<VarInfo>,
    /// Modules are compiled as modules, in the order of the vector; the last entry of the program is the main script.
    pub modules: Vec<(String, Blk)>,
    pub main: Blk,
    /// Seed of the source formatting; 0 is the canonical layout.
    pub layout: u64,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Wide {
    List,
    Args,
    Locals,
    Captures,
    Consts,
    Jump,
    Nest,
}

/// Computes the variables a function body uses that are declared outside of it.
pub fn free_vars(params: &[(VarId, Option<TyRef>)], ret: &Option<TyRef>, body: &Blk) -> Vec<VarId> {
    let mut w = Free { used: Vec::new(), bound: Vec::new() };
    for (v, t) in params {
        w.bound.push(*v);
        if let Some(t) = t {
            w.ty(t);
        }
    }
    if let Some(t) = ret {
        w.ty(t);
    }
    w.blk(body);
    let bound = w.bound;
    let mut out: Vec<VarId> = w.used.into_iter().filter(|v| !bound.contains(v)).collect();
    out.sort();
    out.dedup();
    out
}

struct Free {
    used: Vec<VarId>,
    bound: Vec<VarId>,
}

impl Free {
    fn ty(&mut self, t: &TyRef) {
        if let TyName::Var(v) = t.name {
            self.used.push(v);
        }
    }
    fn blk(&mut self, b: &Blk) {
        for s in &b.stmts {
            self.s(s);
        }
    }
    fn func(&mut self, f: &FnDef) {
        self.used.extend(f.free.iter().copied());
    }
    fn s(&mut self, s: &S) {
        match s {
            S::Expr(e) => self.e(e),
            S::Let(v, e) => {
                self.e(e);
                self.bound.push(*v);
            }
            S::LetDestr(vs, e) => {
                self.e(e);
                self.bound.extend(vs.iter().copied());
            }
            S::Fn(v, f) => {
                self.bound.push(*v);
                self.func(f);
            }
            S::Class(c) => {
                self.bound.push(c.var);
                self.bound.push(c.super_var);
                if let Some(b) = &c.base {
                    self.e(b);
                }
                for i in &c.items {
                    match i {
                        ClassItem::Fn(f) | ClassItem::Op(_, f) => self.func(f),
                    }
                }
            }
            S::Op(_, f) => self.func(f),
            S::Import { star, items, .. } => {
                self.bound.extend(star.iter().copied());
                self.bound.extend(items.iter().copied());
            }
            S::Export(s) => self.s(s),
            S::ExportVar(v) => self.used.push(*v),
            S::Loop(b) => self.blk(b),
            S::While(c, b) => {
                self.e(c);
                self.blk(b);
            }
            S::For(v, e, b) => {
                self.e(e);
                self.bound.push(*v);
                self.blk(b);
            }
            S::Return(Some(e)) => self.e(e),
            S::Return(None) | S::Break | S::Continue | S::Raw(_) => {}
        }
    }
    fn e(&mut self, e: &E) {
        match e {
            E::Unit | E::Null | E::Bool(_) | E::Int(_) | E::Float(_) | E::Str(_) | E::Global(_) => {}
            E::Var(v) => self.used.push(*v),
            E::Assign(v, _, r) => {
                self.used.push(*v);
                self.e(r);
            }
            E::AssignField(o, _, _, r) => {
                self.e(o);
                self.e(r);
            }
            E::AssignIndex(o, i, _, r) => {
                self.e(o);
                self.e(i);
                self.e(r);
            }
            E::Neg(a) | E::Not(a) | E::Field(a, _) | E::NullP(a) | E::ErrP(a) => self.e(a),
            E::Bin(_, a, b) | E::And(a, b) | E::Or(a, b) | E::Coalesce(a, b) | E::Pipe(a, b) | E::Index(a, b) => {
                self.e(a);
                self.e(b);
            }
            E::Is(a, t) => {
                self.e(a);
                self.ty(t);
            }
            E::If(c, b, els) => {
                self.e(c);
                self.blk(b);
                if let Some(els) = els {
                    self.e(els);
                }
            }
            E::Block(b) => self.blk(b),
            E::Fn(f) => self.func(f),
            E::List(items) => items.iter().for_each(|i| self.e(i)),
            E::Obj(items) => items.iter().for_each(|(_, i)| self.e(i)),
            E::Call(c, args) => {
                self.e(c);
                args.iter().for_each(|i| self.e(i));
            }
            E::OrH(a, v, b) => {
                self.e(a);
                self.bound.push(*v);
                self.blk(b);
            }
            E::SuperAcc { super_, self_, .. } => {
                self.used.push(*super_);
                self.used.push(*self_);
            }
            E::SuperCall { super_, self_, args } => {
                self.used.push(*super_);
                self.used.push(*self_);
                args.iter().for_each(|i| self.e(i));
            }
        }
    }
}

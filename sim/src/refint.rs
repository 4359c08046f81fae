//! The reference evaluator: a tree walker over the abstract program. It never sees the program's text and shares nothing with
//! the code under test; variables are cells, and every execution of a declaration makes a new one.
use crate::ast::*;
use crate::world::*;
use std::cell::RefCell;
use std::rc::Rc;

pub enum Flow {
    Fail(Fail),
    Return(V),
    Break,
    Continue,
    NullExit,
}

impl From<Fail> for Flow {
    fn from(f: Fail) -> Self {
        Flow::Fail(f)
    }
}

type X = Result<V, Flow>;

struct Frame {
    vars: Vec<(VarId, Cell)>,
    ret: Option<TyRef>,
    ctor_self: Option<VarId>,
    export: V,
}

pub struct RefEngine<'p> {
    pub world: World,
    prog: &'p Program,
    budget: u64,
    /// A module that is rejected when it is loaded, with the error code.
    pub broken: Option<(String, String)>,
    frames: Vec<Frame>,
    /// Coverage of the run: which kinds of control flow were taken.
    pub reached: u64,
}

impl<'p> RefEngine<'p> {
    pub fn new(world: World, prog: &'p Program, budget: u64) -> Self {
        RefEngine { world, prog, budget, broken: None, frames: Vec::new(), reached: 0 }
    }

    fn frame(&mut self) -> &mut Frame {
        self.frames.last_mut().unwrap()
    }

    fn bind(&mut self, v: VarId, value: V) {
        self.frame().vars.push((v, Rc::new(RefCell::new(value))));
    }

    fn cell(&mut self, v: VarId) -> Result<Cell, Fail> {
        match self.frame().vars.iter().rev().find(|(id, _)| *id == v) {
            Some((_, c)) => Ok(c.clone()),
            None => Err(Fail::Mon(format!("reference: variable {} {} is not bound", v, self.prog.vars[v as usize].name))),
        }
    }

    fn ty(&mut self, t: &TyRef) -> R {
        match t.name {
            TyName::Global(n) => self.world.global(n),
            TyName::Var(v) => Ok(self.cell(v)?.borrow().clone()),
        }
    }

    pub fn run_main(&mut self, main: &Blk) -> R {
        self.toplevel(main, V::Null)
    }

    fn toplevel(&mut self, b: &Blk, export: V) -> R {
        self.frames.push(Frame { vars: Vec::new(), ret: None, ctor_self: None, export });
        let r = self.blk(b);
        self.frames.pop();
        match r {
            Ok(v) => Ok(v),
            Err(Flow::Fail(f)) => Err(f),
            Err(_) => Err(Fail::Mon("reference: control flow left the program".into())),
        }
    }

    fn invoke(&mut self, def: &FnDef, env: &[(VarId, Cell)], this: V, args: &[V]) -> R {
        if self.world.depth >= DEPTH_LIMIT {
            return code("DEPTH");
        }
        self.world.depth += 1;
        self.world.started += 1;
        let method = matches!(def.kind, FnKind::Method | FnKind::Ctor);
        let mut vars: Vec<(VarId, Cell)> = env.to_vec();
        for (i, (v, _)) in def.params.iter().enumerate() {
            let value = if method && i == 0 { this.clone() } else { args.get(i - method as usize).cloned().unwrap_or(V::Null) };
            vars.push((*v, Rc::new(RefCell::new(value))));
        }
        let ctor_self = if def.kind == FnKind::Ctor { Some(def.params[0].0) } else { None };
        self.frames.push(Frame { vars, ret: def.ret.clone(), ctor_self, export: V::Null });
        let r = self.body(def);
        self.frames.pop();
        self.world.depth -= 1;
        r
    }

    fn body(&mut self, def: &FnDef) -> R {
        for (v, t) in &def.params {
            if let Some(t) = t {
                let class = self.ty(t)?;
                let value = self.cell(*v)?.borrow().clone();
                self.world.assert_type(&value, &class, t.nullable)?;
            }
        }
        match self.blk(&def.body) {
            Ok(v) => match self.frame().ctor_self {
                Some(s) => Ok(self.cell(s)?.borrow().clone()),
                None => self.checked_return(v),
            },
            Err(Flow::Return(v)) => Ok(v),
            Err(Flow::Fail(f)) => Err(f),
            Err(_) => Err(Fail::Mon("reference: control flow left a function".into())),
        }
    }

    fn checked_return(&mut self, v: V) -> R {
        if let Some(t) = self.frame().ret.clone() {
            let class = self.ty(&t)?;
            self.world.assert_type(&v, &class, t.nullable)?;
        }
        Ok(v)
    }

    fn construct(&mut self, class: Id, object: V, args: &[V]) -> R {
        if let Some(new) = self.world.classes[class as usize].methods.get("new").cloned() {
            return self.call_with(&new, Some(object), args);
        }
        if args.is_empty() {
            if let Some(b) = self.world.classes[class as usize].base {
                if self.world.classes[b as usize].methods.contains_key("new") {
                    return code("E3401");
                }
            }
        }
        Ok(object)
    }

    fn call_with(&mut self, f: &V, recv: Option<V>, args: &[V]) -> R {
        let id = match f {
            V::Fn(id) => *id,
            V::Class(c) => {
                let o = self.world.object(*c);
                return self.construct(*c, o, args);
            }
            _ => return code("E3104"),
        };
        match &self.world.fns[id as usize] {
            FnData::Bound { recv, f } => {
                let (recv, f) = (recv.clone(), f.clone());
                self.call_with(&f, Some(recv), args)
            }
            FnData::Ref { def, env } => {
                let (def, env) = (def.clone(), env.clone());
                self.invoke(&def, &env, recv.unwrap_or_else(|| f.clone()), args)
            }
            FnData::Native(n) => {
                let n = n.clone();
                native(self, &n, recv.unwrap_or_else(|| f.clone()), args)
            }
            #[cfg(feature = "interp")]
            FnData::Real(_) => Err(Fail::Mon("reference: compiled code".into())),
            FnData::Vm(_) => Err(Fail::Mon("reference: compiled code".into())),
        }
    }

    fn binary(&mut self, op: Op, l: V, r: V) -> R {
        let name = op.method();
        if let Some(v) = self.world.binary(name, &l, &r) {
            return v;
        }
        let m = self.world.get_field(name, &l)?;
        if !m.is_null() {
            self.call_with(&m, None, &[r])
        } else {
            match self.world.globals.get(name).cloned() {
                Some(f) => self.call_with(&f, None, &[l, r]),
                None => code("E3302"),
            }
        }
    }

    fn closure(&mut self, def: &Rc<FnDef>) -> R {
        let mut env = Vec::with_capacity(def.free.len());
        for v in &def.free {
            env.push((*v, self.cell(*v)?));
        }
        Ok(self.world.func(FnData::Ref { def: def.clone(), env: Rc::new(env) }))
    }

    // ---- statements ------------------------------------------------------------------------------------------------

    fn step(&mut self) -> Result<(), Fail> {
        self.world.steps += 1;
        if self.world.steps > self.budget {
            return Err(Fail::Budget);
        }
        Ok(())
    }

    fn blk(&mut self, b: &Blk) -> X {
        let mark = self.frame().vars.len();
        for s in &b.stmts {
            let s = match s {
                S::Export(s) => s,
                s => s,
            };
            match s {
                S::Fn(v, _) => self.bind(*v, V::Null),
                S::Class(c) => self.bind(c.var, V::Null),
                _ => {}
            }
        }
        let mut r = Ok(V::Unit);
        for s in &b.stmts {
            r = self.stmt(s);
            if r.is_err() {
                break;
            }
        }
        self.frame().vars.truncate(mark);
        r
    }

    fn stmt(&mut self, s: &S) -> X {
        self.step()?;
        Ok(match s {
            S::Expr(e) => self.e(e)?,
            S::Let(v, e) => {
                let value = self.e(e)?;
                self.bind(*v, value.clone());
                value
            }
            S::LetDestr(vs, e) => {
                let value = self.e(e)?;
                for v in vs {
                    let name = self.prog.vars[*v as usize].name.clone();
                    let field = self.world.get_field(&name, &value)?;
                    self.bind(*v, field);
                }
                value
            }
            S::Fn(v, def) => {
                let f = self.closure(def)?;
                *self.cell(*v)?.borrow_mut() = f.clone();
                f
            }
            S::Class(c) => self.class(c)?,
            S::Op(op, def) => {
                let f = self.closure(def)?;
                self.world.define_global(op.method(), f)?;
                V::Unit
            }
            S::Import { star, items, path } => {
                let m = load_module(self, path)?;
                for v in items {
                    let name = self.prog.vars[*v as usize].name.clone();
                    let field = self.world.get_field(&name, &m)?;
                    self.bind(*v, field);
                }
                if let Some(v) = star {
                    self.bind(*v, m.clone());
                }
                m
            }
            S::Export(inner) => {
                let name = match &**inner {
                    S::Let(v, _) | S::Fn(v, _) => self.prog.vars[*v as usize].name.clone(),
                    S::Class(c) => self.prog.vars[c.var as usize].name.clone(),
                    _ => return Err(Fail::Mon("reference: export".into()).into()),
                };
                let v = self.stmt(inner)?;
                let export = self.frame().export.clone();
                self.world.set_field(&name, &export, v.clone())?;
                v
            }
            S::ExportVar(v) => {
                let name = self.prog.vars[*v as usize].name.clone();
                let value = self.cell(*v)?.borrow().clone();
                let export = self.frame().export.clone();
                self.world.set_field(&name, &export, value.clone())?;
                value
            }
            S::Loop(b) => loop {
                self.step()?;
                match self.blk(b) {
                    Ok(_) | Err(Flow::Continue) => {}
                    Err(Flow::Break) => break V::Unit,
                    Err(f) => return Err(f),
                }
            },
            S::While(c, b) => loop {
                self.step()?;
                let r = self.while_turn(c, b);
                match r {
                    Ok(true) | Err(Flow::Continue) => {}
                    Ok(false) | Err(Flow::Break) => break V::Unit,
                    Err(f) => return Err(f),
                }
            },
            S::For(v, src, b) => self.for_loop(*v, src, b)?,
            S::Return(e) => {
                let v = match (e, self.frame().ctor_self) {
                    (Some(e), None) => self.e(e)?,
                    (None, None) => V::Unit,
                    (_, Some(s)) => {
                        let v = self.cell(s)?.borrow().clone();
                        return Err(Flow::Return(v));
                    }
                };
                let v = self.checked_return(v)?;
                return Err(Flow::Return(v));
            }
            S::Break => return Err(Flow::Break),
            S::Continue => return Err(Flow::Continue),
            S::Raw(_) => unreachable!("raw statements are only compiled"),
        })
    }

    fn while_turn(&mut self, c: &E, b: &Blk) -> Result<bool, Flow> {
        let c = self.e(c)?;
        if !self.world.as_bool(&c)? {
            return Ok(false);
        }
        self.blk(b)?;
        Ok(true)
    }

    fn loop_body(&mut self, v: VarId, value: V, b: &Blk) -> Result<bool, Flow> {
        let mark = self.frame().vars.len();
        self.bind(v, value);
        let r = self.blk(b);
        self.frame().vars.truncate(mark);
        match r {
            Ok(_) | Err(Flow::Continue) => Ok(true),
            Err(Flow::Break) => Ok(false),
            Err(f) => Err(f),
        }
    }

    fn for_loop(&mut self, v: VarId, src: &E, b: &Blk) -> X {
        if let E::Bin(op @ (Op::RangeEx | Op::RangeIn), start, end) = src {
            // The end of a literal range is evaluated before its start.
            let end = self.e(end)?;
            let mut i = self.e(start)?;
            loop {
                self.step()?;
                let more = self.binary(if *op == Op::RangeEx { Op::Lt } else { Op::Lte }, i.clone(), end.clone())?;
                if !self.world.as_bool(&more)? {
                    return Ok(V::Unit);
                }
                if !self.loop_body(v, i.clone(), b)? {
                    return Ok(V::Unit);
                }
                i = self.binary(Op::Add, i, V::Int(1))?;
            }
        }
        let src = self.e(src)?;
        let iter = self.world.get_field("iter", &src)?;
        let iter = self.call_with(&iter, None, &[])?;
        let next = self.world.get_field("next", &iter)?;
        loop {
            self.step()?;
            let item = self.call_with(&next, None, &[])?;
            let done = self.world.get_field("is_done", &item)?;
            if self.world.as_bool(&done)? {
                return Ok(V::Unit);
            }
            let value = self.world.get_field("value", &item)?;
            if !self.loop_body(v, value, b)? {
                return Ok(V::Unit);
            }
        }
    }

    fn class(&mut self, c: &ClassDef) -> X {
        let mark = self.frame().vars.len();
        let base = match &c.base {
            Some(b) => self.e(b)?,
            None => self.world.global("Any")?,
        };
        self.bind(c.super_var, base.clone());
        let name = self.prog.vars[c.var as usize].name.clone();
        let class = self.world.inherit(&name, &base)?;
        *self.cell(c.var)?.borrow_mut() = class.clone();
        let id = self.world.as_class(&class)?;
        for item in &c.items {
            let (name, def) = match item {
                ClassItem::Fn(d) => (d.name.clone(), d),
                ClassItem::Op(op, d) => (op.method().to_string(), d),
            };
            let f = self.closure(def)?;
            if def.kind == FnKind::Static {
                self.world.set_field(&name, &class, f)?;
            } else {
                self.world.classes[id as usize].methods.insert(Rc::from(name.as_str()), f);
            }
        }
        self.frame().vars.truncate(mark);
        Ok(class)
    }

    // ---- expressions -----------------------------------------------------------------------------------------------

    fn is_link(e: &E) -> bool {
        matches!(
            e,
            E::Call(..) | E::Field(..) | E::Index(..) | E::NullP(_) | E::ErrP(_) | E::SuperAcc { .. } | E::SuperCall { .. }
        )
    }

    pub fn e(&mut self, e: &E) -> X {
        if Self::is_link(e) {
            return match self.link(e) {
                Err(Flow::NullExit) => Ok(V::Null),
                r => r,
            };
        }
        self.step()?;
        Ok(match e {
            E::Unit => V::Unit,
            E::Null => V::Null,
            E::Bool(b) => V::Bool(*b),
            E::Int(i) => V::Int(*i),
            E::Float(f) => V::Float(*f),
            E::Str(s) => V::str(s),
            E::Var(v) => {
                let c = self.cell(*v)?;
                let v = c.borrow().clone();
                v
            }
            E::Global(n) => self.world.global(n)?,
            E::Assign(v, op, rhs) => {
                let value = match op.op() {
                    None => self.e(rhs)?,
                    Some(op) => {
                        let old = self.cell(*v)?.borrow().clone();
                        let rhs = self.e(rhs)?;
                        self.binary(op, old, rhs)?
                    }
                };
                *self.cell(*v)?.borrow_mut() = value;
                V::Unit
            }
            E::AssignField(o, name, op, rhs) => {
                let o = self.e(o)?;
                match op.op() {
                    None => {
                        let v = self.e(rhs)?;
                        self.world.set_field(name, &o, v.clone())?;
                        v
                    }
                    Some(op) => {
                        let old = self.world.get_field(name, &o)?;
                        let rhs = self.e(rhs)?;
                        let v = self.binary(op, old, rhs)?;
                        self.world.set_field(name, &o, v)?;
                        V::Unit
                    }
                }
            }
            E::AssignIndex(o, i, op, rhs) => {
                let o = self.e(o)?;
                let i = self.e(i)?;
                let v = match op.op() {
                    None => self.e(rhs)?,
                    Some(op) => {
                        let old = self.world.load_index(&o, &i)?;
                        let rhs = self.e(rhs)?;
                        self.binary(op, old, rhs)?
                    }
                };
                self.world.store_index(&o, &i, v)?;
                V::Unit
            }
            E::Neg(a) => {
                let a = self.e(a)?;
                self.world.negate(&a)?
            }
            E::Not(a) => {
                let a = self.e(a)?;
                self.world.not(&a)?
            }
            E::Bin(op, a, b) => {
                let a = self.e(a)?;
                let b = self.e(b)?;
                self.binary(*op, a, b)?
            }
            E::And(a, b) | E::Or(a, b) => {
                let stop = matches!(e, E::Or(..));
                match self.e(a)? {
                    V::Bool(x) if x == stop => V::Bool(x),
                    V::Bool(_) => match self.e(b)? {
                        V::Bool(y) => V::Bool(y),
                        _ => return Err(Fail::Code("E3102".into()).into()),
                    },
                    _ => return Err(Fail::Code("E3102".into()).into()),
                }
            }
            E::Coalesce(a, b) => match self.e(a)? {
                V::Null => self.e(b)?,
                v => v,
            },
            E::Pipe(a, f) => {
                let f = self.e(f)?;
                let a = self.e(a)?;
                self.call_with(&f, None, &[a])?
            }
            E::Is(a, t) => {
                let a = self.e(a)?;
                if t.nullable && a.is_null() {
                    V::Bool(true)
                } else {
                    let class = self.ty(t)?;
                    let class = self.world.as_class(&class)?;
                    V::Bool(self.world.is_type(&a, class))
                }
            }
            E::If(c, b, els) => {
                let c = self.e(c)?;
                if self.world.as_bool(&c)? {
                    self.blk(b)?
                } else {
                    match els {
                        Some(e) => self.e(e)?,
                        None => V::Unit,
                    }
                }
            }
            E::Block(b) => self.blk(b)?,
            E::Fn(def) => self.closure(def)?,
            E::List(items) => {
                let mut out = Vec::new();
                for i in items {
                    out.push(self.e(i)?);
                }
                self.world.array(out)
            }
            E::Obj(items) => {
                let any = self.world.any;
                let o = self.world.object(any);
                for (n, i) in items {
                    let v = self.e(i)?;
                    self.world.set_field(n, &o, v)?;
                }
                o
            }
            E::OrH(a, name, b) => {
                let r = self.e(a)?;
                let class = self.world.global("Result")?;
                self.world.assert_type(&r, &class, false)?;
                let ok = self.world.get_field("is_ok", &r)?;
                if self.world.as_bool(&ok)? {
                    self.world.get_field("result", &r)?
                } else {
                    let err = self.world.get_field("result", &r)?;
                    let mark = self.frame().vars.len();
                    self.bind(*name, err);
                    let r = self.blk(b);
                    self.frame().vars.truncate(mark);
                    r?
                }
            }
            _ => unreachable!(),
        })
    }

    /// A link of a call chain; `?` leaves the chain.
    fn link(&mut self, e: &E) -> X {
        self.step()?;
        Ok(match e {
            E::NullP(a) => match self.base(a)? {
                V::Null => return Err(Flow::NullExit),
                v => v,
            },
            E::ErrP(a) => {
                let r = self.base(a)?;
                let ok = self.world.get_field("is_ok", &r)?;
                if self.world.as_bool(&ok)? {
                    self.world.get_field("result", &r)?
                } else {
                    let r = self.checked_return(r)?;
                    return Err(Flow::Return(r));
                }
            }
            E::Field(a, name) => {
                let a = self.base(a)?;
                self.world.get_field(name, &a)?
            }
            E::Index(a, i) => {
                let a = self.base(a)?;
                let i = self.e(i)?;
                self.world.load_index(&a, &i)?
            }
            E::Call(f, args) => {
                let f = self.base(f)?;
                let mut vals = Vec::with_capacity(args.len());
                for a in args {
                    vals.push(self.e(a)?);
                }
                self.call_with(&f, None, &vals)?
            }
            E::SuperAcc { super_, self_, name, .. } => {
                let class = self.cell(*super_)?.borrow().clone();
                let recv = self.cell(*self_)?.borrow().clone();
                self.world.load_method(&class, name, &recv)?
            }
            E::SuperCall { super_, self_, args } => {
                let recv = self.cell(*self_)?.borrow().clone();
                let mut vals = Vec::with_capacity(args.len());
                for a in args {
                    vals.push(self.e(a)?);
                }
                let class = self.cell(*super_)?.borrow().clone();
                let class = self.world.as_class(&class)?;
                self.construct(class, recv, &vals)?
            }
            _ => unreachable!(),
        })
    }

    fn base(&mut self, e: &E) -> X {
        if Self::is_link(e) {
            self.link(e)
        } else {
            self.e(e)
        }
    }
}

impl Engine for RefEngine<'_> {
    fn w(&mut self) -> &mut World {
        &mut self.world
    }
    fn call(&mut self, f: &V, args: &[V]) -> R {
        self.call_with(f, None, args)
    }
    fn guarded(&mut self, f: &V, args: &[V]) -> R {
        let (frames, depth) = (self.frames.len(), self.world.depth);
        let r = self.call_with(f, None, args);
        self.frames.truncate(frames);
        self.world.depth = depth;
        r
    }
    fn run_module(&mut self, name: &str, export: V) -> R {
        if let Some((n, c)) = &self.broken {
            if n == name {
                return Err(Fail::Code(c.clone()));
            }
        }
        let prog = self.prog;
        match prog.modules.iter().find(|(n, _)| n == name) {
            Some((_, b)) => {
                self.toplevel(b, export.clone())?;
                Ok(export)
            }
            None => code("NOMODULE"),
        }
    }
}

//! From texts back to the programs of the reference. Only reads what `grammar` and the compiler accept; what it cannot resolve it gives up on.
use crate::ast::*;
use crate::grammar::{tokens, Tok, K};
use std::cell::RefCell;
use std::collections::HashMap;
use std::rc::Rc;

type X<T> = Result<T, &'static str>;

struct P<'a> {
    text: &'a str,
    t: Vec<Tok>,
    i: usize,
    vars: Vec<VarInfo>,
    scopes: Vec<Vec<(String, VarId)>>,
    /// A variable of its own named as what stands for the instance or the base class.
    own: bool,
}

thread_local! {
    static NAMES: RefCell<HashMap<String, &'static str>> = RefCell::default();
}

fn interned(s: &str) -> &'static str {
    NAMES.with(|n| *n.borrow_mut().entry(s.into()).or_insert_with(|| Box::leak(s.to_string().into_boxed_str())))
}

/// The last text is the script, the others are modules.
pub fn program(texts: &[(String, String)]) -> X<Program> {
    let mut out = Program::default();
    for (name, text) in texts {
        let mut p = P { text, t: tokens(text), i: 0, vars: std::mem::take(&mut out.vars), scopes: Vec::new(), own: false };
        let b = p.sequence()?;
        if p.peek() != K::End {
            return Err("text behind the program");
        }
        if p.own {
            return Err("a variable named self or super");
        }
        out.vars = p.vars;
        out.modules.push((name.clone(), b));
    }
    out.main = out.modules.pop().ok_or("no text")?.1;
    Ok(out)
}

impl P<'_> {
    fn peek(&self) -> K {
        self.t.get(self.i).map_or(K::End, |t| t.k)
    }

    fn is(&self, s: &str) -> bool {
        matches!(self.peek(), K::P(k) if k == s)
    }

    fn skip(&mut self, s: &str) -> bool {
        let yes = self.is(s);
        self.i += yes as usize;
        yes
    }

    fn word(&self, i: usize) -> String {
        self.t.get(i).map_or(String::new(), |t| self.text[t.start..t.end].to_string())
    }

    fn p(&mut self, s: &str) -> X<()> {
        match self.skip(s) {
            true => Ok(()),
            false => Err("another token"),
        }
    }

    fn ident(&mut self) -> X<String> {
        match self.peek() {
            K::Ident => {
                self.i += 1;
                Ok(self.word(self.i - 1))
            }
            _ => Err("no name"),
        }
    }

    fn declare(&mut self, name: &str, mutable: bool) -> VarId {
        self.own |= name == "self" || name == "super";
        self.reserved(name, mutable)
    }

    fn reserved(&mut self, name: &str, mutable: bool) -> VarId {
        self.vars.push(VarInfo { name: name.into(), mutable });
        let v = self.vars.len() as VarId - 1;
        self.scopes.last_mut().unwrap().push((name.into(), v));
        v
    }

    fn find(&self, name: &str) -> Option<VarId> {
        self.scopes.iter().rev().find_map(|s| s.iter().rev().find(|(n, _)| n == name).map(|x| x.1))
    }

    fn here(&self, name: &str) -> X<VarId> {
        self.scopes.last().unwrap().iter().rev().find(|(n, _)| n == name).map(|x| x.1).ok_or("no declaration")
    }

    /// Statements up to a closing brace. Functions and classes are known from the start.
    fn sequence(&mut self) -> X<Blk> {
        self.scopes.push(Vec::new());
        let mut depth = 0;
        for i in self.i..self.t.len() {
            match self.t[i].k {
                K::P("(" | "[" | "{") => depth += 1,
                K::P(")" | "]" | "}") if depth == 0 => break,
                K::P(")" | "]" | "}") => depth -= 1,
                K::P("fn" | "class") if depth == 0 => {
                    let name = self.word(i + 1);
                    self.declare(&name, false);
                }
                _ => {}
            }
        }
        let mut stmts = Vec::new();
        while !(self.is("}") || self.peek() == K::End) {
            stmts.push(self.statement()?);
        }
        self.scopes.pop();
        Ok(Blk { stmts })
    }

    fn block(&mut self) -> X<Blk> {
        self.p("{")?;
        let b = self.sequence()?;
        self.p("}")?;
        Ok(b)
    }

    fn statement(&mut self) -> X<S> {
        let K::P(s) = self.peek() else { return Ok(S::Expr(self.expr(1)?)) };
        match s {
            "loop" => {
                self.i += 1;
                Ok(S::Loop(self.block()?))
            }
            "while" => {
                self.i += 1;
                let c = self.expr(1)?;
                Ok(S::While(c, self.block()?))
            }
            "for" => {
                self.i += 1;
                let name = self.ident()?;
                self.p("in")?;
                let e = self.expr(1)?;
                self.scopes.push(Vec::new());
                let v = self.declare(&name, false);
                let b = self.block()?;
                self.scopes.pop();
                Ok(S::For(v, e, b))
            }
            "let" => self.let_(),
            "fn" => self.named(),
            "op" => {
                self.i += 1;
                let op = self.op()?;
                Ok(S::Op(op, self.signature(op.method().into(), FnKind::Named)?))
            }
            "class" => self.class(),
            "import" => {
                self.i += 1;
                let mut star = None;
                if self.skip("*") {
                    self.p("as")?;
                    star = Some(self.ident()?);
                    self.skip(",");
                }
                let names = if self.is("{") { self.names("{", "}")? } else { Vec::new() };
                self.p("from")?;
                let path = self.string()?;
                let items = names.iter().map(|n| self.declare(n, false)).collect();
                let star = star.map(|n| self.declare(&n, false));
                Ok(S::Import { star, items, path })
            }
            "export" => {
                self.i += 1;
                match self.peek() {
                    K::Ident => {
                        let n = self.ident()?;
                        Ok(S::ExportVar(self.find(&n).ok_or("no variable")?))
                    }
                    _ => Ok(S::Export(Box::new(self.statement()?))),
                }
            }
            "break" => {
                self.i += 1;
                Ok(S::Break)
            }
            "continue" => {
                self.i += 1;
                Ok(S::Continue)
            }
            "return" => {
                self.i += 1;
                Ok(S::Return(match self.is("}") {
                    true => None,
                    false => Some(self.expr(1)?),
                }))
            }
            _ => Ok(S::Expr(self.expr(1)?)),
        }
    }

    fn let_(&mut self) -> X<S> {
        self.p("let")?;
        let mutable = self.skip("mut");
        if self.is("{") {
            let names = self.names("{", "}")?;
            self.p("=")?;
            let e = self.expr(1)?;
            return Ok(S::LetDestr(names.iter().map(|n| self.declare(n, mutable)).collect(), e));
        }
        let name = self.ident()?;
        self.p("=")?;
        let e = self.expr(1)?;
        Ok(S::Let(self.declare(&name, mutable), e))
    }

    fn string(&mut self) -> X<String> {
        let w = self.word(self.i);
        match self.peek() {
            K::Str | K::Back => {
                self.i += 1;
                Ok(w[1..w.len() - 1].to_string())
            }
            _ => Err("no string"),
        }
    }

    fn named(&mut self) -> X<S> {
        self.p("fn")?;
        let name = self.ident()?;
        let v = self.here(&name)?;
        Ok(S::Fn(v, self.signature(name, FnKind::Named)?))
    }

    fn op(&mut self) -> X<Op> {
        use Op::*;
        let w = self.word(self.i);
        self.i += 1;
        [Mul, Div, Rem, Add, Sub, Gt, Gte, Lt, Lte, Eq, Neq, RangeEx, RangeIn].into_iter().find(|o| o.symbol() == w).ok_or("no operator")
    }

    fn names(&mut self, open: &str, close: &str) -> X<Vec<String>> {
        self.p(open)?;
        let mut out = Vec::new();
        while !self.skip(close) {
            out.push(self.ident()?);
            self.skip(",");
        }
        Ok(out)
    }

    fn ty(&mut self, params: &[String]) -> X<TyRef> {
        let n = self.ident()?;
        if params.contains(&n) {
            return Err("a parameter as a type");
        }
        let name = match self.find(&n) {
            Some(v) => TyName::Var(v),
            None => TyName::Global(interned(&n)),
        };
        Ok(TyRef { name, nullable: self.skip("?") })
    }

    /// Parameters and their types, in a new scope.
    fn params(&mut self, open: &str, close: &str) -> X<(Vec<String>, Vec<(VarId, Option<TyRef>)>)> {
        self.p(open)?;
        let (mut names, mut types) = (Vec::new(), Vec::new());
        while !self.skip(close) {
            names.push(self.ident()?);
            types.push(match self.skip(":") {
                true => Some(self.ty(&names)?),
                false => None,
            });
            self.skip(",");
        }
        self.scopes.push(Vec::new());
        let vars: Vec<VarId> = names
            .iter()
            .enumerate()
            .map(|(i, n)| match i {
                0 => self.reserved(n, false),
                _ => self.declare(n, false),
            })
            .collect();
        Ok((names, vars.into_iter().zip(types).collect()))
    }

    fn signature(&mut self, name: String, kind: FnKind) -> X<Rc<FnDef>> {
        let (names, params) = self.params("(", ")")?;
        let at = self.i + 1;
        let ret = match self.skip("->") {
            true => Some(self.ty(&names)?),
            false => None,
        };
        let known = self.vars.len();
        let body = self.block()?;
        self.scopes.pop();
        if ret.is_some() && self.vars[known..].iter().any(|v| *v.name == self.word(at)) {
            return Err("a type declared in what returns it");
        }
        let free = free_vars(&params, &ret, &body);
        Ok(Rc::new(FnDef { name, params, ret, kind, body, bare: false, free }))
    }

    fn class(&mut self) -> X<S> {
        self.p("class")?;
        let name = self.ident()?;
        let var = self.here(&name)?;
        let base = match self.skip(":") {
            true => Some(self.expr(1)?),
            // What it derives from is named like every other class.
            false if self.find("Any").is_some() => return Err("an Any of its own"),
            false => None,
        };
        self.scopes.push(Vec::new());
        let super_var = self.reserved("super", false);
        self.p("{")?;
        let mut items = Vec::new();
        while !self.skip("}") {
            let op = match self.skip("op") {
                true => Some(self.op()?),
                false => {
                    self.p("fn")?;
                    None
                }
            };
            let name = match op {
                Some(o) => o.method().into(),
                None => self.ident()?,
            };
            let own = self.word(self.i + 1) == "self";
            let kind = match (own, name == "new") {
                (true, true) => FnKind::Ctor,
                (true, false) => FnKind::Method,
                _ => FnKind::Static,
            };
            let f = self.signature(name, kind)?;
            items.push(match op {
                Some(o) => ClassItem::Op(o, f),
                None => ClassItem::Fn(f),
            });
        }
        self.scopes.pop();
        Ok(S::Class(Rc::new(ClassDef { var, super_var, base, items })))
    }

    fn items(&mut self, close: &str) -> X<Vec<E>> {
        let mut out = Vec::new();
        while !self.skip(close) {
            out.push(self.expr(1)?);
            self.skip(",");
        }
        Ok(out)
    }

    fn assignment(&mut self, can: bool) -> Option<AOp> {
        let op = match self.peek() {
            K::P("=") => AOp::Set,
            K::P("*=") => AOp::Mul,
            K::P("/=") => AOp::Div,
            K::P("+=") => AOp::Add,
            K::P("-=") => AOp::Sub,
            _ => return None,
        };
        self.i += can as usize;
        can.then_some(op)
    }

    fn expr(&mut self, level: u32) -> X<E> {
        let can = level <= 1;
        let b = |e: E| Box::new(e);
        let mut e = match self.peek() {
            K::Int => E::Int(self.number()?.parse().map_err(|_| "no integer")?),
            K::Float => E::Float(self.number()?.parse().map_err(|_| "no float")?),
            K::Str => E::Str(self.string()?),
            K::Ident => {
                let n = self.ident()?;
                let v = self.find(&n);
                match (self.assignment(can), v) {
                    (Some(op), Some(v)) => E::Assign(v, op, b(self.expr(1)?)),
                    (Some(_), None) => return Err("no variable"),
                    (None, Some(v)) => E::Var(v),
                    (None, None) => E::Global(interned(&n)),
                }
            }
            K::P("if") => self.if_()?,
            K::P("{") => E::Block(self.block()?),
            K::P(s) => {
                self.i += 1;
                match s {
                    "null" => E::Null,
                    "true" => E::Bool(true),
                    "false" => E::Bool(false),
                    "#" => {
                        self.p("{")?;
                        let mut out = Vec::new();
                        while !self.skip("}") {
                            let key = match self.peek() {
                                K::Str => self.string()?,
                                _ => self.number()?,
                            };
                            self.p(":")?;
                            out.push((key, self.expr(1)?));
                            self.skip(",");
                        }
                        E::Obj(out)
                    }
                    "[" => E::List(self.items("]")?),
                    "super" => {
                        let own = self.find("super").ok_or("super outside of a class")?;
                        let self_ = self.find("self").ok_or("super without self")?;
                        if self.skip("(") {
                            E::SuperCall { super_: own, self_, args: self.items(")")? }
                        } else {
                            let explicit = self.skip("[");
                            let super_ = match explicit {
                                true => {
                                    let n = self.ident()?;
                                    self.p("]")?;
                                    self.find(&n).ok_or("a base class from elsewhere")?
                                }
                                false => own,
                            };
                            self.p(".")?;
                            E::SuperAcc { super_, explicit, self_, name: self.ident()? }
                        }
                    }
                    "(" if self.skip(")") => E::Unit,
                    "(" => {
                        let e = self.expr(1)?;
                        self.p(")")?;
                        e
                    }
                    "|" => {
                        self.i -= 1;
                        let (_, params) = self.params("|", "|")?;
                        let (body, bare) = match self.expr(1)? {
                            E::Block(b) => (b, false),
                            e => (Blk { stmts: vec![S::Expr(e)] }, true),
                        };
                        self.scopes.pop();
                        let free = free_vars(&params, &None, &body);
                        E::Fn(Rc::new(FnDef { name: String::new(), params, ret: None, kind: FnKind::Anon, body, bare, free }))
                    }
                    "-" => E::Neg(b(self.expr(10)?)),
                    "!" => E::Not(b(self.expr(10)?)),
                    _ => return Err("no expression"),
                }
            }
            _ => return Err("no expression"),
        };
        loop {
            let s = match self.peek() {
                K::P(s) => s,
                K::Back if level <= 12 => {
                    let text = self.string()?;
                    e = E::Call(b(e), vec![E::Str(text)]);
                    continue;
                }
                _ => return Ok(e),
            };
            let at = match s {
                "|>" => 2,
                "??" | "or" => 3,
                ".." | "..=" => 4,
                "|" => 5,
                "&&" => 6,
                "==" | "!=" | ">" | ">=" | "<" | "<=" | "is" => 7,
                "+" | "-" => 8,
                "*" | "/" | "%" => 9,
                "?" | "!!" => 11,
                "." | "[" | "(" => 12,
                _ => return Ok(e),
            };
            if level > at {
                return Ok(e);
            }
            self.i += 1;
            e = match s {
                "?" => E::NullP(b(e)),
                "!!" => E::ErrP(b(e)),
                "." => {
                    let n = self.ident()?;
                    match self.assignment(can) {
                        Some(op) => E::AssignField(b(e), n, op, b(self.expr(1)?)),
                        None => E::Field(b(e), n),
                    }
                }
                "[" => {
                    let i = self.expr(1)?;
                    self.p("]")?;
                    match self.assignment(can) {
                        Some(op) => E::AssignIndex(b(e), b(i), op, b(self.expr(1)?)),
                        None => E::Index(b(e), b(i)),
                    }
                }
                "(" => E::Call(b(e), self.items(")")?),
                "is" => E::Is(b(e), self.ty(&[])?),
                "or" => {
                    // What it checks is named like every other type.
                    if self.find("Result").is_some() {
                        return Err("a Result of its own");
                    }
                    let n = self.ident()?;
                    self.scopes.push(Vec::new());
                    let v = self.declare(&n, false);
                    let h = self.block()?;
                    self.scopes.pop();
                    E::OrH(b(e), v, h)
                }
                "|" => {
                    self.p("|")?;
                    E::Or(b(e), b(self.expr(6)?))
                }
                "&&" => E::And(b(e), b(self.expr(7)?)),
                "??" => E::Coalesce(b(e), b(self.expr(4)?)),
                "|>" => E::Pipe(b(e), b(self.expr(3)?)),
                _ => {
                    self.i -= 1;
                    let op = self.op()?;
                    E::Bin(op, b(e), b(self.expr(at + 1)?))
                }
            };
        }
    }

    fn number(&mut self) -> X<String> {
        self.i += 1;
        Ok(self.word(self.i - 1))
    }

    fn if_(&mut self) -> X<E> {
        self.p("if")?;
        let c = self.expr(1)?;
        let then = self.block()?;
        let els = match self.skip("else") {
            false => None,
            true if self.is("if") => Some(Box::new(self.if_()?)),
            true => Some(Box::new(E::Block(self.block()?))),
        };
        Ok(E::If(Box::new(c), then, els))
    }
}

//! Deletes single statements of a program; used to minimise failing runs.
use crate::ast::*;
use std::rc::Rc;

/// Deletes the n-th statement (in the order of the text). Returns false if there are not that many.
pub fn delete_statement(p: &mut Program, n: usize) -> bool {
    let mut d = Del { left: n, done: false };
    for (_, b) in &mut p.modules {
        d.blk(b);
    }
    d.blk(&mut p.main);
    d.done
}

struct Del {
    left: usize,
    done: bool,
}

impl Del {
    fn blk(&mut self, b: &mut Blk) {
        let mut i = 0;
        while i < b.stmts.len() && !self.done {
            if self.left == 0 {
                b.stmts.remove(i);
                self.done = true;
                return;
            }
            self.left -= 1;
            self.s(&mut b.stmts[i]);
            i += 1;
        }
    }

    fn func(&mut self, f: &mut Rc<FnDef>) {
        if let Some(d) = Rc::get_mut(f) {
            self.blk(&mut d.body);
            d.free = free_vars(&d.params, &d.ret, &d.body);
        }
    }

    fn s(&mut self, s: &mut S) {
        match s {
            S::Expr(e) | S::Let(_, e) | S::LetDestr(_, e) | S::Return(Some(e)) => self.e(e),
            S::Fn(_, f) | S::Op(_, f) => self.func(f),
            S::Class(c) => {
                if let Some(c) = Rc::get_mut(c) {
                    if let Some(b) = &mut c.base {
                        self.e(b);
                    }
                    for i in &mut c.items {
                        match i {
                            ClassItem::Fn(f) | ClassItem::Op(_, f) => self.func(f),
                        }
                    }
                }
            }
            S::Export(s) => self.s(s),
            S::Loop(b) => self.blk(b),
            S::While(e, b) | S::For(_, e, b) => {
                self.e(e);
                self.blk(b);
            }
            _ => {}
        }
    }

    fn e(&mut self, e: &mut E) {
        match e {
            E::Assign(_, _, a) | E::Neg(a) | E::Not(a) | E::Field(a, _) | E::NullP(a) | E::ErrP(a) | E::Is(a, _) => self.e(a),
            E::AssignField(a, _, _, b)
            | E::Bin(_, a, b)
            | E::And(a, b)
            | E::Or(a, b)
            | E::Coalesce(a, b)
            | E::Pipe(a, b)
            | E::Index(a, b) => {
                self.e(a);
                self.e(b);
            }
            E::AssignIndex(a, b, _, c) => {
                self.e(a);
                self.e(b);
                self.e(c);
            }
            E::If(c, b, els) => {
                self.e(c);
                self.blk(b);
                if let Some(els) = els {
                    self.e(els);
                }
            }
            E::Block(b) => self.blk(b),
            E::Fn(f) => self.func(f),
            E::List(items) => items.iter_mut().for_each(|i| self.e(i)),
            E::Obj(items) => items.iter_mut().for_each(|(_, i)| self.e(i)),
            E::Call(f, args) => {
                self.e(f);
                args.iter_mut().for_each(|i| self.e(i));
            }
            E::OrH(a, _, b) => {
                self.e(a);
                self.blk(b);
            }
            E::SuperCall { args, .. } => args.iter_mut().for_each(|i| self.e(i)),
            _ => {}
        }
    }
}

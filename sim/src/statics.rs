//! Rules that hold before a program runs: an edit breaks exactly one of them at a seeded place of a file of a valid program. The
//! compiler has to reject the file for that reason, at that place. If it is the main program, nothing starts; if it is a module,
//! the program runs against the simulated host, the import of the module fails whenever it is reached, and everything else goes
//! on. The same file with the rule respected is accepted.
use crate::ast::*;
use crate::damage::{judge, place, Compiled, Located};
use crate::driver::{hash_text, panic_text, Case, Outcome};
use crate::render::marked_text;
use crate::script;
use crate::vm::Code;
use dice_core::source::SourceKind;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::rc::Rc;

#[derive(Clone, Copy, Debug, PartialEq)]
pub struct Ctx {
    pub kind: Option<FnKind>,
    pub in_loop: bool,
    pub module: bool,
    /// The outermost block of a file.
    pub top: bool,
    /// The body of the constructor of a derived class: its first statement calls the constructor of the base.
    pub derived: bool,
    /// The block is the body of a function.
    pub body: bool,
    /// The number of functions around it.
    pub level: usize,
}

/// Visits all blocks in the order of the text.
pub fn blocks(p: &mut Program, f: &mut dyn FnMut(&mut Blk, &Ctx)) {
    let mut w = Walk { f, all: &mut |_| {} };
    let c = Ctx { kind: None, in_loop: false, module: true, top: true, derived: false, body: false, level: 0 };
    for (_, b) in &mut p.modules {
        w.blk(b, c);
    }
    w.blk(&mut p.main, Ctx { module: false, ..c });
}

fn assigned(p: &mut Program) -> Vec<VarId> {
    let mut out = Vec::new();
    let mut all = |v: VarId| out.push(v);
    let mut w = Walk { f: &mut |_, _| {}, all: &mut all };
    let c = Ctx { kind: None, in_loop: false, module: true, top: true, derived: false, body: false, level: 0 };
    for (_, b) in &mut p.modules {
        w.blk(b, c);
    }
    w.blk(&mut p.main, Ctx { module: false, ..c });
    out.sort();
    out.dedup();
    out
}

struct Walk<'a> {
    f: &'a mut dyn FnMut(&mut Blk, &Ctx),
    all: &'a mut dyn FnMut(VarId),
}

impl Walk<'_> {
    fn blk(&mut self, b: &mut Blk, c: Ctx) {
        (self.f)(b, &c);
        let inner = Ctx { top: false, derived: false, body: false, ..c };
        for s in &mut b.stmts {
            self.s(s, inner);
        }
    }

    fn func(&mut self, f: &mut Rc<FnDef>, c: Ctx) {
        if let Some(d) = Rc::get_mut(f) {
            let derived = d.kind == FnKind::Ctor && matches!(d.body.stmts.first(), Some(S::Expr(E::SuperCall { .. })));
            let c = Ctx { kind: Some(d.kind), in_loop: false, top: false, derived, body: true, level: c.level + 1, ..c };
            self.blk(&mut d.body, c);
        }
    }

    fn s(&mut self, s: &mut S, c: Ctx) {
        match s {
            S::Expr(e) | S::Let(_, e) | S::LetDestr(_, e) | S::Return(Some(e)) => self.e(e, c),
            S::Fn(_, f) | S::Op(_, f) => self.func(f, c),
            S::Class(k) => {
                if let Some(k) = Rc::get_mut(k) {
                    if let Some(b) = &mut k.base {
                        self.e(b, c);
                    }
                    for i in &mut k.items {
                        match i {
                            ClassItem::Fn(f) | ClassItem::Op(_, f) => self.func(f, c),
                        }
                    }
                }
            }
            S::Export(s) => self.s(s, c),
            S::Loop(b) => self.blk(b, Ctx { in_loop: true, ..c }),
            S::While(e, b) => {
                self.e(e, Ctx { in_loop: true, ..c });
                self.blk(b, Ctx { in_loop: true, ..c });
            }
            S::For(_, e, b) => {
                self.e(e, c);
                self.blk(b, Ctx { in_loop: true, ..c });
            }
            _ => {}
        }
    }

    fn e(&mut self, e: &mut E, c: Ctx) {
        match e {
            E::Assign(v, _, a) => {
                (self.all)(*v);
                self.e(a, c)
            }
            E::Neg(a) | E::Not(a) | E::Field(a, _) | E::NullP(a) | E::ErrP(a) | E::Is(a, _) => self.e(a, c),
            E::AssignField(a, _, _, b)
            | E::Bin(_, a, b)
            | E::And(a, b)
            | E::Or(a, b)
            | E::Coalesce(a, b)
            | E::Pipe(a, b)
            | E::Index(a, b) => {
                self.e(a, c);
                self.e(b, c);
            }
            E::AssignIndex(a, b, _, x) => {
                self.e(a, c);
                self.e(b, c);
                self.e(x, c);
            }
            E::If(x, b, els) => {
                self.e(x, c);
                self.blk(b, c);
                if let Some(els) = els {
                    self.e(els, c);
                }
            }
            E::Block(b) => self.blk(b, c),
            E::Fn(f) => self.func(f, c),
            E::List(items) => items.iter_mut().for_each(|i| self.e(i, c)),
            E::Obj(items) => items.iter_mut().for_each(|(_, i)| self.e(i, c)),
            E::Call(f, args) => {
                self.e(f, c);
                args.iter_mut().for_each(|i| self.e(i, c));
            }
            E::OrH(a, _, b) => {
                self.e(a, c);
                self.blk(b, c);
            }
            E::SuperCall { args, .. } => args.iter_mut().for_each(|i| self.e(i, c)),
            _ => {}
        }
    }
}

#[derive(Clone, Copy, PartialEq)]
enum At {
    Any,
    NoLoop,
    NoFn,
    NoFnOrCtor,
    Ctor,
    /// Not directly in a method or constructor.
    NoSuper,
    Script,
    ModuleInner,
    /// Directly in the outermost block.
    Top,
}

impl At {
    fn fits(self, c: &Ctx) -> bool {
        match self {
            At::Any => true,
            At::NoLoop => !c.in_loop,
            At::NoFn => c.kind.is_none(),
            At::NoFnOrCtor => matches!(c.kind, None | Some(FnKind::Ctor)),
            At::Ctor => c.kind == Some(FnKind::Ctor),
            At::NoSuper => !matches!(c.kind, Some(FnKind::Method | FnKind::Ctor)),
            At::Script => !c.module && c.kind.is_none(),
            At::ModuleInner => c.module && !c.top,
            At::Top => c.top,
        }
    }
}

struct Rule {
    name: &'static str,
    code: &'static str,
    at: At,
    /// Breaks the rule; what breaks it is between « and ».
    bad: &'static str,
    /// Respects it, as closely as possible.
    good: &'static str,
}

const fn r(name: &'static str, code: &'static str, at: At, bad: &'static str, good: &'static str) -> Rule {
    Rule { name, code, at, bad, good }
}

const ASSIGN: &str = "assignment to an immutable variable";
const UNKNOWN: &str = "assignment to no variable";
const EARLY: &str = "use before the declaration";
const TWICE: &str = "declared twice";
const PARAMS: &str = "parameters of the same name";
const LOOP: &str = "break or continue outside of a loop";
const RETURN: &str = "return outside of a function";
const PROP: &str = "`!!` outside of a function";
const SUPER: &str = "super outside of a method";
const CTOR: &str = "malformed constructor";
const RECEIVER: &str = "malformed receiver";
const EXPORT: &str = "misplaced export";
const IMPORT: &str = "import of nothing";

static RULES: &[Rule] = &[
    r(ASSIGN, "E2403", At::Any, "{ let zq = 1 « zq = 2 » }", "{ let mut zq = 1 zq = 2 }"),
    r(ASSIGN, "E2403", At::Any, "{ let zq = 1 « zq += 2 » }", "{ let mut zq = 1 zq += 2 }"),
    r(ASSIGN, "E2403", At::Any, "{ let zq = 1 « zq -= 2 » }", "{ let mut zq = 1 zq -= 2 }"),
    r(ASSIGN, "E2403", At::Any, "{ let zq = 1 « zq *= 2 » }", "{ let mut zq = 1 zq *= 2 }"),
    r(ASSIGN, "E2403", At::Any, "{ let zq = 1 « zq /= 2 » }", "{ let mut zq = 1 zq /= 2 }"),
    r(ASSIGN, "E2403", At::Any, "{ let zq = 1 let zl = | | { « zq = 2 » } }", "{ let mut zq = 1 let zl = | | { zq = 2 } }"),
    r(ASSIGN, "E2403", At::Any, "{ let zq = 1 let zl = | | { « zq += 2 » } }", "{ let mut zq = 1 let zl = | | { zq += 2 } }"),
    r(ASSIGN, "E2403", At::Any, "{ let zq = 1 let zl = | | { | | { « zq = 2 » } } }", "{ let mut zq = 1 let zl = | | { | | { zq = 2 } } }"),
    r(ASSIGN, "E2403", At::Any, "{ let zq = 1 let zl = | | { zq let zl = | | { « zq *= 2 » } } }", "{ let mut zq = 1 let zl = | | { zq let zl = | | { zq *= 2 } } }"),
    r(ASSIGN, "E2403", At::Any, "{ let mut zq = 1 { let zq = 2 « zq = 3 » } }", "{ let zq = 1 { let mut zq = 2 zq = 3 } }"),
    r(ASSIGN, "E2403", At::Any, "{ let zq = 1 { let mut zq = 2 zq = 3 } « zq = 4 » }", "{ let mut zq = 1 { let zq = 2 } zq = 4 }"),
    r(ASSIGN, "E2403", At::Any, "{ let mut zq = 1 fn zf ( zq ) { « zq = 2 » } }", "{ let mut zq = 1 fn zf ( zp ) { zq = 2 } }"),
    r(ASSIGN, "E2403", At::Any, "{ fn zf ( zp ) { « zp = 1 » } }", "{ fn zf ( zp ) { let mut zp = zp zp = 1 } }"),
    r(ASSIGN, "E2403", At::Any, "{ | za , zp | { « zp += 1 » } }", "{ | za , zp | { let mut zp = zp zp += 1 } }"),
    r(ASSIGN, "E2403", At::Any, "{ | zp | { | | { « zp = 1 » } } }", "{ | zp | { | | { zp } } }"),
    r(ASSIGN, "E2403", At::Any, "for zv in 0 .. 1 { « zv = 2 » }", "for zv in 0 .. 1 { let mut zw = zv zw = 2 }"),
    r(ASSIGN, "E2403", At::Any, "for zv in [ 1 ] { « zv += 2 » }", "for zv in [ 1 ] { zv }"),
    r(ASSIGN, "E2403", At::Any, "for zv in [ 1 ] { | | { « zv = 2 » } }", "for zv in [ 1 ] { | | { zv } }"),
    r(ASSIGN, "E2403", At::Any, "{ fn zf ( ) { 1 } « zf = 2 » }", "{ fn zf ( ) { 1 } zf }"),
    r(ASSIGN, "E2403", At::Any, "{ fn zf ( ) { « zf = 2 » } }", "{ fn zf ( ) { zf } }"),
    r(ASSIGN, "E2403", At::Any, "{ class Zc { } « Zc = 2 » }", "{ class Zc { } Zc }"),
    r(ASSIGN, "E2403", At::Any, "{ class Zc { fn zm ( self ) { « Zc = 2 » } } }", "{ class Zc { fn zm ( self ) { Zc } } }"),
    r(ASSIGN, "E2403", At::Any, "{ class Zc { fn zm ( self ) { « self = 2 » } } }", "{ class Zc { fn zm ( self ) { self . zx = 2 } } }"),
    r(ASSIGN, "E2403", At::Any, "{ let { za , zb } = #{ za : 1 , zb : 2 } « zb = 2 » }", "{ let { za , zb } = #{ za : 1 , zb : 2 } zb }"),
    r(ASSIGN, "E2403", At::Any, "{ hr ( 0 ) or ze { « ze = 1 » } }", "{ hr ( 0 ) or ze { ze } }"),
    r(ASSIGN, "E2403", At::Any, "{ let zq = 1 let zo = #{ zk : [ 1 , { « zq = 2 » } ] } }", "{ let mut zq = 1 let zo = #{ zk : [ 1 , { zq = 2 } ] } }"),
    r(ASSIGN, "E2403", At::Top, "{ import { zi } from \"m0\" « zi = 1 » }", "{ import { zi } from \"m0\" zi }"),
    r(ASSIGN, "E2403", At::Top, "{ import * as zi from \"m0\" « zi = 1 » }", "{ import * as zi from \"m0\" zi }"),
    r(UNKNOWN, "E2401", At::Any, "« zq = 1 »", "{ let mut zq = 0 zq = 1 }"),
    r(UNKNOWN, "E2401", At::Any, "« zq += 1 »", "{ let mut zq = 0 zq += 1 }"),
    r(UNKNOWN, "E2401", At::Any, "{ { let mut zq = 1 zq = 2 } « zq = 3 » }", "{ let mut zq = 1 { zq = 2 } zq = 3 }"),
    r(UNKNOWN, "E2401", At::Any, "{ | | { « zq = 2 » } }", "{ let mut zq = 1 let zl = | | { zq = 2 } }"),
    r(UNKNOWN, "E2401", At::Any, "{ if hb ( 0 ) { let mut zq = 1 } else { « zq = 2 » } }", "{ let mut zq = 0 if hb ( 0 ) { 1 } else { zq = 2 } }"),
    r(UNKNOWN, "E2401", At::Any, "{ for zv in [ 1 ] { zv } « zv = 2 » }", "{ let mut zv = 0 for zv in [ 1 ] { zv } zv = 2 }"),
    r(UNKNOWN, "E2401", At::Any, "{ while false { let mut zq = 1 } « zq = 2 » }", "{ let mut zq = 1 while false { zq = 1 } zq = 2 }"),
    r(UNKNOWN, "E2401", At::Any, "{ loop { let mut zq = 1 break } « zq = 2 » }", "{ let mut zq = 1 loop { zq = 1 break } zq = 2 }"),
    r(UNKNOWN, "E2401", At::Any, "{ fn zf ( zp ) { 1 } « zp = 2 » }", "{ let mut zp = 1 fn zf ( zp ) { 1 } zp = 2 }"),
    r(UNKNOWN, "E2401", At::Any, "{ fn zf ( ) { let mut zq = 1 } « zq = 2 » }", "{ fn zf ( ) { let mut zq = 1 zq = 2 } }"),
    r(UNKNOWN, "E2401", At::Any, "{ « zq = 1 » let mut zq = 2 }", "{ let mut zq = 2 zq = 1 }"),
    r(UNKNOWN, "E2401", At::Any, "{ hr ( 0 ) or ze { 1 } « ze = 2 » }", "{ let mut ze = 1 hr ( 0 ) or ze { 1 } ze = 2 }"),
    r(UNKNOWN, "E2401", At::Any, "« hi = 1 »", "{ let mut hi = 0 hi = 1 }"),
    r(EARLY, "E2402", At::Any, "{ « zf » ( ) fn zf ( ) { 1 } }", "{ fn zf ( ) { 1 } zf ( ) }"),
    r(EARLY, "E2402", At::Any, "{ let zx = [ 1 , « zf » ] fn zf ( ) { 1 } }", "{ fn zf ( ) { 1 } let zx = [ 1 , zf ] }"),
    r(EARLY, "E2402", At::Any, "{ « Zc » ( ) class Zc { } }", "{ class Zc { } Zc ( ) }"),
    r(EARLY, "E2402", At::Any, "{ class Zd : « Zc » { } class Zc { } }", "{ class Zc { } class Zd : Zc { } }"),
    r(EARLY, "E2402", At::Any, "{ fn zf ( ) { « zg » ( ) fn zg ( ) { 1 } } fn zg ( ) { 2 } }", "{ fn zf ( ) { zg ( ) } fn zg ( ) { 2 } }"),
    r(EARLY, "E2402", At::Any, "{ if hb ( 0 ) { « zf » ( ) } fn zf ( ) { 1 } }", "{ fn zf ( ) { 1 } if hb ( 0 ) { zf ( ) } }"),
    r(EARLY, "E2402", At::Any, "{ « Zc » . zs ( ) class Zc { fn zs ( ) { 1 } } }", "{ class Zc { fn zs ( ) { 1 } } Zc . zs ( ) }"),
    r(TWICE, "E2301", At::Any, "{ fn zf ( ) { 1 } fn « zf » ( ) { 2 } }", "{ fn zf ( ) { 1 } { fn zf ( ) { 2 } } }"),
    r(TWICE, "E2301", At::Any, "{ fn zf ( ) { 1 } hi ( 0 ) fn zg ( ) { 2 } fn « zf » ( ) { 2 } }", "{ fn zf ( ) { 1 } hi ( 0 ) fn zg ( ) { fn zf ( ) { 3 } } }"),
    r(TWICE, "E2301", At::Any, "{ let zf = 1 fn « zf » ( ) { 2 } }", "{ let zf = 1 { fn zf ( ) { 2 } } }"),
    r(TWICE, "E2301", At::Any, "{ fn « zf » ( ) { 2 } class zf { } }", "{ fn zf ( ) { 2 } { class zf { } } }"),
    r(TWICE, "E2300", At::Any, "{ class « zf » { } fn zf ( ) { 2 } }", "{ class zf { } { fn zf ( ) { 2 } } }"),
    r(TWICE, "E2300", At::Any, "{ class Zc { } class « Zc » { } }", "{ class Zc { } { class Zc { } } }"),
    r(TWICE, "E2300", At::Any, "{ let Zc = 1 class « Zc » { } }", "{ let Zc = 1 { class Zc { } } }"),
    r(PARAMS, "E2207", At::Any, "{ « fn zf ( zp , zp ) { 1 } » }", "{ fn zf ( zp , zq ) { 1 } }"),
    r(PARAMS, "E2207", At::Any, "{ « fn zf ( za , zb , zc , za ) { 1 } » }", "{ fn zf ( za , zb , zc , zd ) { 1 } }"),
    r(PARAMS, "E2207", At::Any, "{ class Zc { « fn zm ( self , zp : Int , zp : String ) { 1 } » } }", "{ class Zc { fn zm ( self , zp : Int , zq : String ) { 1 } } }"),
    r(PARAMS, "E2207", At::Any, "{ class Zc { « fn zm ( zp , zp ) { 1 } » } }", "{ class Zc { fn zm ( zp , zq ) { 1 } } }"),
    r(PARAMS, "E2207", At::Any, "{ class Zc { « fn new ( self , zp , zp ) { 1 } » } }", "{ class Zc { fn new ( self , zp , zq ) { 1 } } }"),
    r(PARAMS, "E2207", At::Any, "{ class Zc { « op + ( self , self ) { 1 } » } }", "{ class Zc { op + ( self , zp ) { 1 } } }"),
    r(PARAMS, "E2207", At::Top, "« op ..= ( zp , zp ) { 1 } »", "fn zf ( zp , zq ) { 1 }"),
    r(LOOP, "E2501", At::NoLoop, "« break »", "loop { break }"),
    r(LOOP, "E2502", At::NoLoop, "« continue »", "while false { continue }"),
    r(LOOP, "E2501", At::NoLoop, "{ loop { break } « break » }", "loop { break }"),
    r(LOOP, "E2502", At::NoLoop, "{ while false { 1 } if hb ( 0 ) { « continue » } }", "while false { if hb ( 0 ) { continue } }"),
    r(LOOP, "E2501", At::NoLoop, "{ for zv in 0 .. 1 { 1 } « break » }", "for zv in 0 .. 1 { break }"),
    r(LOOP, "E2501", At::NoLoop, "{ for zv in { « break » } { 1 } }", "for zv in [ ] { 1 }"),
    r(LOOP, "E2501", At::Any, "loop { | | { « break » } break }", "loop { | | { loop { break } } break }"),
    r(LOOP, "E2502", At::Any, "while false { | | { « continue » } }", "while false { | | { 1 } continue }"),
    r(LOOP, "E2501", At::Any, "for zv in [ 1 ] { fn zf ( ) { « break » } }", "for zv in [ 1 ] { fn zf ( ) { 1 } break }"),
    r(LOOP, "E2502", At::Any, "for zv in 0 .. 1 { class Zc { fn zm ( self ) { « continue » } } }", "for zv in 0 .. 1 { class Zc { fn zm ( self ) { 1 } } }"),
    r(RETURN, "E2500", At::NoFn, "« return 1 »", "{ | | { return 1 } }"),
    r(RETURN, "E2500", At::NoFn, "{ | | { return 1 } « return » }", "{ | | { return } }"),
    r(RETURN, "E2500", At::NoFn, "loop { « return 1 » }", "loop { break }"),
    r(PROP, "E2503", At::NoFn, "{ « hr ( 0 ) !! » }", "{ | | { hr ( 0 ) !! } }"),
    r(PROP, "E2503", At::NoFnOrCtor, "hi ( « hr ( 0 ) !! » )", "hi ( 0 )"),
    r(PROP, "E2503", At::Any, "{ class Zc { fn new ( self ) { « hr ( 0 ) !! » } } }", "{ class Zc { fn zm ( self ) { hr ( 0 ) !! } } }"),
    r(SUPER, "E2205", At::NoSuper, "« super ( 0 ) »", "hi ( 0 )"),
    r(SUPER, "E2205", At::NoSuper, "« super . zm » ( )", "hi ( 0 )"),
    r(SUPER, "E2205", At::NoSuper, "{ class Zc { } « super [ Zc ] . zm » }", "{ class Zc { } Zc . zm }"),
    r(SUPER, "E2205", At::Any, "{ fn zf ( self ) { « super . zm » ( ) } }", "{ class Zc { fn zf ( self ) { super . zm } } }"),
    r(SUPER, "E2205", At::Any, "{ class Zc { fn zs ( zp ) { « super . zm » ( ) } } }", "{ class Zc { fn zs ( self , zp ) { super . zm } } }"),
    r(SUPER, "E2205", At::Any, "{ class Zc { fn zm ( self ) { | | { « super . zm » } } } }", "{ class Zc { fn zm ( self ) { super . zm } } }"),
    r(CTOR, "E2204", At::Ctor, "« return 1 »", "{ return }"),
    r(CTOR, "E2204", At::Any, "{ class Zc { fn new ( self ) { « return 1 » } } }", "{ class Zc { fn new ( self ) { return } } }"),
    r(CTOR, "E2204", At::Any, "{ class Zc { fn new ( self , zp ) { if zp { « return self » } } } }", "{ class Zc { fn new ( self , zp ) { if zp { return } } } }"),
    r(CTOR, "E2201", At::Any, "{ class Zc { fn « new » ( ) { 1 } } }", "{ class Zc { fn new ( self ) { 1 } } }"),
    r(CTOR, "E2201", At::Any, "{ class Zc { fn « new » ( zp , self ) { 1 } } }", "{ class Zc { fn new ( self , zp ) { 1 } } }"),
    r(CTOR, "E2200", At::Any, "{ class Zc { fn new ( self ) « -> Int » { 1 } } }", "{ class Zc { fn zm ( self ) -> Int { 1 } } }"),
    r(CTOR, "E2203", At::Any, "{ class Zb { } class Zc : Zb { fn new ( self ) « { 1 } » } }", "{ class Zb { } class Zc : Zb { fn new ( self ) { super ( ) 1 } } }"),
    r(CTOR, "E2203", At::Any, "{ class Zb { } class Zc : Zb { fn new ( self ) « { hi ( 0 ) super ( ) } » } }", "{ class Zb { } class Zc : Zb { fn new ( self ) { super ( ) hi ( 0 ) } } }"),
    r(CTOR, "E2203", At::Any, "{ class Zb { } class Zc : Zb { fn new ( self ) « { } » } }", "{ class Zb { } class Zc { fn new ( self ) { } } }"),
    r(CTOR, "E2203", At::Any, "{ class Zb { } class Zc : Zb { fn new ( self ) « { { super ( ) } } » } }", "{ class Zb { } class Zc : Zb { fn new ( self ) { super ( ) } } }"),
    r(RECEIVER, "E2206", At::Any, "{ class Zc { fn zm ( « self : Int » ) { 1 } } }", "{ class Zc { fn zm ( self , zp : Int ) { 1 } } }"),
    r(RECEIVER, "E2206", At::Any, "{ class Zc { op - ( « self : Zc » , zp ) { 1 } } }", "{ class Zc { op - ( self , zp : Int ) { 1 } } }"),
    r(RECEIVER, "E2206", At::Any, "{ class Zc { fn new ( « self : Any? » ) { 1 } } }", "{ class Zc { fn new ( self ) { 1 } } }"),
    r(RECEIVER, "E2202", At::Any, "{ class Zc { « op + ( zp , zq ) { 1 } » } }", "{ class Zc { op + ( self , zq ) { 1 } } }"),
    r(RECEIVER, "E2202", At::Any, "{ class Zc { « op == ( zp , self ) { true } » } }", "{ class Zc { op == ( self , zp ) { true } } }"),
    r(EXPORT, "E2504", At::Script, "« export let zq = 1 »", "{ let zq = 1 }"),
    r(EXPORT, "E2504", At::Script, "{ let zq = 1 { « export zq » } }", "{ let zq = 1 zq }"),
    r(EXPORT, "E2504", At::Script, "« export fn zf ( ) { 1 } »", "{ fn zf ( ) { 1 } }"),
    r(EXPORT, "E2504", At::Any, "{ | | { « export let zq = 1 » } }", "{ | | { let zq = 1 } }"),
    r(EXPORT, "E2504", At::ModuleInner, "« export let zq = 1 »", "{ let zq = 1 }"),
    r(EXPORT, "E2504", At::ModuleInner, "« export class Zc { } »", "{ class Zc { } }"),
    r(EXPORT, "E2504", At::Any, "{ fn zf ( ) { « export fn zg ( ) { 1 } » } }", "{ fn zf ( ) { fn zg ( ) { 1 } } }"),
    r(IMPORT, "E2505", At::Any, "« import from »", "import { zi } from \"m0\""),
    r(IMPORT, "E2505", At::Any, "« import { } from »", "import * as zi , { } from \"m0\""),
];

fn offset_of(text: &str, line: usize, column: usize) -> Option<usize> {
    let mut at = 0;
    for _ in 1..line {
        at += text[at..].find('\n')? + 1;
    }
    let mut units = 1;
    for (i, c) in text[at..].char_indices() {
        if units >= column {
            return Some(at + i);
        }
        units += c.len_utf16();
    }
    Some(text.len())
}

/// A change of the program itself that breaks a rule.
enum Flip {
    /// A variable that is assigned to is not mutable.
    Immutable(VarId),
    /// The declaration of a variable that is assigned to is gone.
    Undeclared(VarId),
    /// A loop is left that is none.
    Unlooped,
}

/// Whether a block leaves the loop around it, directly.
fn leaves(b: &Blk) -> bool {
    fn in_s(s: &S) -> bool {
        match s {
            S::Break | S::Continue => true,
            S::Expr(e) | S::Let(_, e) | S::LetDestr(_, e) | S::Return(Some(e)) => in_e(e),
            S::For(_, e, _) => in_e(e),
            _ => false,
        }
    }
    fn in_e(e: &E) -> bool {
        match e {
            E::If(c, b, els) => in_e(c) || leaves(b) || els.as_ref().is_some_and(|e| in_e(e)),
            E::Block(b) => leaves(b),
            E::OrH(a, _, b) => in_e(a) || leaves(b),
            E::Assign(_, _, a) => in_e(a),
            E::Call(_, args) => args.iter().any(in_e),
            _ => false,
        }
    }
    b.stmts.iter().any(in_s)
}

pub fn scenario(case: &Case, verbose: bool) -> Outcome {
    let mut o = Outcome::default();
    let mut ps = case.p.open();
    let (mut prog, mix) = script::program_of(case, &mut ps, 120);
    o.p = std::mem::take(&mut ps.rec);
    let mut hs = case.h.open();
    // The host takes what is left of the stream.
    let in_module = !prog.modules.is_empty() && hs.below(4) > 0;

    // The change.
    let mut want: Vec<&str> = Vec::new();
    let mut name = String::new();
    let mut good = None;
    let what;
    let flip = if hs.below(4) == 3 { flips(&mut prog, &mut hs) } else { None };
    match flip {
        Some(Flip::Immutable(v)) => {
            prog.vars[v as usize].mutable = false;
            name = prog.vars[v as usize].name.clone();
            want.push("E2403");
            what = "a variable that is assigned to becomes immutable";
        }
        Some(Flip::Undeclared(v)) => {
            name = prog.vars[v as usize].name.clone();
            want.push("E2401");
            what = "the declaration of a variable that is assigned to is dropped";
        }
        Some(Flip::Unlooped) => {
            want.extend(["E2501", "E2502"]);
            what = "a loop around break or continue is dropped";
        }
        None => {
            let rule = &RULES[hs.below(RULES.len() as u32) as usize];
            let mut sites: Vec<(usize, usize)> = Vec::new();
            let mut n = 0;
            blocks(&mut prog, &mut |b, c| {
                if rule.at.fits(c) && (c.module || !in_module) {
                    for i in c.derived as usize..b.stmts.len() + 1 {
                        // A return without a value would take what follows for its value.
                        if i == 0 || !matches!(b.stmts[i - 1], S::Return(None)) {
                            sites.push((n, i));
                        }
                    }
                }
                n += 1;
            });
            if sites.is_empty() {
                o.discard = Some("no place for the broken rule");
                o.h = hs.rec;
                return o;
            }
            let (block, at) = sites[hs.below(sites.len() as u32) as usize];
            let mut n = 0;
            let mut put = |prog: &mut Program, text: &str, replace: bool| {
                n = 0;
                blocks(prog, &mut |b, _| {
                    if n == block {
                        if replace {
                            b.stmts[at] = S::Raw(text.into());
                        } else {
                            b.stmts.insert(at, S::Raw(text.into()));
                        }
                    }
                    n += 1;
                });
            };
            put(&mut prog, rule.good, false);
            good = Some(texts(&prog));
            put(&mut prog, rule.bad, true);
            want.push(rule.code);
            what = rule.name;
        }
    }
    o.fault(what);

    let all = texts(&prog);
    o.nontrivial = true;
    o.sig = hash_text(all.iter().flat_map(|t| t.1.bytes()));
    o.sigs.push(hash_text(what.bytes()));
    let kind = |i: usize| if i + 1 == all.len() { SourceKind::Script } else { SourceKind::Module };
    let mut rejected = 0;
    for (i, (file, text, mark)) in all.iter().enumerate() {
        o.stat("bytes compiled", text.len() as u64);
        let r = judge(text, kind(i), &mut o);
        if verbose {
            o.show.push(format!("--- {} ---", file));
            o.show.extend(text.lines().map(|l| l.to_string()));
            if let Some(Compiled::Rejected(l)) = &r {
                o.show.push("--- outcome ---".into());
                o.show.push(l.pretty.clone());
            }
        }
        match r {
            None => break,
            Some(Compiled::Accepted(_)) => {
                if mark.is_some() {
                    o.violate("accepted", format!("{} is accepted: {} (expected {})", file, what, want.join(" or ")));
                }
            }
            Some(Compiled::Rejected(l)) if l.code == "E2100" || l.code == "E2101" || l.code == "E2102" => {
                o.discard = Some("beyond the limits of the compiler");
            }
            Some(Compiled::Rejected(l)) => {
                rejected += 1;
                check(&l, text, mark, &want, &name, what, file, &mut o);
            }
        }
    }
    if o.viol.is_none() && rejected != 1 && o.discard.is_none() {
        o.violate("accepted", format!("{} files are rejected: {} (expected {} in one)", rejected, what, want.join(" or ")));
    }
    for (i, (file, text, _)) in good.iter().flatten().enumerate() {
        if o.viol.is_some() || o.discard.is_some() {
            break;
        }
        if let Some(Compiled::Rejected(l)) = judge(text, kind(i), &mut o) {
            if l.code != "E2100" && l.code != "E2101" && l.code != "E2102" {
                o.violate("rejected", format!("{} is rejected although it respects the rules: {}", file, l.message));
                if verbose {
                    o.show.push("--- the counterpart ---".into());
                    o.show.extend(text.lines().map(|l| l.to_string()));
                }
            }
        }
    }
    o.h = hs.rec.clone();
    if o.viol.is_none() && o.discard.is_none() {
        deploy(hs, &prog, &all, &mix, verbose, &mut o);
    }
    o
}

/// Runs the program: its modules are compiled when they are imported, and the import of the rejected one fails.
fn deploy(hs: crate::rng::Stream, prog: &Program, all: &[Text], mix: &crate::world::FaultMix, verbose: bool, o: &mut Outcome) {
    let (main, modules) = all.split_last().unwrap();
    let sources: Vec<(String, String)> = modules.iter().map(|(n, t, _)| (n.clone(), t.clone())).collect();
    let mut broken = None;
    for (n, t) in &sources {
        if let Ok(Err((c, _))) = script::compile(t, SourceKind::Module) {
            broken = Some((n.clone(), c));
        }
    }
    let (name, code) = match broken {
        Some(b) => b,
        // The main program is the one that is rejected: nothing starts.
        None => return,
    };
    o.stat("programs with a rejected module run", 1);
    let main = match script::compile(&main.1, SourceKind::Script) {
        Ok(Ok(b)) => Code::new("main", b),
        _ => return,
    };
    let start = hs.rec.len();
    let reference = script::run_reference_with(prog, hs, mix, 20_000, Some((name.clone(), code)));
    if script::unusable(&reference).is_some() {
        return;
    }
    o.h = reference.world.h.rec.clone();
    let budget = reference.world.steps * 200 + 100_000;
    let h = crate::rng::Stream::replay_from(o.h.clone(), start);
    let run = || script::run_machine_with(&main, &[], &sources, h, mix, budget);
    let machine = match catch_unwind(AssertUnwindSafe(run)) {
        Ok(m) => m,
        Err(_) => {
            o.violate("panic", format!("running the compiled code panics: {}", panic_text()));
            return;
        }
    };
    if verbose {
        o.show.push("--- expected ---".into());
        o.show.extend(reference.world.log.iter().cloned());
        o.show.push("--- observed ---".into());
        o.show.extend(machine.world.log.iter().cloned());
    }
    for (k, n) in &reference.world.faults {
        *o.faults.entry(*k).or_default() += n;
    }
    o.sim_time += reference.world.end_time;
    o.stat("host calls", reference.world.host_calls as u64);
    if reference.world.log.iter().any(|l| *l == format!("load {}", name)) {
        o.fault("rejected module imported");
    }
    o.sig ^= hash_text(reference.world.log.iter().flat_map(|l| l.bytes().filter(|b| !b.is_ascii_digit())));
    script::compare(&reference, &machine, o);
}

type Text = (String, String, Option<(usize, usize)>);

fn texts(p: &Program) -> Vec<Text> {
    let mut out: Vec<Text> = Vec::new();
    for (i, (n, b)) in p.modules.iter().enumerate() {
        let (t, m) = marked_text(p, b, i as u64 + 1);
        out.push((n.clone(), t, m));
    }
    let (t, m) = marked_text(p, &p.main, 0);
    out.push(("main".into(), t, m));
    out
}

#[allow(clippy::too_many_arguments)]
fn check(l: &Located, text: &str, mark: &Option<(usize, usize)>, want: &[&str], name: &str, what: &str, file: &str, o: &mut Outcome) {
    if !want.contains(&l.code.as_str()) {
        o.violate("code", format!("{}: {} is rejected with {} instead of {}", file, what, l.message, want.join(" or ")));
        return;
    }
    if let Some((from, to)) = mark {
        let (a, b) = (place(text, *from), place(text, *to));
        if (l.line, l.column) < a || (l.line, l.column) >= b {
            o.violate("location", format!("{}: {} at {:?} to {:?} is reported at {}:{} ({})", file, what, a, b, l.line, l.column, l.message));
        }
        return;
    }
    let at = offset_of(text, l.line, l.column).unwrap_or(text.len());
    let right = match want[0] {
        "E2403" | "E2401" => text[at..].starts_with(name),
        _ => text[at..].starts_with("break") || text[at..].starts_with("continue"),
    };
    if !right {
        let here: String = text[at..].chars().take(20).collect();
        o.violate("location", format!("{}: {} ({:?}) is reported at {}:{}, at {:?} ({})", file, what, name, l.line, l.column, here, l.message));
    }
}

fn flips(p: &mut Program, hs: &mut crate::rng::Stream) -> Option<Flip> {
    let vars: Vec<VarId> = assigned(p).into_iter().filter(|v| p.vars[*v as usize].mutable).collect();
    match hs.below(3) {
        0 if !vars.is_empty() => Some(Flip::Immutable(vars[hs.below(vars.len() as u32) as usize])),
        1 => {
            let single: Vec<VarId> = vars
                .into_iter()
                .filter(|v| p.vars.iter().filter(|o| o.name == p.vars[*v as usize].name).count() == 1)
                .collect();
            if single.is_empty() {
                return None;
            }
            let v = single[hs.below(single.len() as u32) as usize];
            let mut found = false;
            blocks(p, &mut |b, _| {
                for s in &mut b.stmts {
                    if let S::Let(x, e) = s {
                        if *x == v {
                            *s = S::Expr(e.clone());
                            found = true;
                        }
                    }
                }
            });
            // Exported variables are not found: nothing is changed.
            found.then_some(Flip::Undeclared(v))
        }
        _ => {
            let mut sites = Vec::new();
            let mut n = 0;
            blocks(p, &mut |b, c| {
                for (i, s) in b.stmts.iter().enumerate() {
                    if let S::Loop(x) | S::For(_, _, x) = s {
                        if !c.in_loop && leaves(x) {
                            sites.push((n, i));
                        }
                    }
                }
                n += 1;
            });
            if sites.is_empty() {
                return None;
            }
            let (block, at) = sites[hs.below(sites.len() as u32) as usize];
            n = 0;
            blocks(p, &mut |b, _| {
                if n == block {
                    let s = &mut b.stmts[at];
                    *s = match &*s {
                        S::Loop(x) => S::Expr(E::Block(x.clone())),
                        S::For(v, e, x) => {
                            let mut x = x.clone();
                            x.stmts.insert(0, S::Let(*v, e.clone()));
                            S::Expr(E::If(Box::new(E::Bool(true)), x, None))
                        }
                        other => other.clone(),
                    };
                }
                n += 1;
            });
            Some(Flip::Unlooped)
        }
    }
}

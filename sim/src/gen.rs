//! Generates programs from a choice stream. Programs are (mostly) well typed, so that runs get far before they end, and every
//! host call has its own number, so that a lost, repeated or reordered effect shows in the log.
use crate::ast::*;
use crate::rng::Stream;
use std::rc::Rc;

#[derive(Clone, Debug, PartialEq)]
pub enum T {
    Int,
    Bool,
    Str,
    Float,
    OptInt,
    Res,
    Fn(usize),
    Obj,
    OptObj,
    Host,
    OptHost,
    Inst(usize),
    Arr,
    Any,
    Unit,
    /// A function with the numbered signature.
    Sig(usize),
    Class(usize),
    Module,
}

/// What a run concentrates on. All numbers are relative weights.
#[derive(Clone, Debug)]
pub struct Focus {
    pub calls: u32,
    pub results: u32,
    pub chains: u32,
    pub lazy: u32,
    pub closures: u32,
    pub loops: u32,
    pub exits: u32,
    pub types: u32,
    pub classes: u32,
    pub ops: u32,
    pub modules: u32,
    pub objects: u32,
    pub callbacks: u32,
    pub ill: u32,
    /// What ends with an error of the runtime, or is rarely written.
    pub odd: u32,
    /// The standard library.
    pub lib: u32,
    /// Constructs with many parts.
    pub wide: u32,
    /// One of them comes close to a limit of the bytecode, or exceeds it.
    pub limit: bool,
}

impl Default for Focus {
    fn default() -> Self {
        Focus {
            calls: 3,
            results: 2,
            chains: 2,
            lazy: 2,
            closures: 3,
            loops: 3,
            exits: 3,
            types: 2,
            classes: 2,
            ops: 2,
            modules: 1,
            objects: 2,
            callbacks: 2,
            ill: 1,
            odd: 1,
            lib: 0,
            wide: 1,
            limit: false,
        }
    }
}

struct Bind {
    id: VarId,
    t: T,
    level: usize,
    /// Declared by a function or class statement that has not been executed yet.
    pending: bool,
}

#[derive(Clone)]
struct Fx {
    level: usize,
    in_loop: bool,
    kind: Option<FnKind>,
    module: bool,
    ret: Option<T>,
    self_: Option<VarId>,
    super_: Option<VarId>,
    class: usize,
    /// Number of blocks around the statement inside of the function.
    blocks: usize,
}

struct Cls {
    base: Option<usize>,
    fields: Vec<(String, T)>,
    methods: Vec<(String, Vec<T>, T)>,
    ctor: Option<Vec<T>>,
    ops: Vec<(Op, T, T)>,
    statics: Vec<(String, usize)>,
}

struct Exp {
    name: String,
    t: T,
}

pub struct Gen<'s> {
    s: &'s mut Stream,
    w: Focus,
    vars: Vec<VarInfo>,
    env: Vec<Bind>,
    sigs: Vec<(Vec<T>, T)>,
    classes: Vec<Cls>,
    exports: Vec<(String, Vec<Exp>)>,
    module_names: Vec<String>,
    budget: i32,
    tag: i64,
    uniq: u32,
    fx: Fx,
    global_ops: Vec<Op>,
    cur_exports: Vec<Exp>,
    shadow: u32,
    odd_names: bool,
    wide_left: u32,
    wide: Vec<(Wide, u32)>,
}

const ODD_NAMES: [&str; 16] =
    ["_", "__", "if_", "iff", "or", "in", "is_", "as", "let", "mutX", "nullv", "trueZ", "do", "superb", "Any_", "class_"];
const INT_NAMES: [&str; 6] = ["a", "b", "c", "x", "y", "n"];

pub fn generate(s: &mut Stream, focus: &Focus, size: u32) -> Program {
    let layout = s.below(3) * 1000 + s.below(1000);
    // Swarm: every run has its own mix of features.
    let mut w = focus.clone();
    for f in [
        &mut w.calls,
        &mut w.results,
        &mut w.chains,
        &mut w.lazy,
        &mut w.closures,
        &mut w.loops,
        &mut w.exits,
        &mut w.types,
        &mut w.classes,
        &mut w.ops,
        &mut w.modules,
        &mut w.objects,
        &mut w.callbacks,
    ] {
        *f = match s.below(5) {
            0 | 1 => *f,
            2 => *f * 2,
            3 => *f / 2,
            _ => *f / 8,
        };
    }
    w.ill = if s.below(4) == 3 { focus.ill } else { 0 };
    w.odd = if s.below(4) == 3 { focus.odd } else { 0 };
    let budget = 40 + s.below(size.max(2)) as i32;
    let shadow = [0, 10, 30][s.below(3) as usize];
    let odd_names = s.below(3) == 2;
    let mut g = Gen {
        s,
        w,
        vars: Vec::new(),
        env: Vec::new(),
        sigs: Vec::new(),
        classes: Vec::new(),
        exports: Vec::new(),
        module_names: Vec::new(),
        budget,
        tag: 0,
        uniq: 0,
        fx: Fx { level: 0, in_loop: false, kind: None, module: false, ret: None, self_: None, super_: None, class: 0, blocks: 0 },
        global_ops: Vec::new(),
        cur_exports: Vec::new(),
        shadow,
        odd_names,
        wide_left: 0,
        wide: Vec::new(),
    };
    if g.w.limit {
        g.wide_left = 1;
    } else if g.w.wide > 0 && g.s.below(4) == 3 {
        g.wide_left = 1 + g.s.below(2);
    }
    let mut p = Program { layout: layout as u64, ..Default::default() };
    let modules = if g.w.modules == 0 { 0 } else { g.s.weighted(&[6, g.w.modules * 2, g.w.modules, g.w.modules / 2]) };
    g.module_names = (0..modules).map(|i| format!("m{}", i)).collect();
    // A module imports the modules generated before it; now and then it names itself or a later one.
    for i in 0..modules {
        let share = (g.budget / (modules as i32 + 2)).max(15);
        let rest = g.budget - share;
        g.budget = share;
        g.fx.module = true;
        g.cur_exports = Vec::new();
        let b = g.top();
        let exports = std::mem::take(&mut g.cur_exports);
        let name = g.module_names[i].clone();
        g.exports.push((name.clone(), exports));
        p.modules.push((name, b));
        g.budget = rest;
    }
    g.fx.module = false;
    p.main = g.top();
    p.vars = g.vars;
    p.wide = g.wide;
    p
}

impl Gen<'_> {
    // ---- choices ---------------------------------------------------------------------------------------------------

    fn pct(&mut self, p: u32) -> bool {
        self.s.chance(p, 100)
    }

    fn tag(&mut self) -> E {
        self.tag += 1;
        E::Int(self.tag)
    }

    fn new_name(&mut self, prefix: &str) -> String {
        self.uniq += 1;
        // Names that start like a keyword, or look like nothing else, are names all the same.
        if self.odd_names && self.pct(25) {
            let k = self.s.below(ODD_NAMES.len() as u32) as usize;
            return format!("{}{}", ODD_NAMES[k], self.uniq);
        }
        format!("{}{}", prefix, self.uniq)
    }

    fn new_var(&mut self, name: String, mutable: bool) -> VarId {
        self.vars.push(VarInfo { name, mutable });
        self.vars.len() as VarId - 1
    }

    /// A name for a new variable: mostly a fresh one, sometimes one that shadows another.
    fn var_name(&mut self) -> String {
        if self.shadow > 0 && self.pct(self.shadow) {
            if !self.fx.module && !self.exports.is_empty() && self.pct(40) {
                let m = self.s.below(self.exports.len() as u32) as usize;
                // The names of classes serve as types as well: they are left alone.
                let names: Vec<String> =
                    self.exports[m].1.iter().filter(|e| !matches!(e.t, T::Class(_))).map(|e| e.name.clone()).collect();
                if !names.is_empty() {
                    return names[self.s.below(names.len() as u32) as usize].clone();
                }
            }
            let i = self.s.below(INT_NAMES.len() as u32) as usize;
            INT_NAMES[i].to_string()
        } else {
            self.new_name("v")
        }
    }

    fn declare(&mut self, id: VarId, t: T) {
        let level = self.fx.level;
        self.env.push(Bind { id, t, level, pending: false });
    }

    fn visible(&self) -> Vec<usize> {
        let mut out = Vec::new();
        for (i, b) in self.env.iter().enumerate() {
            if b.pending && b.level == self.fx.level {
                continue;
            }
            let name = &self.vars[b.id as usize].name;
            if self.env[i + 1..].iter().any(|o| self.vars[o.id as usize].name == *name) {
                continue;
            }
            out.push(i);
        }
        out
    }

    fn pick_where(&mut self, f: impl Fn(&Self, &Bind) -> bool) -> Option<(VarId, T)> {
        let c: Vec<usize> = self.visible().into_iter().filter(|i| f(self, &self.env[*i])).collect();
        if c.is_empty() {
            return None;
        }
        // Prefer variables declared recently and captured ones alike.
        let i = c[c.len() - 1 - self.s.below(c.len() as u32) as usize];
        Some((self.env[i].id, self.env[i].t.clone()))
    }

    fn fits(have: &T, want: &T) -> bool {
        have == want
            || match want {
                T::OptInt => *have == T::Int,
                T::OptObj => *have == T::Obj,
                T::OptHost => *have == T::Host,
                T::Any => !matches!(have, T::Module | T::Class(_)),
                _ => false,
            }
    }

    fn var_of(&mut self, t: &T) -> Option<E> {
        let v = match t {
            T::Inst(c) => {
                let c = *c;
                self.pick_where(|g, b| matches!(b.t, T::Inst(i) if g.derives(i, c)))
            }
            T::Fn(k) => {
                let k = *k;
                self.pick_where(|g, b| match &b.t {
                    T::Fn(i) => *i == k,
                    T::Sig(s) => g.int_sig(*s) == Some(k),
                    _ => false,
                })
            }
            t => self.pick_where(|_, b| Self::fits(&b.t, t)),
        };
        v.map(|(v, _)| E::Var(v))
    }

    fn int_sig(&self, s: usize) -> Option<usize> {
        let (p, r) = &self.sigs[s];
        (*r == T::Int && p.iter().all(|t| *t == T::Int)).then_some(p.len())
    }

    fn derives(&self, mut c: usize, base: usize) -> bool {
        loop {
            if c == base {
                return true;
            }
            match self.classes[c].base {
                Some(b) => c = b,
                None => return false,
            }
        }
    }

    fn simple_type(&mut self) -> T {
        match self.s.weighted(&[8, 3, 2, 1, 3, 2, self.w.closures, self.w.objects, self.w.objects / 2, 1, 1, 1]) {
            0 => T::Int,
            1 => T::Bool,
            2 => T::Str,
            3 => T::Float,
            4 => T::OptInt,
            5 => T::Res,
            6 => T::Fn(self.s.below(3) as usize),
            7 => T::Obj,
            8 => T::OptObj,
            9 => T::Host,
            10 => T::Arr,
            _ => T::Any,
        }
    }

    fn value_type(&mut self) -> T {
        if self.w.classes > 0 && self.pct(10) {
            if let Some((_, T::Class(c))) = self.pick_where(|_, b| matches!(b.t, T::Class(_))) {
                return T::Inst(c);
            }
        }
        self.simple_type()
    }

    /// The annotation for a type, if it has one here.
    fn annotation(&mut self, t: &T) -> Option<TyRef> {
        let g = |n, nullable| Some(TyRef { name: TyName::Global(n), nullable });
        if self.pct(8) {
            return g("Any", true);
        }
        match t {
            T::Int => g("Int", self.pct(15)),
            T::Bool => g("Bool", self.pct(10)),
            T::Str => g("String", false),
            T::Float => g("Float", false),
            T::OptInt => g("Int", true),
            T::Res => g("Result", false),
            T::Fn(_) | T::Sig(_) => g("Function", false),
            T::Obj => g("Any", false),
            T::OptObj => g("Any", true),
            T::Host => g("Host", false),
            T::OptHost => g("Host", true),
            T::Arr => g("Array", false),
            T::Any => g("Any", true),
            T::Unit => g("Unit", false),
            T::Inst(c) => {
                let c = *c;
                let (v, _) = self.pick_where(|g, b| matches!(b.t, T::Class(k) if g.derives(c, k)))?;
                Some(TyRef { name: TyName::Var(v), nullable: self.pct(15) })
            }
            T::Class(_) => g("Class", false),
            T::Module => None,
        }
    }

    // ---- programs and blocks ---------------------------------------------------------------------------------------

    fn top(&mut self) -> Blk {
        let mark = self.env.len();
        let mut stmts = Vec::new();
        let mut count = 0;
        if self.w.limit && self.wide_left > 0 && !self.fx.module && self.s.below(3) == 0 {
            self.wide(&mut stmts, 3);
        }
        while self.budget > 0 && count < 40 {
            self.stmt(&mut stmts, 4);
            count += 1;
        }
        self.budget = self.budget.max(6);
        if self.fx.module {
            if self.cur_exports.is_empty() {
                self.export(&mut stmts, 2);
            }
        } else {
            if self.w.limit && self.wide_left > 0 {
                self.wide(&mut stmts, 3);
            }
            let t = self.value_type();
            let e = self.e(&t, 3);
            stmts.push(S::Expr(e));
        }
        self.env.truncate(mark);
        Blk { stmts }
    }

    /// A block in the current function that ends with a value of the type.
    fn block(&mut self, t: &T, d: u32, max: u32) -> Blk {
        let mark = self.env.len();
        self.fx.blocks += 1;
        let mut stmts = Vec::new();
        for _ in 0..self.s.below(max + 1) {
            if self.budget <= 0 {
                break;
            }
            self.stmt(&mut stmts, d);
        }
        if *t == T::Unit {
            if stmts.is_empty() || self.pct(20) {
                let e = self.e(&T::Unit, d);
                stmts.push(S::Expr(e));
            }
            self.exit(&mut stmts, d, 8);
        } else if !(self.w.exits > 0 && self.exit(&mut stmts, d, 3)) {
            let e = self.e(t, d);
            stmts.push(S::Expr(e));
        }
        self.fx.blocks -= 1;
        self.env.truncate(mark);
        Blk { stmts }
    }

    /// Sometimes leaves the loop or the function at the end of a block.
    fn exit(&mut self, stmts: &mut Vec<S>, d: u32, p: u32) -> bool {
        if !self.pct(p * self.w.exits.min(8)) {
            return false;
        }
        if self.fx.in_loop && self.s.below(3) < 2 {
            stmts.push(if self.s.below(2) == 0 { S::Continue } else { S::Break });
            return true;
        }
        match (self.fx.kind, self.fx.ret.clone()) {
            (None, _) => false,
            (Some(FnKind::Ctor), _) | (_, Some(T::Unit)) | (_, None) => {
                stmts.push(S::Return(None));
                true
            }
            (_, Some(t)) => {
                let e = self.e(&t, d.saturating_sub(1));
                stmts.push(S::Return(Some(e)));
                true
            }
        }
    }

    fn cond_exit(&mut self, stmts: &mut Vec<S>, d: u32) {
        let c = self.e(&T::Bool, d.saturating_sub(1).min(1));
        let mark = self.env.len();
        self.fx.blocks += 1;
        let mut inner = Vec::new();
        if self.pct(40) {
            self.stmt(&mut inner, d.saturating_sub(2));
        }
        if !self.exit(&mut inner, d, 100) {
            let e = self.e(&T::Unit, 0);
            inner.push(S::Expr(e));
        }
        self.fx.blocks -= 1;
        self.env.truncate(mark);
        stmts.push(S::Expr(E::If(Box::new(c), Blk { stmts: inner }, None)));
    }

    fn stmt(&mut self, out: &mut Vec<S>, d: u32) {
        self.budget -= 1;
        if d == 0 {
            let e = self.e(&T::Unit, 0);
            out.push(S::Expr(e));
            return;
        }
        let w = &self.w;
        let top = self.fx.kind.is_none() && self.fx.blocks == 0;
        let in_fn = self.fx.kind.is_some();
        let exits = if in_fn || self.fx.in_loop { w.exits } else { 0 };
        let weights = [
            6,
            8,
            w.objects,
            5 + w.closures,
            (w.calls + w.closures).min(6) * if d > 1 { 1 } else { 0 },
            if d > 2 && self.classes.len() < 5 { w.classes } else { 0 },
            4 + w.lazy,
            w.loops * 2,
            exits * 2,
            w.callbacks * 2,
            if self.module_names.is_empty() || self.fx.level > 1 { 0 } else { w.modules * 2 },
            if self.fx.module && top { 4 + w.modules * 2 } else { 0 },
            if top && self.global_ops.len() < 4 { w.ops } else { 0 },
            2,
            if self.wide_left > 0 { 3 } else { 0 },
            w.odd,
            w.lib,
        ];
        match self.s.weighted(&weights) {
            0 => {
                let e = self.e(&T::Unit, d);
                out.push(S::Expr(e));
            }
            1 => self.let_(out, d),
            14 => self.wide(out, d),
            15 => self.odd(out, d),
            16 => self.lib(out, d),
            2 => {
                // Destructuring: the names are the fields of objects.
                let e = self.e(&T::Obj, d - 1);
                let mut vs = Vec::new();
                for (n, t) in [("a", T::Int), ("b", T::OptInt), ("o", T::OptObj)] {
                    if vs.is_empty() || self.s.below(2) == 1 {
                        let v = self.new_var(n.to_string(), false);
                        vs.push((v, t));
                    }
                }
                // Fields that the object does not have are null.
                if self.pct(30) {
                    for _ in 0..1 + self.s.below(4) {
                        let n = self.new_name("z");
                        let v = self.new_var(n, false);
                        vs.push((v, T::OptInt));
                    }
                }
                let ids = vs.iter().map(|v| v.0).collect();
                for (v, t) in vs {
                    self.declare(v, t);
                }
                out.push(S::LetDestr(ids, e));
            }
            3 => {
                let e = self.assign(d);
                out.push(S::Expr(e));
            }
            4 => self.fns(out, d),
            5 => self.class(out, d),
            6 => {
                let e = self.if_unit(d);
                out.push(S::Expr(e));
            }
            7 => self.loop_(out, d),
            8 => self.cond_exit(out, d),
            9 => {
                let e = self.callback(d);
                out.push(S::Expr(e));
            }
            10 => self.import(out),
            11 => self.export(out, d),
            12 => self.global_op(out, d),
            _ => {
                let t = self.value_type();
                let e = self.e(&t, d);
                out.push(S::Expr(e));
            }
        }
    }

    fn logged(&mut self, out: &mut Vec<S>, e: E) {
        let t = self.tag();
        out.push(S::Expr(E::Call(Box::new(E::Global("log")), vec![t, e])));
    }

    fn bare_fn(&mut self, name: &str, kind: FnKind, params: Vec<(VarId, Option<TyRef>)>, ret: Option<TyRef>, stmts: Vec<S>) -> Rc<FnDef> {
        let body = Blk { stmts };
        let free = free_vars(&params, &ret, &body);
        Rc::new(FnDef { name: name.into(), params, ret, kind, body, bare: false, free })
    }

    /// An empty class, or one with a constructor that does nothing.
    fn bare_class(&mut self, base: Option<E>, ctor: bool) -> (VarId, S) {
        let name = self.new_name("C");
        let var = self.new_var(name, false);
        let super_var = self.new_var("super".into(), false);
        let mut items = Vec::new();
        if ctor {
            let self_ = self.new_var("self".into(), false);
            let t = self.tag();
            let stmts = if base.is_some() {
                vec![S::Expr(E::SuperCall { super_: super_var, self_, args: vec![] })]
            } else {
                vec![S::Expr(E::AssignField(Box::new(E::Var(self_)), "k".into(), AOp::Set, Box::new(t)))]
            };
            let f = self.bare_fn("new", FnKind::Ctor, vec![(self_, None)], None, stmts);
            items.push(ClassItem::Fn(f));
        }
        (var, S::Class(Rc::new(ClassDef { var, super_var, base, items })))
    }

    /// A value, mostly of the named class of the library.
    fn lib_value(&mut self, class: &str, d: u32) -> E {
        if self.pct(15) {
            return match self.s.below(4) {
                0 => E::Null,
                1 => E::Unit,
                2 => self.host("hx"),
                _ => {
                    let t = self.value_type();
                    self.e(&t, d)
                }
            };
        }
        match class {
            "Bool" => self.e(&T::Bool, d),
            "Int" => match self.s.below(4) {
                0 => E::Field(Box::new(E::Global("Int")), ["MAX", "MIN", "I32_MAX", "U8_MAX"][self.s.below(4) as usize].into()),
                1 => E::Neg(Box::new(E::Int(1 + self.s.below(70) as i64))),
                2 => E::Int(self.s.below(70) as i64),
                _ => self.e(&T::Int, d),
            },
            "Float" => match self.s.below(5) {
                0 => {
                    let n = ["MAX", "MIN", "NAN", "INFINITY", "NEG_INFINITY", "PI", "EPSILON"][self.s.below(7) as usize];
                    E::Field(Box::new(E::Global("Float")), n.into())
                }
                1 => E::Neg(Box::new(E::Float([0.0, 0.5, 1.0, 2.5, 1e9][self.s.below(5) as usize]))),
                2 | 3 => E::Float([0.0, 0.25, 0.5, 1.0, 1.5, 2.5, 3.5, 100.0, 1e10][self.s.below(9) as usize]),
                _ => self.e(&T::Float, d),
            },
            "String" => match self.s.below(3) {
                0 => self.e(&T::Str, d),
                _ => {
                    let n = self.s.below(16) as usize;
                    E::Str(
                        [
                            "12", "-3", "+5", "1.5", "true", "false", "", " 1", "1e3", "NaN", "-inf", "9223372036854775808", "0x10", "True", "-0", "٣",
                        ][n]
                            .into(),
                    )
                }
            },
            "Function" => match self.s.below(3) {
                0 => E::Global("log"),
                1 => self.anon(&[T::Int], T::Int, d),
                _ => {
                    let a = self.e(&T::Arr, d);
                    E::Field(Box::new(a), "pop".into())
                }
            },
            "Array" => match self.s.below(3) {
                0 => self.e(&T::Arr, d),
                _ => {
                    let n = self.s.below(4);
                    let items = (0..n)
                        .map(|_| {
                            let c = ["Int", "String", "Bool", "Float"][self.s.below(4) as usize];
                            self.lib_value(c, 0)
                        })
                        .collect();
                    E::List(items)
                }
            },
            "Class" => match self.s.below(4) {
                0 => match self.pick_where(|_, b| matches!(b.t, T::Class(_))) {
                    Some((v, _)) => E::Var(v),
                    None => E::Global("Any"),
                },
                1 => {
                    let c = ["Int", "String", "Any", "Object"][self.s.below(3) as usize];
                    let v = self.lib_value(c, d);
                    E::Call(Box::new(E::Field(Box::new(v), "class_of".into())), vec![])
                }
                _ => {
                    let n = self.s.below(10) as usize;
                    E::Global(["Any", "Int", "Float", "Bool", "String", "Array", "Function", "Unit", "Class", "Module"][n])
                }
            },
            _ => {
                let t = if self.s.below(2) == 0 { T::Obj } else { self.value_type() };
                self.e(&t, d)
            }
        }
    }

    /// Classes of the standard library.
    fn lib(&mut self, out: &mut Vec<S>, d: u32) {
        const CLASSES: [&str; 8] = ["Bool", "Int", "Float", "String", "Function", "Array", "Class", "Any"];
        let d = d.min(2);
        match self.s.below(12) {
            0 => {
                let class = ["Int", "Float"][self.s.below(2) as usize];
                let all = crate::library::constants(class);
                let (name, _) = all[self.s.below(all.len() as u32) as usize];
                self.logged(out, E::Field(Box::new(E::Global(class)), name.into()));
            }
            1..=3 => {
                // Conversions.
                let class = CLASSES[self.s.below(6) as usize];
                let of = if self.s.below(2) == 0 { class } else { CLASSES[self.s.below(8) as usize] };
                let n = match self.s.below(8) {
                    0 => 0,
                    1 => 2,
                    _ => 1,
                };
                let args = (0..n).map(|_| self.lib_value(of, d)).collect();
                self.logged(out, E::Call(Box::new(E::Global(class)), args));
            }
            4..=7 => {
                // A method of a value.
                let class = CLASSES[self.s.below(8) as usize];
                let this = self.lib_value(class, d);
                let of = if self.s.below(3) == 0 { "Any" } else { class };
                let methods = crate::library::METHODS.iter().find(|m| m.0 == of).map_or(&[][..], |m| m.1);
                let n = self.s.below(methods.len() as u32) as usize;
                let name = methods[n].trim_start_matches('#');
                let n = match self.s.below(8) {
                    0 => 0,
                    1 => 2,
                    _ => 1,
                };
                let of = match name {
                    "first" | "filter" | "map" => "Function",
                    "push" => "Int",
                    _ => class,
                };
                let args = (0..n).map(|_| self.lib_value(of, d)).collect();
                let e = E::Call(Box::new(E::Field(Box::new(this), name.into())), args);
                self.logged(out, e);
            }
            8 | 9 => {
                // Callbacks out of the library.
                let a = self.lib_value("Array", d);
                let name = ["first", "filter", "map"][self.s.below(3) as usize];
                let ret = if self.pct(20) { self.value_type() } else if name == "map" { T::Int } else { T::Bool };
                let types = [T::Int];
                let f = if self.s.below(5) == 0 { self.lib_value("Function", d) } else { self.anon(&types, ret, d + 1) };
                let e = E::Call(Box::new(E::Field(Box::new(a), name.into())), vec![f]);
                self.logged(out, e);
            }
            10 => {
                // An iterator by hand, over an array that changes.
                let name = self.new_name("r");
                let v = self.new_var(name, false);
                let e = self.lib_value("Array", d);
                out.push(S::Let(v, e));
                let name = self.new_name("i");
                let it = self.new_var(name, false);
                let call = |of: E, name: &str, args: Vec<E>| E::Call(Box::new(E::Field(Box::new(of), name.into())), args);
                out.push(S::Let(it, call(E::Var(v), "iter", vec![])));
                for _ in 0..2 + self.s.below(5) {
                    match self.s.below(5) {
                        0 => {
                            let item = self.tag();
                            out.push(S::Expr(call(E::Var(v), "push", vec![item])));
                        }
                        1 => self.logged(out, call(E::Var(v), "pop", vec![])),
                        2 => self.logged(out, E::Field(Box::new(call(E::Var(it), "next", vec![])), "done".into())),
                        3 => self.logged(out, call(E::Var(it), "next", vec![])),
                        _ => self.logged(out, E::Field(Box::new(call(E::Var(it), "next", vec![])), "value".into())),
                    }
                }
            }
            _ => {
                // What a value is.
                let class = CLASSES[self.s.below(8) as usize];
                let this = self.lib_value(class, d);
                let is = CLASSES[self.s.below(8) as usize];
                match self.s.below(4) {
                    0 => self.logged(out, E::Is(Box::new(this), TyRef { name: TyName::Global(is), nullable: false })),
                    1 => {
                        let c = E::Call(Box::new(E::Field(Box::new(this), "class_of".into())), vec![]);
                        self.logged(out, E::Bin(Op::Eq, Box::new(c), Box::new(E::Global(is))));
                    }
                    2 => {
                        let c = E::Call(Box::new(E::Field(Box::new(this), "class_of".into())), vec![]);
                        let n = ["name", "base"][self.s.below(2) as usize];
                        self.logged(out, E::Call(Box::new(E::Field(Box::new(c), n.into())), vec![]));
                    }
                    _ => {
                        let e = E::Call(Box::new(E::Field(Box::new(this), "to_string".into())), vec![]);
                        let e = E::Bin(Op::Add, Box::new(e), Box::new(E::Str(".".into())));
                        self.logged(out, e);
                    }
                }
            }
        }
    }

    fn odd(&mut self, out: &mut Vec<S>, d: u32) {
        let d = d.min(2);
        match self.s.below(13) {
            0 => {
                // The value of an assignment.
                let e = self.assign(d);
                self.logged(out, e);
            }
            1 => {
                // Fields of an array, and of a class.
                let v = if self.s.below(2) == 0 { self.pick_where(|_, b| matches!(b.t, T::Arr | T::Class(_))) } else { None };
                let v = match v {
                    Some((v, _)) => v,
                    None => {
                        let name = self.new_name("r");
                        let v = self.new_var(name, false);
                        let e = self.arr(1);
                        out.push(S::Let(v, e));
                        self.declare(v, T::Arr);
                        v
                    }
                };
                let name = ["extra", "a", "length"][self.s.below(3) as usize];
                let e = self.e(&T::Int, 1);
                if self.s.below(4) > 0 {
                    out.push(S::Expr(E::AssignField(Box::new(E::Var(v)), name.into(), AOp::Set, Box::new(e))));
                }
                for n in ["extra", name] {
                    self.logged(out, E::Field(Box::new(E::Var(v)), n.into()));
                }
                let key = E::Index(Box::new(E::Var(v)), Box::new(E::Str(name.into())));
                self.logged(out, key);
            }
            2 => {
                let t = self.value_type();
                let e = self.e(&t, 1);
                let n = ["new", "new", "nothing", "iter", "#add"][self.s.below(4) as usize];
                self.logged(out, E::Field(Box::new(e), n.into()));
            }
            3 | 4 => {
                // A class of a base that may not be one.
                let base = match self.s.below(14) {
                    n @ 0..=7 => E::Global(["Int", "String", "Function", "Array", "Unit", "Bool", "Float", "Class"][n as usize]),
                    n @ 8..=10 => E::Global(["Any", "Module", "Host"][n as usize - 8]),
                    11 => self.e(&T::Int, 1),
                    12 => E::Null,
                    _ => self.host("hx"),
                };
                let ctor = self.s.below(3) == 0;
                let (v, c) = self.bare_class(Some(base), ctor);
                out.push(c);
                let args = if self.s.below(3) == 0 { vec![self.tag()] } else { vec![] };
                self.logged(out, E::Call(Box::new(E::Var(v)), args));
            }
            5 | 6 => {
                // Constructors along a line of classes, some of which have none.
                let ctor = self.s.below(3) > 0;
                let (mut v, c) = self.bare_class(None, ctor);
                out.push(c);
                let early = self.s.below(2) == 0;
                if early {
                    let t = self.tag();
                    out.push(S::Expr(E::AssignField(Box::new(E::Var(v)), "s".into(), AOp::Set, Box::new(t))));
                }
                let mut all = vec![v];
                for _ in 0..1 + self.s.below(2) {
                    let ctor = self.s.below(3) == 0;
                    let (n, c) = self.bare_class(Some(E::Var(v)), ctor);
                    out.push(c);
                    v = n;
                    all.push(v);
                }
                let k = self.s.below(all.len() as u32) as usize;
                let t = self.tag();
                out.push(S::Expr(E::AssignField(Box::new(E::Var(all[k])), "s".into(), AOp::Set, Box::new(t))));
                for a in &all {
                    self.logged(out, E::Field(Box::new(E::Var(*a)), "s".into()));
                }
                let args = if self.s.below(4) == 0 { vec![self.tag()] } else { vec![] };
                self.logged(out, E::Call(Box::new(E::Var(v)), args));
            }
            7 if self.fx.kind.is_none() && self.fx.blocks == 0 => {
                // An operator that may have been defined before.
                let op = [Op::RangeEx, Op::Gt, Op::Add, Op::Div][self.s.below(4) as usize];
                if self.s.below(2) == 0 && !self.global_ops.contains(&op) {
                    let n = self.global_ops.len();
                    self.global_op(out, d);
                    if self.global_ops.len() > n && self.s.below(2) == 0 {
                        self.global_ops.pop();
                    }
                } else {
                    let (a, b) = (self.new_var("a".into(), false), self.new_var("b".into(), false));
                    let t = self.tag();
                    let def = self.bare_fn(op.method(), FnKind::Named, vec![(a, None), (b, None)], None, vec![S::Expr(t)]);
                    out.push(S::Op(op, def));
                }
                let (a, b) = (E::Str("x".into()), self.tag());
                let op = [Op::RangeEx, Op::Gt, Op::Add, Op::Div][self.s.below(4) as usize];
                self.logged(out, E::Bin(op, Box::new(a), Box::new(b)));
            }
            7 | 8 => {
                // A value that a type may not admit.
                let n = ["Int", "Any", "String", "Unit", "Function", "Class", "Array", "Host", "Module"][self.s.below(9) as usize];
                let ty = Some(TyRef { name: TyName::Global(n), nullable: self.s.below(2) == 0 });
                let p = self.new_var("p".into(), false);
                let arg = match self.s.below(6) {
                    0 => E::Unit,
                    1 => E::Null,
                    2 => self.host("hx"),
                    3 => E::Global(["Any", "Int", "log"][self.s.below(3) as usize]),
                    _ => {
                        let t = self.value_type();
                        self.e(&t, 1)
                    }
                };
                let (pt, rt) = if self.s.below(2) == 0 { (ty, None) } else { (None, ty) };
                let name = self.new_name("t");
                let v = self.new_var(name.clone(), false);
                let f = self.bare_fn(&name, FnKind::Named, vec![(p, pt)], rt, vec![S::Expr(E::Var(p))]);
                out.push(S::Fn(v, f));
                self.logged(out, E::Call(Box::new(E::Var(v)), vec![arg]));
            }
            9 => {
                let (t, i) = match self.s.below(5) {
                    0 => (T::Arr, E::Neg(Box::new(E::Int(1)))),
                    1 => (T::Arr, E::Int(1 + self.s.below(9) as i64)),
                    2 => (T::Obj, E::Int(0)),
                    3 => (T::Int, E::Str("a".into())),
                    _ => (T::Arr, E::Float(1.5)),
                };
                let a = self.e(&t, 1);
                self.logged(out, E::Index(Box::new(a), Box::new(i)));
            }
            10 => {
                let t = self.value_type();
                let f = self.e(&t, 1);
                let args = (0..self.s.below(3)).map(|_| self.tag()).collect();
                self.logged(out, E::Call(Box::new(f), args));
            }
            11 => {
                let (t, u) = (self.value_type(), self.value_type());
                let a = self.e(&t, 1);
                let e = match self.s.below(4) {
                    0 => E::Neg(Box::new(a)),
                    1 => E::Not(Box::new(a)),
                    _ => {
                        let op = [Op::Mul, Op::Div, Op::Rem, Op::Add, Op::Sub, Op::Gt, Op::Gte, Op::Lt, Op::Lte, Op::Eq, Op::Neq, Op::RangeEx, Op::RangeIn]
                            [self.s.below(13) as usize];
                        let b = self.e(&u, 1);
                        E::Bin(op, Box::new(a), Box::new(b))
                    }
                };
                self.logged(out, e);
            }
            _ => {
                let t = self.value_type();
                let a = self.e(&t, 1);
                let v = self.tag();
                let e = E::AssignField(Box::new(a), "a".into(), AOp::Set, Box::new(v));
                self.logged(out, e);
            }
        }
    }

    /// How many parts a wide construct has.
    fn width(&mut self, kind: Wide) -> u32 {
        let n = if !self.w.limit {
            match kind {
                Wide::Jump => 20 + self.s.below(150),
                Wide::Nest => 4 + self.s.below(12),
                _ => 4 + self.s.below(30),
            }
        } else {
            let near = |g: &mut Self, at: u32| match g.s.below(4) {
                0 => at - 8 + g.s.below(17),
                1 => at + g.s.below(4) - 1,
                2 => at + g.s.below(300),
                _ => 40 + g.s.below(at - 40),
            };
            match kind {
                Wide::List | Wide::Args | Wide::Consts => near(self, 255),
                Wide::Locals | Wide::Captures => near(self, 250),
                Wide::Jump => match self.s.below(3) {
                    0 => 3000 + self.s.below(3000),
                    1 => 30 + self.s.below(600),
                    _ => 8000 + self.s.below(3000),
                },
                Wide::Nest => 10 + self.s.below(60),
            }
        };
        self.wide.push((kind, n));
        n
    }

    /// Constructs with many parts: elements, arguments, variables, captured variables, constants, statements.
    fn wide(&mut self, out: &mut Vec<S>, d: u32) {
        self.wide_left -= 1;
        let kind = [Wide::List, Wide::Args, Wide::Locals, Wide::Captures, Wide::Consts, Wide::Jump, Wide::Nest][self.s.below(7) as usize];
        let n = self.width(kind) as usize;
        let mark = self.env.len();
        match kind {
            Wide::List => {
                let at = self.s.below(n as u32) as usize;
                let items = (0..n).map(|i| if i == at || i + 1 == n { self.hi() } else { E::Int((i % 5) as i64) }).collect();
                let name = self.new_name("w");
                let v = self.new_var(name, false);
                out.push(S::Let(v, E::List(items)));
                for i in [0, at, n - 1] {
                    let t = self.tag();
                    let x = E::Index(Box::new(E::Var(v)), Box::new(E::Int(i as i64)));
                    out.push(S::Expr(E::Call(Box::new(E::Global("log")), vec![t, x])));
                }
                let t = self.tag();
                let x = E::Call(Box::new(E::Field(Box::new(E::Var(v)), "length".into())), vec![]);
                out.push(S::Expr(E::Call(Box::new(E::Global("log")), vec![t, x])));
                self.declare(v, T::Arr);
                return;
            }
            Wide::Args => {
                let at = self.s.below(n as u32) as usize;
                let saved = (self.budget, self.fx.clone());
                let mut params = Vec::new();
                for _ in 0..n {
                    self.uniq += 1;
                    let name = format!("q{}", self.uniq);
                    let v = self.new_var(name, false);
                    params.push((v, T::Int, None));
                }
                let (first, mid, last) = (params[0].0, params[at].0, params[n - 1].0);
                let list = E::List(vec![E::Var(first), E::Var(mid), E::Var(last)]);
                let t = self.tag();
                let pre = vec![S::Expr(E::Call(Box::new(E::Global("log")), vec![t, list]))];
                self.budget = 4;
                let f = self.func("", FnKind::Anon, params, T::Int, false, 1, None, pre);
                self.budget = saved.0;
                let args = (0..n).map(|i| if i == at || i + 1 == n { self.hi() } else { E::Int((i % 3) as i64) }).collect();
                let t = self.tag();
                let call = E::Call(Box::new(E::Fn(Rc::new(f))), args);
                out.push(S::Expr(E::Call(Box::new(E::Global("log")), vec![t, call])));
            }
            Wide::Locals | Wide::Captures => {
                let mut stmts = Vec::new();
                let mut vs = Vec::new();
                let mutable = self.s.below(2) == 0;
                self.fx.blocks += 1;
                for i in 0..n {
                    self.uniq += 1;
                    let name = format!("q{}", self.uniq);
                    let v = self.new_var(name, mutable);
                    let x = if self.s.below(20) == 0 { self.hi() } else { E::Int((i % 7) as i64) };
                    stmts.push(S::Let(v, x));
                    vs.push(v);
                }
                let sum = {
                    let name = self.new_name("w");
                    self.new_var(name, true)
                };
                if kind == Wide::Locals {
                    for v in &vs {
                        self.declare(*v, T::Int);
                    }
                    self.stmt(&mut stmts, d.min(2));
                    if self.s.below(2) == 0 {
                        // A function that uses the last of them.
                        let f = self.anon(&[], T::Int, 1);
                        let t = self.tag();
                        let list = E::List(vec![E::Call(Box::new(f), vec![]), E::Var(vs[n - 1])]);
                        stmts.push(S::Expr(E::Call(Box::new(E::Global("log")), vec![t, list])));
                    }
                    let (a, b) = (self.s.below(n as u32) as usize, self.s.below(n as u32) as usize);
                    let t = self.tag();
                    let list = E::List(vec![E::Var(vs[0]), E::Var(vs[a]), E::Var(vs[b]), E::Var(vs[n - 1])]);
                    stmts.push(S::Expr(E::Call(Box::new(E::Global("log")), vec![t, list])));
                } else {
                    let mut body = vec![S::Let(sum, E::Int(0))];
                    for (i, v) in vs.iter().enumerate() {
                        if mutable && i % 9 == 4 {
                            body.push(S::Expr(E::Assign(*v, AOp::Add, Box::new(E::Int(1)))));
                        }
                        body.push(S::Expr(E::Assign(sum, AOp::Add, Box::new(E::Var(*v)))));
                    }
                    let t = self.tag();
                    let list = E::List(vec![E::Var(sum), E::Var(vs[0]), E::Var(vs[n - 1])]);
                    body.push(S::Expr(E::Call(Box::new(E::Global("log")), vec![t, list])));
                    body.push(S::Expr(E::Var(sum)));
                    let body = Blk { stmts: body };
                    let free = free_vars(&[], &None, &body);
                    let f = FnDef { name: String::new(), params: vec![], ret: None, kind: FnKind::Anon, body, bare: false, free };
                    let name = self.new_name("w");
                    let fv = self.new_var(name, false);
                    stmts.push(S::Let(fv, E::Fn(Rc::new(f))));
                    for _ in 0..1 + self.s.below(2) {
                        let t = self.tag();
                        stmts.push(S::Expr(E::Call(Box::new(E::Global("log")), vec![t, E::Call(Box::new(E::Var(fv)), vec![])])));
                    }
                    let t = self.tag();
                    stmts.push(S::Expr(E::Call(Box::new(E::Global("log")), vec![t, E::Var(vs[n - 1])])));
                    if self.s.below(2) == 0 {
                        let t = self.tag();
                        stmts.push(S::Expr(E::Call(Box::new(E::Global("on")), vec![t, E::Var(fv)])));
                    }
                }
                self.fx.blocks -= 1;
                out.push(S::Expr(E::Block(Blk { stmts })));
            }
            Wide::Consts => {
                let mut items = Vec::new();
                let v = {
                    let name = self.new_name("w");
                    self.new_var(name, true)
                };
                let strings = self.s.below(3);
                items.push(S::Let(v, if strings == 1 { E::Str(String::new()) } else { E::Int(0) }));
                for i in 0..n {
                    let c = match strings {
                        1 => E::Str(format!("k{}", i)),
                        _ => E::Int(1000 + i as i64),
                    };
                    let op = if strings == 1 { AOp::Set } else { AOp::Add };
                    items.push(S::Expr(E::Assign(v, op, Box::new(c))));
                    if i % 50 == 49 || i + 1 == n {
                        let t = self.tag();
                        items.push(S::Expr(E::Call(Box::new(E::Global("log")), vec![t, E::Var(v)])));
                    }
                }
                out.push(S::Expr(E::Block(Blk { stmts: items })));
            }
            Wide::Jump => self.far(out, n, d),
            Wide::Nest => {
                let v = {
                    let name = self.new_name("w");
                    self.new_var(name, true)
                };
                let mut e = E::Assign(v, AOp::Add, Box::new(E::Int(1)));
                for i in 0..n {
                    let u = {
                        let name = self.new_name("u");
                        self.new_var(name, false)
                    };
                    let first = S::Let(u, E::Int(i as i64));
                    let t = if i % 8 == 0 { Some(self.tag()) } else { None };
                    let mut stmts = vec![first, S::Expr(e)];
                    if let Some(t) = t {
                        stmts.push(S::Expr(E::Call(Box::new(E::Global("log")), vec![t, E::Var(u)])));
                    }
                    let b = Blk { stmts };
                    e = match self.s.below(3) {
                        0 => E::Block(b),
                        1 => {
                            let c = if self.s.below(4) == 0 { self.hb() } else { E::Bool(true) };
                            E::If(Box::new(c), b, None)
                        }
                        _ => E::If(Box::new(E::Bool(false)), Blk { stmts: vec![S::Expr(E::Unit)] }, Some(Box::new(E::Block(b)))),
                    };
                }
                out.push(S::Let(v, E::Int(0)));
                out.push(S::Expr(e));
                let t = self.tag();
                out.push(S::Expr(E::Call(Box::new(E::Global("log")), vec![t, E::Var(v)])));
            }
        }
        self.env.truncate(mark);
    }

    /// A jump over many statements.
    fn far(&mut self, out: &mut Vec<S>, n: usize, d: u32) {
        let name = self.new_name("w");
        let k = self.new_var(name, true);
        let fill = |n: usize| -> Vec<S> { (0..n).map(|_| S::Expr(E::Assign(k, AOp::Add, Box::new(E::Int(1))))).collect() };
        let log = |g: &mut Self, e: E| {
            let t = g.tag();
            S::Expr(E::Call(Box::new(E::Global("log")), vec![t, e]))
        };
        out.push(S::Let(k, E::Int(0)));
        let mut body = fill(n);
        let end = log(self, E::Var(k));
        body.push(end);
        match self.s.below(9) {
            0 => {
                let c = self.hb();
                let els = if self.s.below(2) == 0 {
                    let mut b = fill(if self.s.below(2) == 0 { 3 } else { n });
                    let end = log(self, E::Var(k));
                    b.push(end);
                    Some(Box::new(E::Block(Blk { stmts: b })))
                } else {
                    None
                };
                out.push(S::Expr(E::If(Box::new(c), Blk { stmts: body }, els)));
            }
            1 => {
                let limit = Box::new(E::Int(2 * n as i64));
                if self.s.below(2) == 0 {
                    let c = self.hb();
                    body.insert(0, S::Expr(E::If(Box::new(c), Blk { stmts: vec![S::Break] }, None)));
                }
                out.push(S::While(E::Bin(Op::Lt, Box::new(E::Var(k)), limit), Blk { stmts: body }));
            }
            2 => {
                let c = self.hb();
                let leave = S::Expr(E::If(Box::new(E::Bin(Op::Gte, Box::new(E::Var(k)), Box::new(E::Int(n as i64)))), Blk { stmts: vec![S::Break] }, None));
                body.insert(0, S::Expr(E::If(Box::new(c), Blk { stmts: vec![S::Break] }, None)));
                if self.s.below(2) == 0 {
                    body.push(leave);
                } else {
                    body.insert(0, leave);
                }
                out.push(S::Loop(Blk { stmts: body }));
            }
            3 | 4 => {
                let name = self.new_name("i");
                let v = self.new_var(name, false);
                let src = if self.s.below(2) == 0 {
                    E::Bin(Op::RangeEx, Box::new(E::Int(0)), Box::new(E::Int(2)))
                } else {
                    E::List(vec![E::Int(5), E::Int(6)])
                };
                let c = self.hb();
                let go = if self.s.below(2) == 0 { S::Continue } else { S::Break };
                body.insert(0, S::Expr(E::If(Box::new(c), Blk { stmts: vec![go] }, None)));
                let end = log(self, E::Var(v));
                body.push(end);
                out.push(S::For(v, src, Blk { stmts: body }));
            }
            5 => {
                let a = self.hb();
                body.push(S::Expr(E::Bool(true)));
                let b = Box::new(E::Block(Blk { stmts: body }));
                let e = if self.s.below(2) == 0 { E::And(Box::new(a), b) } else { E::Or(Box::new(a), b) };
                let s = log(self, e);
                out.push(s);
            }
            6 => {
                let a = self.host("hn");
                body.push(S::Expr(E::Int(3)));
                let e = E::Coalesce(Box::new(a), Box::new(E::Block(Blk { stmts: body })));
                let s = log(self, e);
                out.push(s);
            }
            7 => {
                let h = self.host("ho");
                body.push(S::Expr(E::Int(3)));
                let t = self.tag();
                let e = E::Call(Box::new(E::Field(Box::new(E::NullP(Box::new(h))), "get".into())), vec![t, E::Block(Blk { stmts: body })]);
                let s = log(self, e);
                out.push(s);
            }
            _ => {
                let r = self.host("hr");
                let name = self.new_name("x");
                let v = self.new_var(name, false);
                body.push(S::Expr(E::Var(v)));
                let e = E::OrH(Box::new(r), v, Blk { stmts: body });
                let s = log(self, e);
                out.push(s);
            }
        }
        let end = log(self, E::Var(k));
        out.push(end);
        let _ = d;
    }

    fn let_(&mut self, out: &mut Vec<S>, d: u32) {
        let t = self.value_type();
        let e = self.e(&t, d - 1);
        let mutable = self.s.below(3) < 2;
        let name = self.var_name();
        let v = self.new_var(name, mutable);
        self.declare(v, t);
        out.push(S::Let(v, e));
    }

    fn if_unit(&mut self, d: u32) -> E {
        let c = self.e(&T::Bool, d - 1);
        let b = self.block(&T::Unit, d - 1, 2);
        let els = match self.s.below(3) {
            0 => None,
            1 => Some(Box::new(E::Block(self.block(&T::Unit, d - 1, 2)))),
            _ if d > 1 => Some(Box::new(self.if_unit(d - 1))),
            _ => None,
        };
        E::If(Box::new(c), b, els)
    }

    /// Runs a generator in the body of a loop.
    fn in_loop<X>(&mut self, f: impl FnOnce(&mut Self) -> X) -> X {
        let saved = std::mem::replace(&mut self.fx.in_loop, true);
        let r = f(self);
        self.fx.in_loop = saved;
        r
    }

    fn loop_(&mut self, out: &mut Vec<S>, d: u32) {
        match self.s.below(6) {
            0 | 1 => {
                // A range, written in the loop or computed.
                let lo = self.small(d);
                let hi = match self.s.below(3) {
                    0 => self.hi(),
                    n => E::Int(n as i64 * 2),
                };
                let op = if self.s.below(2) == 0 { Op::RangeEx } else { Op::RangeIn };
                let range = E::Bin(op, Box::new(lo), Box::new(hi));
                let src = if self.pct(25) { E::Block(Blk { stmts: vec![S::Expr(range)] }) } else { range };
                self.for_(out, src, T::Int, d);
            }
            2 => {
                let tag = self.tag();
                let n = E::Int(self.s.below(5) as i64);
                let src = E::Call(Box::new(E::Global("items")), vec![tag, n]);
                self.for_(out, src, T::OptInt, d);
            }
            3 => {
                let src = self.e(&T::Arr, d - 1);
                self.for_(out, src, T::Int, d);
            }
            4 => {
                // A counted or host-controlled `while`.
                let mark = self.env.len();
                if self.s.below(2) == 0 {
                    let mut c = self.hb();
                    if self.pct(25) {
                        // `break`, `continue` and `return` may leave the loop from its condition as well.
                        let m = self.env.len();
                        let pre = self.in_loop(|g| {
                            let mut pre = Vec::new();
                            g.fx.blocks += 1;
                            if g.pct(60) {
                                g.stmt(&mut pre, d - 1);
                            }
                            g.cond_exit(&mut pre, d - 1);
                            g.fx.blocks -= 1;
                            pre
                        });
                        self.env.truncate(m);
                        // The host ends the loop.
                        let stop = std::mem::replace(&mut c, E::Unit);
                        let mut inner = pre;
                        if self.s.below(2) == 0 {
                            inner.push(S::Expr(stop));
                            c = E::Block(Blk { stmts: inner });
                        } else {
                            let last = self.leaf(&T::Bool);
                            inner.push(S::Expr(last));
                            c = E::And(Box::new(stop), Box::new(E::Block(Blk { stmts: inner })));
                        }
                    }
                    let b = self.in_loop(|g| g.block(&T::Unit, d - 1, 3));
                    out.push(S::While(c, b));
                } else {
                    let name = self.new_name("i");
                    let i = self.new_var(name, true);
                    out.push(S::Let(i, E::Int(0)));
                    let limit = E::Int(1 + self.s.below(3) as i64);
                    let c = E::Bin(Op::Lt, Box::new(E::Var(i)), Box::new(limit));
                    let mut b = self.in_loop(|g| g.block(&T::Unit, d - 1, 3));
                    b.stmts.insert(0, S::Expr(E::Assign(i, AOp::Add, Box::new(E::Int(1)))));
                    out.push(S::While(c, b));
                    self.declare(i, T::Int);
                }
                let _ = mark;
            }
            _ => {
                let stop = self.hb();
                let mut b = self.in_loop(|g| g.block(&T::Unit, d - 1, 3));
                let leave = S::Expr(E::If(Box::new(E::Not(Box::new(stop))), Blk { stmts: vec![S::Break] }, None));
                b.stmts.insert(0, leave);
                out.push(S::Loop(b));
            }
        }
    }

    fn for_(&mut self, out: &mut Vec<S>, src: E, t: T, d: u32) {
        let mark = self.env.len();
        let name = self.var_name();
        let v = self.new_var(name, false);
        self.declare(v, t);
        let b = self.in_loop(|g| g.block(&T::Unit, d - 1, 3));
        self.env.truncate(mark);
        out.push(S::For(v, src, b));
    }

    fn callback(&mut self, d: u32) -> E {
        let tag = self.tag();
        let k = self.s.below(3) as usize;
        let f = self.fn_expr(k, d.saturating_sub(1));
        match self.s.below(4) {
            0 | 1 => E::Call(Box::new(E::Global("on")), vec![tag, f]),
            2 => {
                let delay = E::Int(self.s.below(20) as i64);
                E::Call(Box::new(E::Global("after")), vec![tag, delay, f])
            }
            _ => E::Call(Box::new(E::Global("keep")), vec![tag, f]),
        }
    }

    // ---- declarations ----------------------------------------------------------------------------------------------

    /// Generates the body of a function. `class` is given for methods.
    fn func(&mut self, name: &str, kind: FnKind, params: Vec<(VarId, T, Option<TyRef>)>, ret: T, annotate: bool, d: u32, class: Option<(usize, VarId)>, first: Vec<S>) -> FnDef {
        let mark = self.env.len();
        let saved = self.fx.clone();
        let self_ = matches!(kind, FnKind::Method | FnKind::Ctor).then(|| params[0].0);
        self.fx = Fx {
            level: saved.level + 1,
            in_loop: false,
            kind: Some(kind),
            module: saved.module,
            ret: Some(ret.clone()),
            self_,
            super_: class.map(|c| c.1),
            class: class.map_or(0, |c| c.0),
            blocks: 0,
        };
        for (v, t, _) in &params {
            self.declare(*v, t.clone());
        }
        let ty = if annotate && kind != FnKind::Anon && kind != FnKind::Ctor { self.annotation(&ret) } else { None };
        let mut body = Blk { stmts: first };
        if kind == FnKind::Ctor {
            let b = self.block(&T::Unit, d, 2);
            body.stmts.extend(b.stmts);
        } else {
            let b = self.block(&ret, d, 3);
            body.stmts.extend(b.stmts);
        }
        let bare = kind == FnKind::Anon && body.stmts.len() == 1 && matches!(body.stmts[0], S::Expr(_)) && self.s.below(4) < 3;
        self.fx = saved;
        self.env.truncate(mark);
        let params: Vec<(VarId, Option<TyRef>)> = params.into_iter().map(|(v, _, t)| (v, t)).collect();
        let free = free_vars(&params, &ty, &body);
        FnDef { name: name.to_string(), params, ret: ty, kind, body, bare, free }
    }

    fn params(&mut self, types: &[T], annotate: bool) -> Vec<(VarId, T, Option<TyRef>)> {
        let mut names: Vec<String> = Vec::new();
        let mut out = Vec::new();
        for t in types {
            let mut n = self.var_name();
            while names.contains(&n) {
                n = self.new_name("p");
            }
            names.push(n.clone());
            // The annotation is looked up among the names visible before the parameter.
            let ty = if annotate && self.s.below(3) < 2 { self.annotation(t) } else { None };
            let v = self.new_var(n, false);
            out.push((v, t.clone(), ty));
        }
        out
    }

    fn anon(&mut self, types: &[T], ret: T, d: u32) -> E {
        let ann = self.w.types > 0 && self.pct(5 * self.w.types);
        let params = self.params(types, ann);
        let f = self.func("", FnKind::Anon, params, ret, false, d.saturating_sub(1), None, Vec::new());
        E::Fn(Rc::new(f))
    }

    fn sig(&mut self) -> (Vec<T>, T) {
        let n = self.s.below(4) as usize;
        let params = (0..n).map(|_| self.value_type()).collect();
        let ret = match self.s.weighted(&[6, self.w.results * 3, 3, 1]) {
            0 => T::Int,
            1 => T::Res,
            2 => self.value_type(),
            _ => T::Unit,
        };
        (params, ret)
    }

    /// One function, or a group of functions that can call each other.
    fn fns(&mut self, out: &mut Vec<S>, d: u32) {
        let n = 1 + self.s.weighted(&[6, 2, 1]);
        let mut group = Vec::new();
        for _ in 0..n {
            let (p, r) = self.sig();
            self.sigs.push((p, r));
            let sig = self.sigs.len() - 1;
            let name = self.new_name("f");
            let v = self.new_var(name, false);
            let level = self.fx.level;
            self.env.push(Bind { id: v, t: T::Sig(sig), level, pending: true });
            group.push((v, sig));
        }
        let mut made = Vec::new();
        for (v, sig) in &group {
            let (p, r) = self.sigs[*sig].clone();
            let ann = self.w.types > 0 && self.pct(15 * self.w.types.min(6));
            let params = self.params(&p, ann);
            let name = self.vars[*v as usize].name.clone();
            let def = self.func(&name, FnKind::Named, params, r, ann, d - 1, None, Vec::new());
            made.push(S::Fn(*v, Rc::new(def)));
        }
        for (v, _) in &group {
            self.env.iter_mut().find(|b| b.id == *v).unwrap().pending = false;
        }
        out.extend(made);
    }

    fn class(&mut self, out: &mut Vec<S>, d: u32) {
        let name = self.new_name("C");
        let var = self.new_var(name, false);
        let super_var = self.new_var("super".into(), false);
        let base = if self.s.below(5) < 3 { self.pick_where(|_, b| matches!(b.t, T::Class(_))) } else { None };
        let (base_var, base) = match base {
            Some((v, T::Class(c))) => (Some(v), Some(c)),
            _ => (None, None),
        };
        let mut c = Cls { base, fields: Vec::new(), methods: Vec::new(), ctor: None, ops: Vec::new(), statics: Vec::new() };
        if let Some(b) = base {
            c.fields = self.classes[b].fields.clone();
            c.methods = self.classes[b].methods.clone();
            c.ops = self.classes[b].ops.clone();
            c.statics = self.classes[b].statics.clone();
        }
        let base_ctor = base.and_then(|b| self.classes[b].ctor.clone());
        let own_fields: Vec<(String, T)> = (0..self.s.below(3))
            .map(|_| {
                let t = self.simple_type();
                (self.new_name("g"), t)
            })
            .collect();
        let has_ctor = base_ctor.is_some() || !own_fields.is_empty() || self.s.below(3) == 0;
        if has_ctor {
            let mut types: Vec<T> = own_fields.iter().map(|f| f.1.clone()).collect();
            if base_ctor.is_some() && self.s.below(2) == 1 {
                types.push(T::Int);
            }
            c.ctor = Some(types);
        }
        c.fields.extend(own_fields.iter().cloned());
        // Signatures first, so that bodies can use all methods of the class.
        let mut own: Vec<(String, Vec<T>, T)> = Vec::new();
        for _ in 0..1 + self.s.below(3) {
            if !c.methods.is_empty() && self.s.below(2) == 0 {
                let i = self.s.below(c.methods.len() as u32) as usize;
                let m = c.methods[i].clone();
                if !own.iter().any(|o| o.0 == m.0) {
                    own.push(m);
                }
            } else {
                let (p, r) = self.sig();
                let m = (self.new_name("m"), p, r);
                c.methods.push(m.clone());
                own.push(m);
            }
        }
        let mut own_ops = Vec::new();
        if self.w.ops > 0 && self.pct(20 * self.w.ops.min(4)) {
            let op = [Op::Add, Op::Sub, Op::Mul, Op::Lt, Op::Gte, Op::Eq, Op::Div, Op::Rem, Op::Gt, Op::Lte, Op::Neq][self.s.below(11) as usize];
            let ret = if matches!(op, Op::Lt | Op::Gte | Op::Eq | Op::Gt | Op::Lte | Op::Neq) { T::Bool } else { T::Int };
            c.ops.retain(|o| o.0 != op);
            c.ops.push((op, T::Int, ret.clone()));
            own_ops.push((op, T::Int, ret));
        }
        let mut own_statics = Vec::new();
        if self.pct(20) {
            let s = (self.new_name("s"), self.s.below(3) as usize);
            c.statics.push(s.clone());
            own_statics.push(s);
        }
        self.classes.push(c);
        let ci = self.classes.len() - 1;
        let level = self.fx.level;
        self.env.push(Bind { id: var, t: T::Class(ci), level, pending: true });
        let base_e = base_var.map(|v| if self.pct(15) { E::Block(Blk { stmts: vec![S::Expr(E::Var(v))] }) } else { E::Var(v) });
        let mut items = Vec::new();
        let derived = base.is_some();
        if has_ctor {
            let types = self.classes[ci].ctor.clone().unwrap();
            let self_ = self.new_var("self".into(), false);
            let ann = self.w.types > 0 && self.pct(10 * self.w.types.min(6));
            let mut params = vec![(self_, T::Inst(ci), None)];
            params.extend(self.params(&types, ann));
            let mut first = Vec::new();
            if derived {
                let args = self.with_params(&params, FnKind::Ctor, ci, super_var, |g| {
                    base_ctor
                        .clone()
                        .unwrap_or_default()
                        .iter()
                        .map(|t| {
                            if matches!(t, T::Int | T::OptInt) && g.w.chains > 1 && g.pct(4 * g.w.chains.min(10)) {
                                let c = g.chain(2);
                                if *t == T::OptInt {
                                    return c;
                                }
                                let x = g.leaf(&T::Int);
                                return E::Coalesce(Box::new(c), Box::new(x));
                            }
                            g.e(t, d.saturating_sub(2).min(2))
                        })
                        .collect()
                });
                first.push(S::Expr(E::SuperCall { super_: super_var, self_, args }));
            }
            for (i, (n, _)) in own_fields.iter().enumerate() {
                first.push(S::Expr(E::AssignField(Box::new(E::Var(self_)), n.clone(), AOp::Set, Box::new(E::Var(params[1 + i].0)))));
            }
            let def = self.func("new", FnKind::Ctor, params, T::Unit, false, d.saturating_sub(2), Some((ci, super_var)), first);
            items.push(ClassItem::Fn(Rc::new(def)));
        }
        for (n, p, r) in own {
            let self_ = self.new_var("self".into(), false);
            let ann = self.w.types > 0 && self.pct(15 * self.w.types.min(6));
            let mut params = vec![(self_, T::Inst(ci), None)];
            params.extend(self.params(&p, ann));
            let def = self.func(&n, FnKind::Method, params, r, ann, d - 1, Some((ci, super_var)), Vec::new());
            items.push(ClassItem::Fn(Rc::new(def)));
        }
        for (op, t, r) in own_ops {
            let self_ = self.new_var("self".into(), false);
            let mut params = vec![(self_, T::Inst(ci), None)];
            let ann = self.w.types > 0 && self.pct(15 * self.w.types.min(6));
            params.extend(self.params(&[t], ann));
            let def = self.func(op.method(), FnKind::Method, params, r, ann, d.saturating_sub(2), Some((ci, super_var)), Vec::new());
            items.push(ClassItem::Op(op, Rc::new(def)));
        }
        for (n, k) in own_statics {
            let ann = self.w.types > 0 && self.pct(15 * self.w.types.min(6));
            let params = self.params(&vec![T::Int; k], ann);
            let def = self.func(&n, FnKind::Static, params, T::Int, ann, d.saturating_sub(2), None, Vec::new());
            items.push(ClassItem::Fn(Rc::new(def)));
        }
        self.env.iter_mut().find(|b| b.id == var).unwrap().pending = false;
        out.push(S::Class(Rc::new(ClassDef { var, super_var, base: base_e, items })));
    }

    fn with_params<X>(&mut self, params: &[(VarId, T, Option<TyRef>)], kind: FnKind, class: usize, super_: VarId, f: impl FnOnce(&mut Self) -> X) -> X {
        let mark = self.env.len();
        let saved = self.fx.clone();
        self.fx = Fx {
            level: saved.level + 1,
            in_loop: false,
            kind: Some(kind),
            module: saved.module,
            ret: Some(T::Unit),
            self_: Some(params[0].0),
            super_: Some(super_),
            class,
            blocks: 1,
        };
        // `self` is not complete yet: it is a value of which nothing is known.
        self.declare(params[0].0, T::Any);
        for (v, t, _) in &params[1..] {
            self.declare(*v, t.clone());
        }
        let r = f(self);
        self.fx = saved;
        self.env.truncate(mark);
        r
    }

    fn global_op(&mut self, out: &mut Vec<S>, d: u32) {
        // Operators that nothing defines for plain objects.
        let op = [Op::Gt, Op::Lte, Op::Sub, Op::Rem, Op::Add, Op::Mul][self.s.below(6) as usize];
        if self.global_ops.contains(&op) {
            return;
        }
        let ann = self.w.types > 0 && self.pct(15 * self.w.types.min(6));
        let params = self.params(&[T::Obj, T::Obj], ann);
        let def = self.func(op.method(), FnKind::Named, params, T::Int, ann, d.saturating_sub(2), None, Vec::new());
        self.global_ops.push(op);
        out.push(S::Op(op, Rc::new(def)));
    }

    fn import(&mut self, out: &mut Vec<S>) {
        let n = self.module_names.len() as u32;
        let i = self.s.below(n) as usize;
        let path = self.module_names[i].clone();
        let mut binds: Vec<(VarId, T)> = Vec::new();
        let mut items = Vec::new();
        if let Some((_, exps)) = self.exports.get(i) {
            let exps: Vec<(String, T)> = exps.iter().map(|e| (e.name.clone(), e.t.clone())).collect();
            for (name, t) in exps {
                if self.s.below(3) < 2 {
                    let v = self.new_var(name, false);
                    items.push(v);
                    binds.push((v, t));
                }
            }
        }
        let missing = self.pct(if items.is_empty() { 50 } else { 12 });
        if missing {
            // A name that is not exported may well be that of a variable in scope, or a private one of the module.
            let name = if self.pct(40) { self.var_name() } else { self.new_name("none") };
            let v = self.new_var(name, false);
            items.push(v);
            binds.push((v, T::OptInt));
        }
        let star = if items.is_empty() || self.pct(30) {
            let name = self.new_name("mod");
            let v = self.new_var(name, false);
            binds.push((v, T::Module));
            Some(v)
        } else {
            None
        };
        let mut uses: Vec<VarId> = Vec::new();
        for (v, t) in binds {
            if self.pct(60) && !matches!(t, T::Class(_)) {
                uses.push(v);
            }
            self.declare(v, t);
        }
        out.push(S::Import { star, items, path });
        for v in uses {
            let t = self.tag();
            out.push(S::Expr(E::Call(Box::new(E::Global("log")), vec![t, E::Var(v)])));
        }
    }

    fn export(&mut self, out: &mut Vec<S>, d: u32) {
        let mut tmp = Vec::new();
        match self.s.below(5) {
            0 | 1 => {
                let t = self.value_type();
                let e = self.e(&t, d.saturating_sub(1));
                let name = self.new_name("e");
                let mutable = self.s.below(2) == 1;
                let v = self.new_var(name.clone(), mutable);
                self.declare(v, t.clone());
                self.cur_exports.push(Exp { name, t });
                out.push(S::Export(Box::new(S::Let(v, e))));
            }
            2 => {
                self.fns(&mut tmp, d.max(2));
                let last = tmp.pop().unwrap();
                if let S::Fn(v, _) = &last {
                    let name = self.vars[*v as usize].name.clone();
                    let t = self.env.iter().find(|b| b.id == *v).unwrap().t.clone();
                    self.cur_exports.push(Exp { name, t });
                }
                out.extend(tmp);
                out.push(S::Export(Box::new(last)));
            }
            3 if self.w.classes > 0 && self.classes.len() < 6 => {
                self.class(&mut tmp, d.max(3));
                let last = tmp.pop().unwrap();
                if let S::Class(c) = &last {
                    let name = self.vars[c.var as usize].name.clone();
                    let t = self.env.iter().find(|b| b.id == c.var).unwrap().t.clone();
                    self.cur_exports.push(Exp { name, t });
                }
                out.push(S::Export(Box::new(last)));
            }
            _ => {
                // Exports a variable under its name; the name has to be the only one of its kind.
                let v = self.pick_where(|g, b| {
                    let n = &g.vars[b.id as usize].name;
                    b.level == 0 && n.len() > 1 && !INT_NAMES.contains(&n.as_str()) && !matches!(b.t, T::Module)
                });
                if let Some((v, t)) = v {
                    let name = self.vars[v as usize].name.clone();
                    self.cur_exports.retain(|e| e.name != name);
                    self.cur_exports.push(Exp { name, t });
                    out.push(S::ExportVar(v));
                }
            }
        }
    }

    // ---- expressions -----------------------------------------------------------------------------------------------

    fn hi(&mut self) -> E {
        let t = match self.s.below(16) {
            0 => E::Str(["s", "", " a  b", "é☃😀", "// no", "{"][self.s.below(6) as usize].into()),
            _ => self.tag(),
        };
        E::Call(Box::new(E::Global("hi")), vec![t])
    }

    fn hb(&mut self) -> E {
        let t = self.tag();
        E::Call(Box::new(E::Global("hb")), vec![t])
    }

    fn host(&mut self, f: &'static str) -> E {
        let t = self.tag();
        E::Call(Box::new(E::Global(f)), vec![t])
    }

    fn small(&mut self, d: u32) -> E {
        match self.s.below(4) {
            0 | 1 => E::Int(self.s.below(3) as i64),
            2 => self.hi(),
            _ => self.e(&T::Int, d.saturating_sub(2)),
        }
    }

    /// Loops and functions contain statements, so a value may be computed by a block in the middle of an expression.
    fn block_e(&mut self, t: &T, d: u32) -> E {
        E::Block(self.block(t, d - 1, 2))
    }

    fn if_e(&mut self, t: &T, d: u32) -> E {
        let c = self.e(&T::Bool, d - 1);
        let a = self.block(t, d - 1, 1);
        let b = if self.pct(20) && d > 1 { self.if_e(t, d - 1) } else { E::Block(self.block(t, d - 1, 1)) };
        E::If(Box::new(c), a, Some(Box::new(b)))
    }

    pub fn e(&mut self, t: &T, d: u32) -> E {
        self.budget -= 1;
        if self.w.ill > 0 && *t != T::Unit && self.s.chance(self.w.ill, 100) {
            return self.host("hx");
        }
        if d == 0 || self.budget <= 0 {
            return self.leaf(t);
        }
        // Productions that every type has.
        if *t != T::Unit {
            let w = &self.w;
            let k = self.s.weighted(&[
                20,
                8,
                3,
                2,
                w.calls * 2,
                w.classes,
                w.classes,
                if matches!(t, T::Any) { 0 } else { w.closures / 2 },
            ]);
            match k {
                1 => {
                    if let Some(v) = self.var_of(t) {
                        return v;
                    }
                }
                2 => return self.if_e(t, d),
                3 => return self.block_e(t, d),
                4 => {
                    if let Some(c) = self.call_sig(t, d) {
                        return c;
                    }
                }
                5 => {
                    if let Some(c) = self.method_call(t, d) {
                        return c;
                    }
                }
                6 => {
                    if let Some(c) = self.field_of(t) {
                        return c;
                    }
                }
                7 => {
                    // An anonymous function called on the spot.
                    let n = self.s.below(3) as usize;
                    let f = self.anon(&vec![T::Int; n], t.clone(), d);
                    let args = (0..n).map(|_| self.e(&T::Int, d - 1)).collect();
                    return E::Call(Box::new(f), args);
                }
                _ => {}
            }
        }
        match t {
            T::Int => self.int(d),
            T::Bool => self.bool_(d),
            T::Str => self.str_(d),
            T::Float => self.float(d),
            T::OptInt => self.opt_int(d),
            T::Res => self.res(d),
            T::Fn(k) => self.fn_expr(*k, d),
            T::Obj => self.obj(d),
            T::OptObj => self.opt_obj(d),
            T::Host => self.host_e(d),
            T::OptHost => self.opt_host(d),
            T::Inst(c) => self.inst(*c, d),
            T::Arr => self.arr(d),
            T::Any => {
                if self.s.below(4) == 0 {
                    self.host("hx")
                } else if self.s.below(8) == 1 {
                    self.host("fetch")
                } else {
                    let t = self.simple_type();
                    self.e(&t, d)
                }
            }
            T::Unit => self.unit(d),
            T::Sig(_) | T::Class(_) | T::Module => match self.var_of(t) {
                Some(v) => v,
                None => E::Null,
            },
        }
    }

    fn leaf(&mut self, t: &T) -> E {
        if *t != T::Unit && self.s.below(3) == 0 {
            if let Some(v) = self.var_of(t) {
                return v;
            }
        }
        match t {
            T::Int => {
                if self.s.below(3) == 2 {
                    E::Int([0, 1, 2, 3, 7, 100][self.s.below(6) as usize])
                } else {
                    self.hi()
                }
            }
            T::Bool => match self.s.below(5) {
                0 => E::Bool(true),
                1 => E::Bool(false),
                _ => self.hb(),
            },
            T::Str => {
                if self.s.below(2) == 0 {
                    E::Str(["s", "text", "", "a b", "é☃😀"][self.s.below(5) as usize].to_string())
                } else {
                    self.host("hs")
                }
            }
            T::Float => {
                if self.s.below(2) == 0 {
                    E::Float([0.0, 1.0, 2.5, 10.25][self.s.below(4) as usize])
                } else {
                    self.host("hf")
                }
            }
            T::OptInt => match self.s.below(4) {
                0 => E::Null,
                _ => self.host("hn"),
            },
            T::Res => self.host("hr"),
            T::Fn(k) => {
                let v = self.var_of(t);
                match v {
                    Some(v) => v,
                    None => {
                        self.budget += 1;
                        let saved = self.budget;
                        self.budget = 0;
                        let f = self.anon(&vec![T::Int; *k], T::Int, 1);
                        self.budget = saved;
                        f
                    }
                }
            }
            T::Obj => {
                let a = self.hi();
                E::Obj(vec![("a".into(), a)])
            }
            T::OptObj => match self.s.below(3) {
                0 => E::Null,
                _ => {
                    if let Some(v) = self.var_of(&T::OptObj) {
                        v
                    } else {
                        let a = self.hi();
                        E::Obj(vec![("a".into(), a), ("o".into(), E::Null)])
                    }
                }
            },
            T::Host | T::OptHost => self.host("ho"),
            T::Inst(c) => match self.var_of(t) {
                Some(v) => v,
                None => self.construct(*c, 0),
            },
            T::Arr => {
                let n = self.s.below(3);
                E::List((0..n).map(|i| E::Int(i as i64)).collect())
            }
            T::Any => self.host("hx"),
            T::Unit => {
                let t = self.tag();
                let v = match self.pick_where(|_, b| !matches!(b.t, T::Module)) {
                    Some((v, _)) if self.s.below(3) < 2 => E::Var(v),
                    _ => E::Int(0),
                };
                E::Call(Box::new(E::Global("log")), vec![t, v])
            }
            T::Sig(_) | T::Class(_) | T::Module => E::Null,
        }
    }

    fn unit(&mut self, d: u32) -> E {
        match self.s.weighted(&[6, 4, 1, self.w.callbacks, self.w.objects, 1]) {
            0 => {
                let t = self.tag();
                let vt = self.value_type();
                let v = self.e(&vt, d - 1);
                E::Call(Box::new(E::Global("log")), vec![t, v])
            }
            1 => self.assign(d),
            2 => {
                let b = self.block(&T::Unit, d - 1, 2);
                E::Block(b)
            }
            3 => self.callback(d),
            4 => {
                let a = self.e(&T::Arr, d - 1);
                let v = self.e(&T::Int, d - 1);
                E::Call(Box::new(E::Field(Box::new(a), "push".into())), vec![v])
            }
            _ => E::Unit,
        }
    }

    fn aop(&mut self) -> AOp {
        [AOp::Set, AOp::Add, AOp::Sub, AOp::Mul, AOp::Set, AOp::Div][self.s.below(6) as usize]
    }

    /// The right side of an assignment: a division by zero is rare.
    fn rhs(&mut self, op: AOp, e: E) -> E {
        if op != AOp::Div || self.s.below(8) == 0 {
            return e;
        }
        let k = E::Int(1 + self.s.below(5) as i64);
        if matches!(e, E::Int(_) | E::Var(_)) {
            k
        } else {
            E::Block(Blk { stmts: vec![S::Expr(e), S::Expr(k)] })
        }
    }

    /// An assignment to a variable, a field or an element.
    fn assign(&mut self, d: u32) -> E {
        match self.s.weighted(&[8, self.w.objects * 2, self.w.classes, self.w.objects]) {
            0 => {
                let v = self.pick_where(|g, b| g.vars[b.id as usize].mutable && !matches!(b.t, T::Class(_)));
                if let Some((v, t)) = v {
                    let op = if t == T::Int { self.aop() } else { AOp::Set };
                    let e = self.e(&t, d.saturating_sub(1));
                    let e = if d > 1 && self.pct(15) {
                        // The value on the right changes the variable on the left.
                        let x = self.e(&t, 1);
                        let op = if t == T::Int { self.aop() } else { AOp::Set };
                        let x = self.rhs(op, x);
                        let first = E::Assign(v, op, Box::new(x));
                        E::Block(Blk { stmts: vec![S::Expr(first), S::Expr(e)] })
                    } else {
                        e
                    };
                    let e = self.rhs(op, e);
                    return E::Assign(v, op, Box::new(e));
                }
            }
            1 => {
                if let Some(o) = self.var_of(&T::Obj) {
                    let op = self.aop();
                    if op == AOp::Set && self.s.below(3) == 0 {
                        let (n, t) = if self.s.below(2) == 0 { ("o", T::OptObj) } else { ("b", T::OptInt) };
                        let e = self.e(&t, d.saturating_sub(1));
                        return E::AssignField(Box::new(o), n.into(), AOp::Set, Box::new(e));
                    }
                    let mut e = self.e(&T::Int, d.saturating_sub(1));
                    if d > 1 && self.pct(15) {
                        let x = self.leaf(&T::Int);
                        let first = E::AssignField(Box::new(o.clone()), "a".into(), AOp::Set, Box::new(x));
                        e = E::Block(Blk { stmts: vec![S::Expr(first), S::Expr(e)] });
                    }
                    let e = self.rhs(op, e);
                    return E::AssignField(Box::new(o), "a".into(), op, Box::new(e));
                }
            }
            2 => {
                let v = self.pick_where(|g, b| matches!(b.t, T::Inst(c) if !g.classes[c].fields.is_empty()));
                if let Some((v, T::Inst(c))) = v {
                    let n = self.classes[c].fields.len() as u32;
                    let (name, t) = self.classes[c].fields[self.s.below(n) as usize].clone();
                    let op = if t == T::Int { self.aop() } else { AOp::Set };
                    let e = self.e(&t, d.saturating_sub(1));
                    let e = self.rhs(op, e);
                    return E::AssignField(Box::new(E::Var(v)), name, op, Box::new(e));
                }
            }
            _ => {
                let op = self.aop();
                if self.s.below(3) == 0 {
                    if let Some(a) = self.var_of(&T::Arr) {
                        let i = E::Int(self.s.below(2) as i64);
                        let e = self.e(&T::Int, d.saturating_sub(1));
                        return E::AssignIndex(Box::new(a), Box::new(i), AOp::Set, Box::new(e));
                    }
                }
                if let Some(o) = self.var_of(&T::Obj) {
                    let e = self.e(&T::Int, d.saturating_sub(1));
                    let key = if d > 1 && self.pct(30) {
                        let c = self.hb();
                        let s = |n: &str| Blk { stmts: vec![S::Expr(E::Str(n.into()))] };
                        E::If(Box::new(c), s("a"), Some(Box::new(E::Block(s("a")))))
                    } else {
                        E::Str("a".into())
                    };
                    let e = self.rhs(op, e);
                    return E::AssignIndex(Box::new(o), Box::new(key), op, Box::new(e));
                }
            }
        }
        self.leaf(&T::Unit)
    }

    /// A call of a visible function with that result.
    fn call_sig(&mut self, t: &T, d: u32) -> Option<E> {
        let t2 = t.clone();
        let (v, bt) = self.pick_where(|g, b| match &b.t {
            T::Sig(s) => Self::fits(&g.sigs[*s].1, &t2),
            T::Fn(_) => t2 == T::Int,
            _ => false,
        })?;
        let params = match bt {
            T::Sig(s) => self.sigs[s].0.clone(),
            T::Fn(k) => vec![T::Int; k],
            _ => return None,
        };
        let mut args: Vec<E> = params.iter().map(|p| self.arg(p, d - 1)).collect();
        if self.pct(3) {
            // Too many or too few arguments.
            if self.s.below(2) == 0 {
                let e = self.hi();
                args.push(e);
            } else {
                args.pop();
            }
        }
        Some(E::Call(Box::new(E::Var(v)), args))
    }

    fn arg(&mut self, t: &T, d: u32) -> E {
        if self.w.types > 3 && self.pct(self.w.types) {
            return self.host("hx");
        }
        self.e(t, d)
    }

    fn construct(&mut self, c: usize, d: u32) -> E {
        let v = self.pick_where(|g, b| matches!(b.t, T::Class(i) if g.derives(i, c)));
        match v {
            Some((v, T::Class(i))) => {
                let params = self.classes[i].ctor.clone().unwrap_or_default();
                let args = params.iter().map(|p| if d == 0 { self.leaf(p) } else { self.arg(p, d - 1) }).collect();
                E::Call(Box::new(E::Var(v)), args)
            }
            _ => self.host("fetch"),
        }
    }

    fn some_inst(&mut self, c: usize, d: u32) -> E {
        if self.s.below(3) < 2 {
            if let Some(v) = self.var_of(&T::Inst(c)) {
                return v;
            }
        }
        self.construct(c, d.min(1))
    }

    /// The classes of which an instance can be had here.
    fn usable_classes(&self) -> Vec<usize> {
        let mut out = Vec::new();
        for i in self.visible() {
            match self.env[i].t {
                T::Class(c) | T::Inst(c) => out.push(c),
                _ => {}
            }
        }
        out.sort();
        out.dedup();
        out
    }

    fn method_call(&mut self, t: &T, d: u32) -> Option<E> {
        let mut c: Vec<(usize, usize)> = Vec::new();
        for i in self.usable_classes() {
            for (j, m) in self.classes[i].methods.iter().enumerate() {
                if Self::fits(&m.2, t) {
                    c.push((i, j));
                }
            }
        }
        if c.is_empty() {
            return None;
        }
        let (i, j) = c[self.s.below(c.len() as u32) as usize];
        let (name, params, _) = self.classes[i].methods[j].clone();
        let in_method = matches!(self.fx.kind, Some(FnKind::Method | FnKind::Ctor)) && self.derives(self.fx.class, i);
        if in_method && self.pct(45) {
            // The implementation of the base class, or of a named class.
            let base = self.classes[self.fx.class].base;
            let far = self.pct(60);
            let mut named = None;
            if far {
                named = self.pick_where(|g, b| {
                    matches!(b.t, T::Class(k) if g.derives(g.fx.class, k) && k != g.fx.class && Some(k) != base && g.classes[k].methods.iter().any(|m| m.0 == name))
                });
            }
            if named.is_none() {
                named = self.pick_where(|g, b| {
                    matches!(b.t, T::Class(k) if g.derives(g.fx.class, k) && k != g.fx.class && g.classes[k].methods.iter().any(|m| m.0 == name))
                });
            }
            let self_ = self.fx.self_.unwrap();
            // `self` may be shadowed by nothing, as no other variable has that name.
            let target = if let (Some((v, _)), true) = (named, self.pct(50)) {
                Some((v, true))
            } else if base.map_or(false, |b| self.classes[b].methods.iter().any(|m| m.0 == name)) {
                Some((self.fx.super_.unwrap(), false))
            } else {
                None
            };
            if let Some((super_, explicit)) = target {
                let args = params.iter().map(|p| self.arg(p, d - 1)).collect();
                return Some(E::Call(Box::new(E::SuperAcc { super_, explicit, self_, name }), args));
            }
        }
        let recv = self.some_inst(i, d - 1);
        let args = params.iter().map(|p| self.arg(p, d - 1)).collect();
        Some(E::Call(Box::new(E::Field(Box::new(recv), name)), args))
    }

    fn field_of(&mut self, t: &T) -> Option<E> {
        let mut c: Vec<(usize, String)> = Vec::new();
        for i in self.usable_classes() {
            for f in &self.classes[i].fields {
                if Self::fits(&f.1, t) {
                    c.push((i, f.0.clone()));
                }
            }
        }
        if c.is_empty() {
            return None;
        }
        let (i, name) = c[self.s.below(c.len() as u32) as usize].clone();
        let recv = self.var_of(&T::Inst(i))?;
        Some(E::Field(Box::new(recv), name))
    }

    fn can_propagate(&self) -> bool {
        matches!(self.fx.kind, Some(FnKind::Named | FnKind::Anon | FnKind::Method | FnKind::Static))
            && (matches!(self.fx.ret, Some(T::Res | T::Any)) || self.fx.kind == Some(FnKind::Anon) && self.w.results > 3)
    }

    fn or_handler(&mut self, t: &T, d: u32) -> E {
        let r = self.e(&T::Res, d - 1);
        let mark = self.env.len();
        let name = self.var_name();
        let v = self.new_var(name, false);
        self.declare(v, T::Int);
        let b = self.block(t, d - 1, 2);
        self.env.truncate(mark);
        E::OrH(Box::new(r), v, b)
    }

    fn int(&mut self, d: u32) -> E {
        let w = &self.w;
        let prop = if self.can_propagate() { w.results * 4 } else { 0 };
        let weights = [
            5,
            6,
            w.lazy,
            w.results * 2,
            prop,
            w.calls,
            w.objects,
            1 + w.objects,
            1,
            w.classes + w.objects,
            w.ops * 2,
            w.ops,
            1,
            w.classes,
            w.callbacks,
        ];
        match self.s.weighted(&weights) {
            0 => self.leaf(&T::Int),
            1 => {
                let op = [Op::Add, Op::Sub, Op::Mul, Op::Add, Op::Sub, Op::Rem, Op::Div][self.s.below(7) as usize];
                let a = self.e(&T::Int, d - 1);
                let b = match op {
                    Op::Rem | Op::Div if self.s.below(8) > 0 => E::Int(1 + self.s.below(5) as i64),
                    _ => self.e(&T::Int, d - 1),
                };
                E::Bin(op, Box::new(a), Box::new(b))
            }
            2 => {
                let a = self.e(&T::OptInt, d - 1);
                let b = self.e(&T::Int, d - 1);
                E::Coalesce(Box::new(a), Box::new(b))
            }
            3 => self.or_handler(&T::Int, d),
            4 => {
                let r = self.e(&T::Res, d - 1);
                E::ErrP(Box::new(r))
            }
            5 => {
                // A function value or a pipeline.
                if self.s.below(3) == 0 {
                    let a = self.e(&T::Int, d - 1);
                    let f = self.fn_expr(1, d - 1);
                    E::Pipe(Box::new(a), Box::new(f))
                } else {
                    let k = self.s.below(3) as usize;
                    let f = self.fn_expr(k, d - 1);
                    let args = (0..k).map(|_| self.e(&T::Int, d - 1)).collect();
                    E::Call(Box::new(f), args)
                }
            }
            6 => {
                let o = self.e(&T::Obj, d - 1);
                if self.s.below(3) == 0 {
                    E::Index(Box::new(o), Box::new(E::Str("a".into())))
                } else {
                    E::Field(Box::new(o), "a".into())
                }
            }
            7 => {
                let a = self.e(&T::Arr, d - 1);
                E::Call(Box::new(E::Field(Box::new(a), "length".into())), vec![])
            }
            8 => {
                let e = self.e(&T::Int, d - 1);
                E::Neg(Box::new(e))
            }
            9 => {
                let h = self.e(&T::Host, d - 1);
                match self.s.below(3) {
                    0 => E::Field(Box::new(h), "n".into()),
                    1 => {
                        let t = self.tag();
                        E::Call(Box::new(E::Field(Box::new(h), "get".into())), vec![t])
                    }
                    _ => {
                        let x = self.e(&T::Int, d - 1);
                        E::Call(Box::new(E::Field(Box::new(h), "f".into())), vec![x])
                    }
                }
            }
            10 => {
                // Operators of classes and of the host.
                let mut c: Vec<(usize, Op)> = Vec::new();
                for i in self.usable_classes() {
                    c.extend(self.classes[i].ops.iter().filter(|o| o.2 == T::Int).map(|o| (i, o.0)));
                }
                if c.is_empty() || self.s.below(3) == 0 {
                    let op = [Op::Add, Op::Sub, Op::Mul][self.s.below(3) as usize];
                    let h = self.e(&T::Host, d - 1);
                    let x = self.e(&T::Int, d - 1);
                    E::Bin(op, Box::new(h), Box::new(x))
                } else {
                    let (i, op) = c[self.s.below(c.len() as u32) as usize];
                    let x = self.some_inst(i, d - 1);
                    let y = self.e(&T::Int, d - 1);
                    E::Bin(op, Box::new(x), Box::new(y))
                }
            }
            11 if !self.global_ops.is_empty() => {
                let n = self.global_ops.len() as u32;
                let op = self.global_ops[self.s.below(n) as usize];
                let a = self.e(&T::Obj, d - 1);
                let b = self.e(&T::Obj, d - 1);
                E::Bin(op, Box::new(a), Box::new(b))
            }
            12 => {
                // The value of an assignment to a field is the assigned value.
                match self.var_of(&T::Obj) {
                    Some(o) => {
                        let e = self.e(&T::Int, d - 1);
                        E::AssignField(Box::new(o), "a".into(), AOp::Set, Box::new(e))
                    }
                    None => self.leaf(&T::Int),
                }
            }
            13 => {
                // A static function of a class.
                let mut c: Vec<(VarId, String, usize)> = Vec::new();
                for i in self.visible() {
                    if let T::Class(k) = self.env[i].t {
                        c.extend(self.classes[k].statics.iter().map(|s| (self.env[i].id, s.0.clone(), s.1)));
                    }
                }
                if c.is_empty() {
                    return self.leaf(&T::Int);
                }
                let (v, n, k) = c[self.s.below(c.len() as u32) as usize].clone();
                let args = (0..k).map(|_| self.e(&T::Int, d - 1)).collect();
                E::Call(Box::new(E::Field(Box::new(E::Var(v)), n)), args)
            }
            14 => {
                let k = self.s.below(3) as usize;
                let f = self.fn_expr(k, d - 1);
                let mut args = vec![self.tag(), f];
                for _ in 0..k {
                    let a = self.e(&T::Int, d - 1);
                    args.push(a);
                }
                let call = E::Call(Box::new(E::Global("invoke")), args);
                let other = self.leaf(&T::Int);
                E::Coalesce(Box::new(call), Box::new(other))
            }
            _ => self.leaf(&T::Int),
        }
    }

    fn bool_(&mut self, d: u32) -> E {
        let w = &self.w;
        match self.s.weighted(&[5, 5, w.lazy * 2, w.lazy * 2, 2, w.types * 2, 3, w.ops, 2]) {
            0 => self.leaf(&T::Bool),
            1 => {
                let op = [Op::Lt, Op::Lte, Op::Gt, Op::Gte, Op::Eq, Op::Neq][self.s.below(6) as usize];
                let a = self.e(&T::Int, d - 1);
                let b = self.e(&T::Int, d - 1);
                E::Bin(op, Box::new(a), Box::new(b))
            }
            2 | 3 => {
                let a = self.e(&T::Bool, d - 1);
                let b = self.e(&T::Bool, d - 1);
                if self.s.below(2) == 0 {
                    E::And(Box::new(a), Box::new(b))
                } else {
                    E::Or(Box::new(a), Box::new(b))
                }
            }
            4 if self.s.below(4) == 0 => {
                // Whatever an escape sequence stands for.
                let t = [r#"\""#, r"\\", r#"a\"b\\"#, r"\n//", r"\t{\r", r#"\\\""#][self.s.below(6) as usize];
                let x = E::Str(t.into());
                if self.s.below(2) == 0 {
                    E::Is(Box::new(x), TyRef { name: TyName::Global("String"), nullable: false })
                } else {
                    let op = if self.s.below(2) == 0 { Op::Eq } else { Op::Neq };
                    E::Bin(op, Box::new(x.clone()), Box::new(x))
                }
            }
            4 => {
                let a = self.e(&T::Bool, d - 1);
                E::Not(Box::new(a))
            }
            5 => {
                let t = self.value_type();
                let vt = if self.s.below(2) == 0 { t.clone() } else { T::Any };
                let v = self.e(&vt, d - 1);
                match self.annotation(&t) {
                    Some(t) => E::Is(Box::new(v), t),
                    None => self.leaf(&T::Bool),
                }
            }
            6 => {
                let t = [T::OptInt, T::Str, T::Bool, T::OptObj, T::Float][self.s.below(5) as usize].clone();
                let a = self.e(&t, d - 1);
                let b = if self.s.below(2) == 0 { E::Null } else { self.e(&t, d - 1) };
                let op = if self.s.below(2) == 0 { Op::Eq } else { Op::Neq };
                E::Bin(op, Box::new(a), Box::new(b))
            }
            8 => {
                let t = if self.s.below(3) == 2 { T::Float } else { T::Bool };
                let op = [Op::Lt, Op::Lte, Op::Gt, Op::Gte, Op::Eq, Op::Neq][self.s.below(6) as usize];
                let a = self.e(&t, d - 1);
                let b = self.e(&t, d - 1);
                E::Bin(op, Box::new(a), Box::new(b))
            }
            _ => {
                let mut c: Vec<(usize, Op)> = Vec::new();
                for i in self.usable_classes() {
                    c.extend(self.classes[i].ops.iter().filter(|o| o.2 == T::Bool).map(|o| (i, o.0)));
                }
                if c.is_empty() {
                    let op = if self.s.below(2) == 0 { Op::Lt } else { Op::Gte };
                    let h = self.e(&T::Host, d - 1);
                    let x = self.e(&T::Int, d - 1);
                    E::Bin(op, Box::new(h), Box::new(x))
                } else {
                    let (i, op) = c[self.s.below(c.len() as u32) as usize];
                    let x = self.some_inst(i, d - 1);
                    let y = self.e(&T::Int, d - 1);
                    E::Bin(op, Box::new(x), Box::new(y))
                }
            }
        }
    }

    fn str_(&mut self, d: u32) -> E {
        match self.s.below(4) {
            0 | 1 => self.leaf(&T::Str),
            2 => {
                let a = self.e(&T::Str, d - 1);
                let b = self.e(&T::Str, d - 1);
                E::Bin(Op::Add, Box::new(a), Box::new(b))
            }
            _ => {
                let h = self.e(&T::Host, d - 1);
                E::Field(Box::new(h), "s".into())
            }
        }
    }

    fn float(&mut self, d: u32) -> E {
        match self.s.below(3) {
            0 => self.leaf(&T::Float),
            1 => {
                let op = [Op::Add, Op::Sub, Op::Mul, Op::Div][self.s.below(4) as usize];
                let a = self.e(&T::Float, d - 1);
                let b = self.e(&T::Float, d - 1);
                E::Bin(op, Box::new(a), Box::new(b))
            }
            _ => {
                let e = self.e(&T::Float, d - 1);
                E::Neg(Box::new(e))
            }
        }
    }

    fn opt_int(&mut self, d: u32) -> E {
        let w = &self.w;
        match self.s.weighted(&[4, 2, w.chains * 4, 2, w.objects, w.lazy, w.callbacks]) {
            0 => self.leaf(&T::OptInt),
            1 => self.e(&T::Int, d),
            2 => self.chain(d),
            3 => {
                let a = self.e(&T::Arr, d - 1);
                let i = self.e(&T::Int, d - 1);
                E::Index(Box::new(a), Box::new(i))
            }
            4 => {
                let o = self.e(&T::Obj, d - 1);
                E::Field(Box::new(o), "b".into())
            }
            5 => {
                let a = self.e(&T::OptInt, d - 1);
                let b = self.e(&T::OptInt, d - 1);
                E::Coalesce(Box::new(a), Box::new(b))
            }
            _ => {
                let f = self.fn_expr(0, d - 1);
                let t = self.tag();
                E::Call(Box::new(E::Global("invoke")), vec![t, f])
            }
        }
    }

    /// A call chain with `?` in it.
    fn chain(&mut self, d: u32) -> E {
        let mut is_host = self.s.below(3) < 2;
        let start = if is_host { self.e(&T::OptHost, d - 1) } else { self.e(&T::OptObj, d - 1) };
        let mut e = E::NullP(Box::new(start));
        for _ in 0..self.s.below(4) {
            if is_host {
                match self.s.below(5) {
                    0 => {
                        let f = if self.s.below(3) == 2 {
                            let key = self.e_key("me", d);
                            E::Index(Box::new(e), Box::new(key))
                        } else {
                            E::Field(Box::new(e), "me".into())
                        };
                        let t = self.tag();
                        e = E::Call(Box::new(f), vec![t]);
                    }
                    3 if self.can_propagate() => {
                        let t = self.tag();
                        e = E::ErrP(Box::new(E::Call(Box::new(E::Field(Box::new(e), "rme".into())), vec![t])));
                    }
                    4 => {
                        let key = self.e_key("o", d);
                        e = E::NullP(Box::new(E::Index(Box::new(e), Box::new(key))));
                    }
                    1 => {
                        let t = self.tag();
                        let mut args = vec![t];
                        if self.s.below(2) == 1 {
                            let x = self.e(&T::Int, d - 1);
                            args.push(x);
                        }
                        e = E::NullP(Box::new(E::Call(Box::new(E::Field(Box::new(e), "opt".into())), args)));
                    }
                    _ => e = E::NullP(Box::new(E::Field(Box::new(e), "o".into()))),
                }
            } else if self.s.below(3) == 2 {
                let key = self.e_key("o", d);
                e = E::NullP(Box::new(E::Index(Box::new(e), Box::new(key))));
            } else {
                e = E::Field(Box::new(e), "o".into());
                e = E::NullP(Box::new(e));
            }
            if self.pct(5) {
                is_host = is_host && true;
            }
        }
        let end = if is_host {
            match self.s.below(6) {
                0 => E::Field(Box::new(e), "n".into()),
                1 => {
                    let t = self.tag();
                    let x = self.e(&T::OptInt, d - 1);
                    E::Call(Box::new(E::Field(Box::new(e), "get".into())), vec![t, x])
                }
                2 => {
                    let x = self.e(&T::Int, d - 1);
                    E::Call(Box::new(E::Field(Box::new(e), "f".into())), vec![x])
                }
                3 => {
                    let i = self.e_key("n", d);
                    E::Index(Box::new(e), Box::new(i))
                }
                4 if self.can_propagate() => {
                    let t = self.tag();
                    E::ErrP(Box::new(E::Call(Box::new(E::Field(Box::new(e), "res".into())), vec![t])))
                }
                _ => {
                    let t = self.tag();
                    E::Call(Box::new(E::Field(Box::new(e), "get".into())), vec![t])
                }
            }
        } else {
            match self.s.below(4) {
                0 | 1 => E::Field(Box::new(e), "a".into()),
                2 => {
                    let i = self.e_key("a", d);
                    E::Index(Box::new(e), Box::new(i))
                }
                _ => {
                    let x = self.e(&T::Int, d - 1);
                    E::Call(Box::new(E::NullP(Box::new(E::Field(Box::new(e), "g".into())))), vec![x])
                }
            }
        };
        if self.pct(15) {
            // `?` at the end of a chain.
            return E::NullP(Box::new(end));
        }
        end
    }

    /// A string that is computed, with a host call on the way.
    fn e_key(&mut self, key: &str, d: u32) -> E {
        if d > 1 && self.s.below(2) == 0 {
            let l = self.leaf(&T::Unit);
            E::Block(Blk { stmts: vec![S::Expr(l), S::Expr(E::Str(key.into()))] })
        } else {
            E::Str(key.into())
        }
    }

    fn res(&mut self, d: u32) -> E {
        match self.s.below(7) {
            0 | 1 => self.leaf(&T::Res),
            2 => {
                let e = self.e(&T::Int, d - 1);
                E::Call(Box::new(E::Global("Ok")), vec![e])
            }
            3 => {
                let e = self.e(&T::Int, d - 1);
                E::Call(Box::new(E::Global("Err")), vec![e])
            }
            4 => {
                let h = self.e(&T::Host, d - 1);
                let t = self.tag();
                E::Call(Box::new(E::Field(Box::new(h), "res".into())), vec![t])
            }
            5 => {
                let r = self.e(&T::Res, d - 1);
                let f = self.fn_expr(1, d - 1);
                E::Call(Box::new(E::Field(Box::new(r), "map".into())), vec![f])
            }
            _ => {
                // A function that propagates failures.
                let n = self.s.below(2) as usize;
                let f = self.anon(&vec![T::Int; n], T::Res, d);
                let args = (0..n).map(|_| self.e(&T::Int, d - 1)).collect();
                E::Call(Box::new(f), args)
            }
        }
    }

    fn fn_expr(&mut self, k: usize, d: u32) -> E {
        if d == 0 || self.budget <= 0 {
            return self.leaf(&T::Fn(k));
        }
        match self.s.weighted(&[8, 6, self.w.callbacks, self.w.classes * 2, 1, 1]) {
            5 => {
                // A function or another one in its place.
                let a = match self.s.below(3) {
                    0 => E::Null,
                    1 if k == 1 => E::Field(Box::new(self.e(&T::Obj, d - 1)), "g".into()),
                    _ => self.fn_expr(k, d - 1),
                };
                let b = self.fn_expr(k, d - 1);
                return E::Coalesce(Box::new(a), Box::new(b));
            }
            1 => {
                if let Some(v) = self.var_of(&T::Fn(k)) {
                    return v;
                }
            }
            2 => {
                let t = self.tag();
                let f = self.fn_expr(k, d - 1);
                return E::Call(Box::new(E::Global("wrap")), vec![t, f]);
            }
            3 => {
                // A bound method.
                let mut c: Vec<(usize, String)> = Vec::new();
                for i in self.usable_classes() {
                    for m in &self.classes[i].methods {
                        if m.2 == T::Int && m.1.len() == k && m.1.iter().all(|t| *t == T::Int) {
                            c.push((i, m.0.clone()));
                        }
                    }
                }
                if !c.is_empty() {
                    let (i, n) = c[self.s.below(c.len() as u32) as usize].clone();
                    let recv = self.some_inst(i, d - 1);
                    return E::Field(Box::new(recv), n);
                }
            }
            4 => {
                let h = self.e(&T::Host, d - 1);
                return E::Field(Box::new(h), "f".into());
            }
            _ => {}
        }
        self.anon(&vec![T::Int; k], T::Int, d)
    }

    fn obj(&mut self, d: u32) -> E {
        let a = self.e(&T::Int, d - 1);
        let mut items = vec![("a".to_string(), a)];
        if self.s.below(2) == 0 {
            let b = self.e(&T::OptInt, d - 1);
            items.push(("b".into(), b));
        }
        if self.s.below(2) == 0 {
            let o = self.e(&T::OptObj, d - 1);
            items.push(("o".into(), o));
        }
        if self.s.below(3) == 0 {
            let g = self.fn_expr(1, d - 1);
            items.push(("g".into(), g));
        }
        // The last value of a key is the one that stays.
        if self.s.below(8) == 0 {
            let a = self.e(&T::Int, d - 1);
            items.push(("a".into(), a));
        }
        E::Obj(items)
    }

    fn opt_obj(&mut self, d: u32) -> E {
        match self.s.below(4) {
            0 => E::Null,
            1 => {
                let o = self.e(&T::Obj, d - 1);
                E::Field(Box::new(o), "o".into())
            }
            2 => self.if_e(&T::OptObj, d),
            _ => self.e(&T::Obj, d),
        }
    }

    fn host_e(&mut self, d: u32) -> E {
        match self.s.below(4) {
            0 => {
                let h = self.e(&T::Host, d - 1);
                let t = self.tag();
                E::Call(Box::new(E::Field(Box::new(h), "me".into())), vec![t])
            }
            1 => {
                let a = self.e(&T::OptHost, d - 1);
                let b = self.host("ho");
                E::Coalesce(Box::new(a), Box::new(b))
            }
            _ => self.leaf(&T::Host),
        }
    }

    fn opt_host(&mut self, d: u32) -> E {
        match self.s.below(4) {
            0 => {
                let h = self.e(&T::OptHost, d - 1);
                let t = self.tag();
                E::Call(Box::new(E::Field(Box::new(E::NullP(Box::new(h))), "opt".into())), vec![t])
            }
            1 => {
                let h = self.e(&T::OptHost, d - 1);
                E::Field(Box::new(E::NullP(Box::new(h))), "o".into())
            }
            _ => self.host("ho"),
        }
    }

    fn inst(&mut self, c: usize, d: u32) -> E {
        if self.s.below(2) == 0 {
            if let Some(v) = self.var_of(&T::Inst(c)) {
                return v;
            }
        }
        self.construct(c, d)
    }

    fn arr(&mut self, d: u32) -> E {
        match self.s.below(5) {
            0 => {
                let a = self.e(&T::Arr, d - 1);
                let f = self.fn_expr(1, d - 1);
                E::Call(Box::new(E::Field(Box::new(a), "map".into())), vec![f])
            }
            1 => {
                let a = self.e(&T::Arr, d - 1);
                let f = self.anon(&[T::Int], T::Bool, d - 1);
                E::Call(Box::new(E::Field(Box::new(a), "filter".into())), vec![f])
            }
            _ => {
                let n = self.s.below(4);
                E::List((0..n).map(|_| self.e(&T::Int, d - 1)).collect())
            }
        }
    }
}

//! Turns abstract programs into source text.
use crate::ast::*;
use crate::rng::Rng;

struct R<'p> {
    vars: &'p [VarInfo],
    out: Vec<String>,
}

const ASSIGN: u8 = 1;
const PIPE: u8 = 2;
const COAL: u8 = 3;
const RANGE: u8 = 4;
const OR: u8 = 5;
const AND: u8 = 6;
const CMP: u8 = 7;
const TERM: u8 = 8;
const FACTOR: u8 = 9;
const UNARY: u8 = 10;
const POSTFIX: u8 = 11;
const PRIMARY: u8 = 14;

pub fn block_text(p: &Program, b: &Blk, which: u64) -> String {
    marked_text(p, b, which).0
}

/// The text, and the place between the marks « and » of raw text.
pub fn marked_text(p: &Program, b: &Blk, which: u64) -> (String, Option<(usize, usize)>) {
    let mut r = R { vars: &p.vars, out: Vec::new() };
    r.stmts(b);
    let mut marks = Vec::new();
    let text = layout(&r.out, if p.layout == 0 { 0 } else { p.layout + which }, &mut marks);
    let place = (marks.len() == 2).then(|| (marks[0], marks[1]));
    (text, place)
}

/// Joins tokens. The canonical layout breaks lines at braces; other layouts vary blanks, line breaks and comments.
fn layout(tokens: &[String], seed: u64, marks: &mut Vec<usize>) -> String {
    let mut rng = Rng::new(seed);
    let style = seed / 1000;
    let mut out = String::new();
    let mut indent = 0usize;
    for (i, t) in tokens.iter().enumerate() {
        if t == "«" || t == "»" {
            marks.push(out.len());
            continue;
        }
        if t == "\n" {
            out.push('\n');
            out.push_str(&"  ".repeat(indent));
            continue;
        }
        match t.as_str() {
            "{" | "#{" => indent += 1,
            "}" => indent = indent.saturating_sub(1),
            _ => {}
        }
        out.push_str(t);
        let next = tokens.get(i + 1).map_or("", |s| s.as_str());
        if next == "\n" {
            continue;
        }
        let tight = t == "!" && !next.starts_with('!') || matches!(t.as_str(), "(" | "[" | ".") || matches!(next, "(" | ")" | "," | "]" | "[" | "." | "?");
        if style == 0 {
            if !tight {
                out.push(' ');
            }
            continue;
        }
        match rng.below(if style == 1 { 12 } else { 5 }) {
            0 => out.push_str("\n"),
            1 => out.push_str(["\t", "  ", " \r\n", " \n\t ", "\u{c}"][rng.below(5) as usize]),
            2 => {
                if t.ends_with('/') {
                    out.push(' ');
                }
                out.push_str([" // note\n", " //\n", "//é { ☃😀 \"\n", " // ) } ]\r\n", "///// \\ \n"][rng.below(5) as usize])
            }
            _ => {
                if !tight {
                    out.push(' ')
                }
            }
        }
    }
    out.push('\n');
    if style == 2 && rng.below(2) == 0 {
        out.push_str("// the end");
    }
    out
}

impl R<'_> {
    fn t(&mut self, s: &str) {
        self.out.push(s.to_string());
    }
    fn var(&mut self, v: VarId) {
        let n = self.vars[v as usize].name.clone();
        self.out.push(n);
    }
    fn stmts(&mut self, b: &Blk) {
        for s in &b.stmts {
            self.t("\n");
            self.s(s);
        }
    }
    fn blk(&mut self, b: &Blk) {
        self.t("{");
        self.stmts(b);
        self.t("\n");
        self.t("}");
    }
    fn ty(&mut self, t: &TyRef) {
        match &t.name {
            TyName::Global(n) => self.t(n),
            TyName::Var(v) => self.var(*v),
        }
        if t.nullable {
            self.t("?");
        }
    }
    fn params(&mut self, ps: &[(VarId, Option<TyRef>)]) {
        for (i, (v, t)) in ps.iter().enumerate() {
            if i > 0 {
                self.t(",");
            }
            self.var(*v);
            if let Some(t) = t {
                self.t(":");
                self.ty(t);
            }
        }
    }
    fn rest_of_fn(&mut self, f: &FnDef) {
        self.t("(");
        self.params(&f.params);
        self.t(")");
        if let Some(t) = &f.ret {
            self.t("->");
            self.ty(t);
        }
        self.blk(&f.body);
    }
    fn s(&mut self, s: &S) {
        match s {
            S::Expr(e) => {
                // A statement must not look like the continuation of the one before it.
                let at = self.out.len();
                self.e(e, ASSIGN);
                let first = self.out[at..].iter().find(|t| *t != "\n").cloned().unwrap_or_default();
                if matches!(first.as_str(), "(" | "[" | "-" | "|") {
                    self.out.insert(at, "{".into());
                    self.t("}");
                }
            }
            S::Let(v, e) => {
                self.t("let");
                if self.vars[*v as usize].mutable {
                    self.t("mut");
                }
                self.var(*v);
                self.t("=");
                self.e(e, ASSIGN);
            }
            S::LetDestr(vs, e) => {
                self.t("let");
                self.t("{");
                for (i, v) in vs.iter().enumerate() {
                    if i > 0 {
                        self.t(",");
                    }
                    self.var(*v);
                }
                self.t("}");
                self.t("=");
                self.e(e, ASSIGN);
            }
            S::Fn(v, f) => {
                self.t("fn");
                self.var(*v);
                self.rest_of_fn(f);
            }
            S::Op(op, f) => {
                self.t("op");
                self.t(op.symbol());
                self.rest_of_fn(f);
            }
            S::Class(c) => {
                self.t("class");
                self.var(c.var);
                if let Some(b) = &c.base {
                    self.t(":");
                    self.e(b, PIPE);
                }
                self.t("{");
                for i in &c.items {
                    self.t("\n");
                    match i {
                        ClassItem::Fn(f) => {
                            self.t("fn");
                            self.t(&f.name);
                            self.rest_of_fn(f);
                        }
                        ClassItem::Op(op, f) => {
                            self.t("op");
                            self.t(op.symbol());
                            self.rest_of_fn(f);
                        }
                    }
                }
                self.t("\n");
                self.t("}");
            }
            S::Import { star, items, path } => {
                self.t("import");
                if let Some(v) = star {
                    self.t("*");
                    self.t("as");
                    self.var(*v);
                    if !items.is_empty() {
                        self.t(",");
                    }
                }
                if !items.is_empty() {
                    self.t("{");
                    for (i, v) in items.iter().enumerate() {
                        if i > 0 {
                            self.t(",");
                        }
                        self.var(*v);
                    }
                    self.t("}");
                }
                self.t("from");
                self.t(&format!("\"{}\"", path));
            }
            S::Export(s) => {
                self.t("export");
                self.s(s);
            }
            S::ExportVar(v) => {
                self.t("export");
                self.var(*v);
            }
            S::Loop(b) => {
                self.t("loop");
                self.blk(b);
            }
            S::While(c, b) => {
                self.t("while");
                self.e(c, PIPE);
                self.blk(b);
            }
            S::For(v, e, b) => {
                self.t("for");
                self.var(*v);
                self.t("in");
                self.e(e, PIPE);
                self.blk(b);
            }
            S::Return(e) => {
                self.t("return");
                if let Some(e) = e {
                    self.e(e, ASSIGN);
                }
            }
            S::Raw(text) => text.split(' ').for_each(|t| self.t(t)),
            S::Break => self.t("break"),
            S::Continue => self.t("continue"),
        }
    }

    fn level(e: &E) -> u8 {
        match e {
            E::Unit | E::Null | E::Bool(_) | E::Int(_) | E::Float(_) | E::Str(_) | E::Var(_) | E::Global(_) => PRIMARY,
            E::List(_) | E::Obj(_) => PRIMARY,
            // These are complete by themselves, but are put into parentheses when they are operands.
            E::If(..) | E::Block(_) => ASSIGN + 1,
            E::Assign(..) | E::AssignField(..) | E::AssignIndex(..) | E::Fn(_) => ASSIGN,
            E::Pipe(..) => PIPE,
            E::Coalesce(..) | E::OrH(..) => COAL,
            E::Or(..) => OR,
            E::And(..) => AND,
            E::Is(..) => CMP,
            E::Bin(op, ..) => match op {
                Op::RangeEx | Op::RangeIn => RANGE,
                Op::Gt | Op::Gte | Op::Lt | Op::Lte | Op::Eq | Op::Neq => CMP,
                Op::Add | Op::Sub => TERM,
                Op::Mul | Op::Div | Op::Rem => FACTOR,
            },
            E::Neg(_) | E::Not(_) => UNARY,
            E::Call(..) | E::Field(..) | E::Index(..) | E::NullP(_) | E::ErrP(_) | E::SuperAcc { .. } | E::SuperCall { .. } => POSTFIX,
        }
    }

    fn bin(&mut self, op: &str, level: u8, a: &E, b: &E) {
        self.e(a, level);
        for t in op.split(' ') {
            self.t(t);
        }
        self.e(b, level + 1);
    }

    /// The comma that may follow the last of some items.
    fn comma(&mut self, items: usize) {
        if items > 0 && self.out.len() % 8 == 0 {
            self.t(",");
        }
    }

    fn args(&mut self, args: &[E]) {
        self.t("(");
        for (i, a) in args.iter().enumerate() {
            if i > 0 {
                self.t(",");
            }
            self.e(a, ASSIGN);
        }
        self.comma(args.len());
        self.t(")");
    }

    fn e(&mut self, e: &E, min: u8) {
        let operand = matches!(e, E::If(..) | E::Block(_)) && min > PIPE;
        if Self::level(e) < min || operand {
            self.t("(");
            self.e(e, ASSIGN);
            self.t(")");
            return;
        }
        match e {
            E::Unit => {
                self.t("(");
                self.t(")");
            }
            E::Null => self.t("null"),
            E::Bool(b) => self.t(if *b { "true" } else { "false" }),
            E::Int(i) => self.t(&i.to_string()),
            E::Float(f) => self.t(&format!("{:?}", f)),
            E::Str(s) => self.t(&format!("\"{}\"", s)),
            E::Var(v) => self.var(*v),
            E::Global(n) => self.t(n),
            E::Assign(v, op, r) => {
                self.var(*v);
                self.t(op.symbol());
                self.e(r, ASSIGN);
            }
            E::AssignField(o, n, op, r) => {
                self.e(o, POSTFIX);
                self.t(".");
                self.t(n);
                self.t(op.symbol());
                self.e(r, ASSIGN);
            }
            E::AssignIndex(o, i, op, r) => {
                self.e(o, POSTFIX);
                self.t("[");
                self.e(i, ASSIGN);
                self.t("]");
                self.t(op.symbol());
                self.e(r, ASSIGN);
            }
            E::Neg(a) => {
                self.t("-");
                self.e(a, UNARY);
            }
            E::Not(a) => {
                self.t("!");
                self.e(a, UNARY);
            }
            E::Bin(op, a, b) => self.bin(op.symbol(), Self::level(e), a, b),
            E::And(a, b) => self.bin("&&", AND, a, b),
            E::Or(a, b) => self.bin("||", OR, a, b),
            E::Coalesce(a, b) => self.bin("??", COAL, a, b),
            E::Pipe(a, b) => self.bin("|>", PIPE, a, b),
            E::Is(a, t) => {
                self.e(a, CMP);
                self.t("is");
                self.ty(t);
            }
            E::If(c, b, els) => {
                self.t("if");
                self.e(c, PIPE);
                self.blk(b);
                if let Some(els) = els {
                    self.t("else");
                    self.e(els, PIPE);
                }
            }
            E::Block(b) => self.blk(b),
            E::Fn(f) => {
                self.t("|");
                self.params(&f.params);
                self.t("|");
                match (&f.body.stmts[..], f.bare) {
                    ([S::Expr(e)], true) => self.e(e, ASSIGN),
                    _ => self.blk(&f.body),
                }
            }
            E::List(items) => {
                self.t("[");
                for (i, a) in items.iter().enumerate() {
                    if i > 0 {
                        self.t(",");
                    }
                    self.e(a, ASSIGN);
                }
                self.comma(items.len());
                self.t("]");
            }
            E::Obj(items) => {
                self.t("#{");
                for (i, (n, a)) in items.iter().enumerate() {
                    if i > 0 {
                        self.t(",");
                    }
                    // A key may be a string as well.
                    match self.out.len() % 3 {
                        0 => self.t(&format!("\"{n}\"")),
                        _ => self.t(n),
                    }
                    self.t(":");
                    self.e(a, ASSIGN);
                }
                self.comma(items.len());
                self.t("}");
            }
            E::Call(f, args) => {
                self.e(f, POSTFIX);
                match &args[..] {
                    // A single text may stand behind the function without parentheses.
                    [E::Str(s)] if self.out.len() % 3 > 0 => self.t(&format!("\\{s}\\")),
                    _ => self.args(args),
                }
            }
            E::Field(a, n) => {
                self.e(a, POSTFIX);
                self.t(".");
                self.t(n);
            }
            E::Index(a, i) => {
                self.e(a, POSTFIX);
                self.t("[");
                self.e(i, ASSIGN);
                self.t("]");
            }
            E::NullP(a) => {
                self.e(a, POSTFIX);
                self.t("?");
            }
            E::ErrP(a) => {
                self.e(a, POSTFIX);
                self.t("!!");
            }
            E::OrH(a, v, b) => {
                self.e(a, COAL);
                self.t("or");
                self.var(*v);
                self.blk(b);
            }
            E::SuperAcc { super_, explicit, name, .. } => {
                self.t("super");
                if *explicit {
                    self.t("[");
                    self.var(*super_);
                    self.t("]");
                }
                self.t(".");
                self.t(name);
            }
            E::SuperCall { args, .. } => {
                self.t("super");
                self.args(args);
            }
        }
    }
}

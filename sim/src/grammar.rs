//! The language's tokens and sentences, written down independently of the lexer and the parser: which texts are programs at all, and at
//! which token the others stop being one.

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum K {
    /// A keyword, delimiter or operator.
    P(&'static str),
    Ident,
    Int,
    Float,
    Str,
    Back,
    Reserved,
    /// Not a token; with the error code if it is one of its own.
    Bad(Option<&'static str>),
    End,
}

#[derive(Clone, Copy, Debug)]
pub struct Tok {
    pub k: K,
    pub start: usize,
    pub end: usize,
}

const KEYWORDS: [&str; 24] = [
    "or", "false", "true", "null", "if", "else", "while", "loop", "for", "break", "continue", "return", "fn", "let", "mut", "in", "op", "class", "is",
    "import", "as", "from", "export", "super",
];
const RESERVED: [&str; 13] =
    ["await", "async", "yield", "do", "const", "match", "enum", "trait", "type", "try", "when", "default", "switch"];
/// Longer ones first.
const SYMBOLS: [&str; 37] = [
    "..=", "..", "->", "=>", "!!", "??", "!=", "==", ">=", "<=", "*=", "/=", "+=", "-=", "&&", "|>", "(", ")", "{", "}", "[", "]", ":", ",", "|", ".",
    "?", "-", "+", "%", "*", "/", "!", ">", "<", "=", "#",
];

pub fn tokens(text: &str) -> Vec<Tok> {
    let b = text.as_bytes();
    let mut out = Vec::new();
    let mut i = 0;
    while i < b.len() {
        let start = i;
        let k = match b[i] {
            b' ' | b'\t' | b'\r' | b'\n' | 0x0c => {
                i += 1;
                continue;
            }
            b'/' if b.get(i + 1) == Some(&b'/') => {
                while i < b.len() && b[i] != b'\n' && b[i] != b'\r' {
                    i += 1;
                }
                continue;
            }
            b'"' => {
                i += 1;
                loop {
                    match b.get(i) {
                        None => break K::Bad(None),
                        Some(b'"') => {
                            i += 1;
                            break K::Str;
                        }
                        Some(b'\\') => match b.get(i + 1) {
                            Some(b'"' | b'\\' | b'n' | b'r' | b't') => i += 2,
                            Some(_) => break K::Bad(Some("E1001")),
                            None => break K::Bad(Some("E1002")),
                        },
                        Some(_) => i += 1,
                    }
                }
            }
            b'\\' => {
                i += 1;
                loop {
                    match b.get(i) {
                        None => break K::Bad(None),
                        Some(b'\\') => {
                            i += 1;
                            break K::Back;
                        }
                        Some(_) => i += 1,
                    }
                }
            }
            b'0'..=b'9' => {
                let digits = |mut i: usize| {
                    while i < b.len() && b[i].is_ascii_digit() {
                        i += 1;
                    }
                    i
                };
                i = digits(i);
                if b.get(i) == Some(&b'.') && b.get(i + 1).is_some_and(|c| c.is_ascii_digit()) {
                    i = digits(i + 1);
                    K::Float
                } else {
                    K::Int
                }
            }
            c if c == b'_' || c.is_ascii_alphabetic() => {
                while i < b.len() && (b[i] == b'_' || b[i].is_ascii_alphanumeric()) {
                    i += 1;
                }
                let w = &text[start..i];
                match KEYWORDS.iter().find(|k| **k == w) {
                    Some(k) => K::P(k),
                    None if RESERVED.contains(&w) => K::Reserved,
                    None => K::Ident,
                }
            }
            _ => match SYMBOLS.iter().find(|s| text[i..].starts_with(**s)) {
                Some(s) => {
                    i += s.len();
                    K::P(s)
                }
                None => K::Bad(None),
            },
        };
        out.push(Tok { k, start, end: i });
        // Nobody reads beyond it.
        if let K::Bad(_) = k {
            break;
        }
    }
    out
}

/// Where a text stops being a program, and the error codes that say so.
#[derive(Debug)]
pub struct Stop {
    pub from: usize,
    pub to: usize,
    pub codes: Vec<&'static str>,
    /// The declaration or access that is incomplete: the error may be reported at its keyword.
    pub word: Option<usize>,
}

type R = Result<(), Stop>;

struct Parse<'a> {
    text: &'a str,
    t: Vec<Tok>,
    i: usize,
}

const SYNTAX: [&str; 8] = ["E1000", "E1001", "E1002", "E1003", "E1004", "E1007", "E1008", "E2505"];

/// Codes that say that a text is no program.
pub fn is_syntax(code: &str) -> bool {
    SYNTAX.contains(&code)
}

pub fn check(text: &str) -> R {
    let mut p = Parse { text, t: tokens(text), i: 0 };
    p.sequence()?;
    p.eat(K::End)
}

impl Parse<'_> {
    fn peek(&self) -> K {
        self.t.get(self.i).map_or(K::End, |t| t.k)
    }

    fn is(&self, s: &str) -> bool {
        matches!(self.peek(), K::P(k) if k == s)
    }

    fn start(&self) -> usize {
        self.t.get(self.i).map_or(self.text.len(), |t| t.start)
    }

    fn no<X>(&self, code: &'static str, word: Option<usize>) -> Result<X, Stop> {
        let (from, to) = match self.t.get(self.i) {
            Some(t) => (t.start, t.start),
            // The end of the text is reported at the last token or after it.
            None => (self.t.last().map_or(0, |t| t.start), self.text.len()),
        };
        let codes = match self.peek() {
            K::Bad(Some(c)) => vec![c],
            _ => vec![code],
        };
        Err(Stop { from, to, codes, word })
    }

    fn eat(&mut self, k: K) -> R {
        if self.peek() != k {
            return self.no("E1000", None);
        }
        self.i += 1;
        Ok(())
    }

    fn p(&mut self, s: &'static str) -> R {
        self.eat(K::P(s))
    }

    fn sequence(&mut self) -> R {
        while !(self.is("}") || self.peek() == K::End) {
            self.statement()?;
        }
        Ok(())
    }

    fn statement(&mut self) -> R {
        let K::P(s) = self.peek() else { return self.expr(1) };
        match s {
            "loop" => {
                self.i += 1;
                self.block()
            }
            "while" => {
                self.i += 1;
                self.expr(1)?;
                self.block()
            }
            "for" => {
                self.i += 1;
                self.eat(K::Ident)?;
                self.p("in")?;
                self.expr(1)?;
                self.block()
            }
            "let" => self.let_(),
            "fn" => self.func(),
            "op" => self.op(),
            "class" => self.class(),
            "import" => {
                let word = self.start();
                self.i += 1;
                let all = self.is("*");
                if all {
                    self.i += 1;
                    self.p("as")?;
                    self.eat(K::Ident)?;
                    if self.is(",") {
                        self.i += 1;
                    }
                }
                let before = self.i;
                if self.is("{") {
                    self.names("{", "}", false)?;
                }
                if let K::Bad(Some(_)) = self.peek() {
                    return self.no("E1000", None);
                }
                // `{` and `}` alone name nothing.
                if !all && self.i - before <= 2 {
                    return Err(Stop { from: word, to: word, codes: vec!["E2505"], word: None });
                }
                self.p("from")?;
                self.eat(K::Str)
            }
            "export" => {
                self.i += 1;
                match self.peek() {
                    K::P("let") => self.let_(),
                    K::P("fn") => self.func(),
                    K::P("class") => self.class(),
                    _ => self.eat(K::Ident),
                }
            }
            "break" | "continue" => {
                self.i += 1;
                Ok(())
            }
            "return" => {
                self.i += 1;
                match self.is("}") {
                    true => Ok(()),
                    false => self.expr(1),
                }
            }
            _ => self.expr(1),
        }
    }

    fn block(&mut self) -> R {
        self.p("{")?;
        self.sequence()?;
        self.p("}")
    }

    fn let_(&mut self) -> R {
        self.p("let")?;
        if self.is("mut") {
            self.i += 1;
        }
        match self.peek() {
            K::P("{") => self.names("{", "}", false)?,
            _ => self.eat(K::Ident)?,
        }
        self.p("=")?;
        self.expr(1)
    }

    fn func(&mut self) -> R {
        self.p("fn")?;
        self.eat(K::Ident)?;
        self.signature()
    }

    fn signature(&mut self) -> R {
        self.names("(", ")", true)?;
        if self.is("->") {
            self.i += 1;
            self.ty()?;
        }
        self.block()
    }

    fn op(&mut self) -> R {
        let word = self.start();
        self.p("op")?;
        match self.peek() {
            K::P("*" | "/" | "%" | "+" | "-" | ">" | ">=" | "<" | "<=" | "==" | "!=" | ".." | "..=") => self.i += 1,
            _ => return self.no("E1000", Some(word)),
        }
        self.signature()
    }

    fn class(&mut self) -> R {
        self.p("class")?;
        self.eat(K::Ident)?;
        if self.is(":") {
            self.i += 1;
            self.expr(1)?;
        }
        self.p("{")?;
        loop {
            match self.peek() {
                K::P("}") => {
                    self.i += 1;
                    return Ok(());
                }
                K::P("fn") => self.func()?,
                K::P("op") => self.op()?,
                _ => return self.no("E1000", None),
            }
        }
    }

    fn ty(&mut self) -> R {
        self.eat(K::Ident)?;
        if self.is("?") {
            self.i += 1;
        }
        Ok(())
    }

    /// Names between commas, of which the last may be followed by one.
    fn names(&mut self, open: &'static str, close: &'static str, types: bool) -> R {
        self.p(open)?;
        self.items(close, |p| {
            p.eat(K::Ident)?;
            if types && p.is(":") {
                p.i += 1;
                p.ty()?;
            }
            Ok(())
        })
    }

    fn items(&mut self, close: &'static str, item: impl Fn(&mut Self) -> R) -> R {
        while !self.is(close) {
            item(self)?;
            if self.is(",") {
                self.i += 1;
            } else if !self.is(close) {
                return self.no("E1000", None);
            }
        }
        self.p(close)
    }

    /// A token in the place of an operand or operator.
    fn known(&self) -> R {
        match self.peek() {
            K::Reserved => self.no("E1004", None),
            K::Bad(_) | K::P("else" | "in" | "as" | "from" | "mut" | "->" | "=>") => self.no("E1003", None),
            _ => Ok(()),
        }
    }

    fn assignment(&mut self, can: bool) -> R {
        if can && matches!(self.peek(), K::P("=" | "*=" | "/=" | "+=" | "-=")) {
            self.i += 1;
            return self.expr(1);
        }
        if let K::Bad(Some(_)) = self.peek() {
            return self.no("E1000", None);
        }
        Ok(())
    }

    /// Levels: 1 assignment, 2 |>, 3 ?? or, 4 .. ..=, 5 | |, 6 &&, 7 comparisons and is, 8 + -, 9 * / %, 10 prefixes, 11 ? !!, 12 . [ (
    fn expr(&mut self, level: u32) -> R {
        let can = level <= 1;
        self.known()?;
        match self.peek() {
            K::Int => {
                let t = self.t[self.i];
                if self.text[t.start..t.end].parse::<i64>().is_err() {
                    return self.no("E1007", None);
                }
                self.i += 1;
            }
            K::Float | K::Str | K::P("null" | "true" | "false") => self.i += 1,
            K::Ident => {
                self.i += 1;
                self.assignment(can)?;
            }
            K::P("if") => self.if_()?,
            K::P("#") => {
                self.i += 1;
                self.p("{")?;
                self.items("}", |p| {
                    match p.peek() {
                        K::Str | K::Int | K::Ident => p.i += 1,
                        _ => return p.no("E1000", None),
                    }
                    p.p(":")?;
                    p.expr(1)
                })?;
            }
            K::P("[") => {
                self.i += 1;
                self.items("]", |p| p.expr(1))?;
            }
            K::P("super") => {
                let word = self.start();
                self.i += 1;
                match self.peek() {
                    K::P("(") => {
                        self.i += 1;
                        self.items(")", |p| p.expr(1))?;
                    }
                    K::P("[" | ".") => {
                        if self.is("[") {
                            self.i += 1;
                            self.eat(K::Ident)?;
                            self.p("]")?;
                        }
                        self.p(".")?;
                        self.eat(K::Ident)?;
                    }
                    _ => return self.no("E1000", Some(word)),
                }
            }
            K::P("(") => {
                self.i += 1;
                if !self.is(")") {
                    self.expr(1)?;
                }
                self.p(")")?;
            }
            K::P("{") => self.block()?,
            K::P("|") => {
                self.names("|", "|", true)?;
                self.expr(1)?;
            }
            K::P("-" | "!") => {
                self.i += 1;
                self.expr(10)?;
            }
            _ => return self.no("E1000", None),
        }
        loop {
            self.known()?;
            let K::P(s) = self.peek() else {
                match self.peek() {
                    K::Back if level <= 12 => {
                        self.i += 1;
                        continue;
                    }
                    _ => return Ok(()),
                }
            };
            let at = match s {
                "|>" => 2,
                "??" | "or" => 3,
                ".." | "..=" => 4,
                "|" => 5,
                "&&" => 6,
                "==" | "!=" | ">" | ">=" | "<" | "<=" | "is" => 7,
                "+" | "-" => 8,
                "*" | "/" | "%" => 9,
                "?" | "!!" => 11,
                "." | "[" | "(" => 12,
                _ => return Ok(()),
            };
            if level > at {
                return Ok(());
            }
            self.i += 1;
            match s {
                "?" | "!!" => {}
                "." => {
                    self.eat(K::Ident)?;
                    self.assignment(can)?;
                }
                "[" => {
                    self.expr(1)?;
                    self.p("]")?;
                    self.assignment(can)?;
                }
                "(" => self.items(")", |p| p.expr(1))?,
                "is" => self.ty()?,
                "or" => {
                    self.eat(K::Ident)?;
                    self.block()?;
                }
                "|" => {
                    self.p("|")?;
                    self.expr(6)?;
                }
                _ => self.expr(at + 1)?,
            }
        }
    }

    fn if_(&mut self) -> R {
        self.p("if")?;
        self.expr(1)?;
        self.block()?;
        if !self.is("else") {
            return Ok(());
        }
        self.i += 1;
        match self.peek() {
            K::P("if") => self.if_(),
            _ => self.block(),
        }
    }
}

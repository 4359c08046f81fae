//! A minimal JSON value, writer and parser.
use std::collections::BTreeMap;
use std::fmt::Write;

#[derive(Clone, Debug, PartialEq)]
pub enum J {
    Null,
    Bool(bool),
    Num(f64),
    Int(i64),
    Str(String),
    Arr(Vec<J>),
    Obj(Vec<(String, J)>),
}

impl J {
    pub fn s(v: impl Into<String>) -> J {
        J::Str(v.into())
    }
    pub fn obj(items: Vec<(&str, J)>) -> J {
        J::Obj(items.into_iter().map(|(k, v)| (k.to_string(), v)).collect())
    }
    pub fn ints(v: &[u32]) -> J {
        J::Arr(v.iter().map(|x| J::Int(*x as i64)).collect())
    }
    pub fn map(m: &BTreeMap<String, u64>) -> J {
        J::Obj(m.iter().map(|(k, v)| (k.clone(), J::Int(*v as i64))).collect())
    }
    pub fn strs(v: &[String]) -> J {
        J::Arr(v.iter().map(|x| J::Str(x.clone())).collect())
    }
    pub fn get(&self, k: &str) -> Option<&J> {
        match self {
            J::Obj(items) => items.iter().find(|(n, _)| n == k).map(|(_, v)| v),
            _ => None,
        }
    }
    pub fn str(&self, k: &str) -> Option<String> {
        match self.get(k) {
            Some(J::Str(s)) => Some(s.clone()),
            _ => None,
        }
    }
    pub fn int(&self, k: &str) -> Option<i64> {
        match self.get(k) {
            Some(J::Int(i)) => Some(*i),
            Some(J::Num(n)) => Some(*n as i64),
            _ => None,
        }
    }
    pub fn u32s(&self, k: &str) -> Option<Vec<u32>> {
        match self.get(k) {
            Some(J::Arr(a)) => Some(
                a.iter()
                    .map(|x| match x {
                        J::Int(i) => *i as u32,
                        J::Num(n) => *n as u32,
                        _ => 0,
                    })
                    .collect(),
            ),
            _ => None,
        }
    }
    pub fn to_text(&self) -> String {
        let mut out = String::new();
        self.write(&mut out, 0);
        out
    }
    fn write(&self, out: &mut String, ind: usize) {
        match self {
            J::Null => out.push_str("null"),
            J::Bool(b) => write!(out, "{}", b).unwrap(),
            J::Int(i) => write!(out, "{}", i).unwrap(),
            J::Num(n) => {
                if n.is_finite() {
                    write!(out, "{:.3}", n).unwrap()
                } else {
                    out.push('0')
                }
            }
            J::Str(s) => quote(s, out),
            J::Arr(a) => {
                if a.iter().all(|x| matches!(x, J::Int(_) | J::Num(_) | J::Bool(_))) {
                    out.push('[');
                    for (i, x) in a.iter().enumerate() {
                        if i > 0 {
                            out.push(',');
                        }
                        x.write(out, ind);
                    }
                    out.push(']');
                    return;
                }
                out.push_str("[\n");
                for (i, x) in a.iter().enumerate() {
                    out.push_str(&" ".repeat(ind + 1));
                    x.write(out, ind + 1);
                    if i + 1 < a.len() {
                        out.push(',');
                    }
                    out.push('\n');
                }
                out.push_str(&" ".repeat(ind));
                out.push(']');
            }
            J::Obj(o) => {
                if o.is_empty() {
                    out.push_str("{}");
                    return;
                }
                out.push_str("{\n");
                for (i, (k, v)) in o.iter().enumerate() {
                    out.push_str(&" ".repeat(ind + 1));
                    quote(k, out);
                    out.push_str(": ");
                    v.write(out, ind + 1);
                    if i + 1 < o.len() {
                        out.push(',');
                    }
                    out.push('\n');
                }
                out.push_str(&" ".repeat(ind));
                out.push('}');
            }
        }
    }
    pub fn parse(text: &str) -> Result<J, String> {
        let chars: Vec<char> = text.chars().collect();
        let mut p = P { c: &chars, i: 0 };
        let v = p.value()?;
        p.ws();
        if p.i != p.c.len() {
            return Err(format!("trailing data at {}", p.i));
        }
        Ok(v)
    }
}

fn quote(s: &str, out: &mut String) {
    out.push('"');
    for c in s.chars() {
        match c {
            '"' => out.push_str("\\\""),
            '\\' => out.push_str("\\\\"),
            '\n' => out.push_str("\\n"),
            '\r' => out.push_str("\\r"),
            '\t' => out.push_str("\\t"),
            c if (c as u32) < 0x20 || c == '\u{7f}' => write!(out, "\\u{:04x}", c as u32).unwrap(),
            c => out.push(c),
        }
    }
    out.push('"');
}

struct P<'a> {
    c: &'a [char],
    i: usize,
}

impl P<'_> {
    fn ws(&mut self) {
        while self.i < self.c.len() && self.c[self.i].is_whitespace() {
            self.i += 1;
        }
    }
    fn peek(&self) -> Option<char> {
        self.c.get(self.i).copied()
    }
    fn expect(&mut self, c: char) -> Result<(), String> {
        if self.peek() == Some(c) {
            self.i += 1;
            Ok(())
        } else {
            Err(format!("expected {:?} at {}", c, self.i))
        }
    }
    fn word(&mut self, w: &str, v: J) -> Result<J, String> {
        for c in w.chars() {
            self.expect(c)?;
        }
        Ok(v)
    }
    fn value(&mut self) -> Result<J, String> {
        self.ws();
        match self.peek() {
            Some('n') => self.word("null", J::Null),
            Some('t') => self.word("true", J::Bool(true)),
            Some('f') => self.word("false", J::Bool(false)),
            Some('"') => Ok(J::Str(self.string()?)),
            Some('[') => {
                self.i += 1;
                let mut a = Vec::new();
                self.ws();
                if self.peek() == Some(']') {
                    self.i += 1;
                    return Ok(J::Arr(a));
                }
                loop {
                    a.push(self.value()?);
                    self.ws();
                    if self.peek() == Some(',') {
                        self.i += 1;
                    } else {
                        self.expect(']')?;
                        return Ok(J::Arr(a));
                    }
                }
            }
            Some('{') => {
                self.i += 1;
                let mut o = Vec::new();
                self.ws();
                if self.peek() == Some('}') {
                    self.i += 1;
                    return Ok(J::Obj(o));
                }
                loop {
                    self.ws();
                    let k = self.string()?;
                    self.ws();
                    self.expect(':')?;
                    o.push((k, self.value()?));
                    self.ws();
                    if self.peek() == Some(',') {
                        self.i += 1;
                    } else {
                        self.expect('}')?;
                        return Ok(J::Obj(o));
                    }
                }
            }
            _ => {
                let start = self.i;
                while matches!(self.peek(), Some(c) if c.is_ascii_digit() || "+-.eE".contains(c)) {
                    self.i += 1;
                }
                let t: String = self.c[start..self.i].iter().collect();
                if let Ok(i) = t.parse::<i64>() {
                    Ok(J::Int(i))
                } else {
                    t.parse::<f64>().map(J::Num).map_err(|e| format!("{} at {}", e, start))
                }
            }
        }
    }
    fn string(&mut self) -> Result<String, String> {
        self.expect('"')?;
        let mut s = String::new();
        loop {
            let c = self.peek().ok_or("unterminated string")?;
            self.i += 1;
            match c {
                '"' => return Ok(s),
                '\\' => {
                    let e = self.peek().ok_or("unterminated escape")?;
                    self.i += 1;
                    match e {
                        'n' => s.push('\n'),
                        'r' => s.push('\r'),
                        't' => s.push('\t'),
                        'u' => {
                            let h: String = self.c[self.i..(self.i + 4).min(self.c.len())].iter().collect();
                            self.i += 4;
                            let v = u32::from_str_radix(&h, 16).map_err(|e| e.to_string())?;
                            s.push(char::from_u32(v).unwrap_or('\u{fffd}'));
                        }
                        c => s.push(c),
                    }
                }
                c => s.push(c),
            }
        }
    }
}

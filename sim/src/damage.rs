//! C13: what a storage fault leaves of a source file is compiled or rejected with a located error.
use crate::driver::{hash_text, panic_text, Case, Outcome};
use crate::rng::Stream;
use crate::script;
use dice_compiler::compiler::Compiler;
use dice_core::error::trace::ErrorTrace;
use dice_core::error::Error;
use dice_core::source::{Source, SourceKind};
use dice_core::span::Span;
use std::panic::{catch_unwind, AssertUnwindSafe};

const BLOCKS: [usize; 7] = [1, 2, 4, 8, 16, 64, 256];

/// Words and fragments of the language; a fault that hits the boundary of a token looks like one of these.
const FRAGMENTS: [&str; 96] = [
    "(", ")", "{", "}", "[", "]", ":", ",", "|", "..", "..=", "->", "=>", ".", "?", "!!", "??", "or", "-", "+", "%", "*", "/", "!", "!=", "==",
    ">", ">=", "<", "<=", "=", "*=", "/=", "+=", "-=", "&&", "|>", "||", "#", "#{", "false", "true", "null", "if", "else", "while", "loop", "for",
    "break", "continue", "return", "fn", "let", "mut", "in", "op", "class", "is", "import", "as", "from", "export", "super", "await", "async",
    "yield", "do", "const", "match", "enum", "trait", "type", "try", "when", "default", "switch", "x", "self", "new", "_", "0", "1",
    "99999999999999999999", "1.5", "\"", "\"s\"", "\\", "//", "\n", " ", "@", "$", "é", "☃", "😀", "\u{0}",
];

/// Applies storage faults to the bytes of a file. `other` is what else was on the disk (an older version, another file).
pub fn damage(s: &mut Stream, text: &str, other: &str, o: &mut Outcome) -> String {
    let mut b = text.as_bytes().to_vec();
    let other = other.as_bytes();
    for _ in 0..1 + s.below(3) {
        let block = BLOCKS[s.below(BLOCKS.len() as u32) as usize];
        let mut at = |s: &mut Stream, b: &Vec<u8>| -> usize {
            if b.is_empty() {
                0
            } else {
                (s.below(b.len() as u32) as usize) / block * block
            }
        };
        match s.below(14) {
            0 => {
                o.fault("truncated file");
                let n = at(s, &b);
                b.truncate(n);
            }
            1 => {
                o.fault("torn write (new head, old tail)");
                let n = at(s, &b);
                b.truncate(n);
                if n < other.len() {
                    b.extend_from_slice(&other[n..]);
                }
            }
            2 => {
                o.fault("lost block");
                let n = at(s, &b);
                let end = (n + block).min(b.len());
                b.drain(n..end);
            }
            3 => {
                o.fault("duplicated block");
                let n = at(s, &b);
                let end = (n + block).min(b.len());
                let d = b[n..end].to_vec();
                let to = at(s, &b);
                b.splice(to..to, d);
            }
            4 => {
                o.fault("zeroed block");
                let n = at(s, &b);
                let end = (n + block).min(b.len());
                b[n..end].iter_mut().for_each(|x| *x = 0);
            }
            5 => {
                o.fault("flipped bit");
                if !b.is_empty() {
                    let n = s.below(b.len() as u32) as usize;
                    b[n] ^= 1 << s.below(7);
                }
            }
            6 => {
                o.fault("overwritten byte");
                if !b.is_empty() {
                    let n = s.below(b.len() as u32) as usize;
                    b[n] = s.below(128) as u8;
                }
            }
            7 => {
                o.fault("block of another file");
                if !other.is_empty() {
                    let n = at(s, &b);
                    let end = (n + block).min(b.len());
                    let from = s.below(other.len() as u32) as usize;
                    let d = other[from..(from + block).min(other.len())].to_vec();
                    b.splice(n..end, d);
                }
            }
            8 => {
                o.fault("swapped blocks");
                let (x, y) = (at(s, &b), at(s, &b));
                let (x, y) = (x.min(y), x.max(y));
                if y + block <= b.len() && x + block <= y {
                    for i in 0..block {
                        b.swap(x + i, y + i);
                    }
                }
            }
            9 => {
                o.fault("line ends rewritten");
                let mut out = Vec::new();
                let cr = s.below(2) == 0;
                for x in &b {
                    match x {
                        b'\n' if cr => out.extend_from_slice(b"\r\n"),
                        b'\n' => out.push(b'\r'),
                        x => out.push(*x),
                    }
                }
                b = out;
            }
            10 => {
                o.fault("byte order mark added");
                b.splice(0..0, "\u{feff}".bytes());
            }
            11 | 12 => {
                o.fault("fragment written");
                let f = FRAGMENTS[s.below(FRAGMENTS.len() as u32) as usize];
                let n = s.below(b.len() as u32 + 1) as usize;
                let end = if s.below(2) == 0 { n } else { (n + f.len()).min(b.len()) };
                b.splice(n..end, f.bytes());
            }
            _ => {
                o.fault("multi-byte characters written");
                let n = s.below(b.len() as u32 + 1) as usize;
                let c = ["é", "☃", "😀", "\u{301}", "\u{2028}"][s.below(5) as usize];
                b.splice(n..n, c.bytes());
            }
        }
    }
    match String::from_utf8(b) {
        Ok(t) => t,
        Err(e) => {
            o.fault("bytes that are no text replaced");
            String::from_utf8_lossy(e.as_bytes()).into_owned()
        }
    }
}

#[derive(Clone, Debug, PartialEq)]
pub struct Located {
    pub code: String,
    pub message: String,
    pub line: usize,
    pub column: usize,
    pub pretty: String,
}

/// Removes colours, and only those: `ESC [ digits m`.
pub fn strip_ansi(s: &str) -> String {
    let mut out = String::with_capacity(s.len());
    let mut rest = s;
    while let Some(i) = rest.find("\u{1b}[") {
        let after = &rest[i + 2..];
        let n = after.bytes().take_while(|b| b.is_ascii_digit() || *b == b';').count();
        if after[n..].starts_with('m') {
            out.push_str(&rest[..i]);
            rest = &after[n + 1..];
        } else {
            out.push_str(&rest[..i + 2]);
            rest = after;
        }
    }
    out.push_str(rest);
    out
}

/// Reads the location an error reports from its renderings.
pub fn locate(e: &Error, name: &str) -> Result<Located, String> {
    let plain = strip_ansi(&format!("{:?}", e));
    let pretty = strip_ansi(&format!("{}", e));
    let message = plain.lines().next().unwrap_or("").to_string();
    let (_, place) = plain.rsplit_once("--> ").ok_or_else(|| format!("the error has no location: {}", plain))?;
    let mut parts = place.trim_end().rsplitn(3, ':');
    let column = parts.next().and_then(|c| c.parse().ok());
    let line = parts.next().and_then(|c| c.parse().ok());
    if parts.next() != Some(name) {
        return Err(format!("the error does not name {}: {}", name, plain));
    }
    let head = format!("{}\n  --> {}\n", plain.split("\n  --> ").next().unwrap_or(""), place.trim_end());
    if !pretty.starts_with(&head) {
        return Err(format!("one rendering says {}, the other is {}", place.trim_end(), pretty));
    }
    match (line, column) {
        (Some(line), Some(column)) => Ok(Located { code: e.error_code().to_string(), message, line, column, pretty }),
        _ => Err(format!("the error has no location: {}", plain)),
    }
}

/// What came before the error is listed below it, the last first: where it was, and all lines of it.
fn trace(e: &Error, text: &str, name: &str, pretty: &str) -> Result<(), String> {
    let mut rng = crate::rng::Rng::new(hash_text(text.bytes()));
    let places: Vec<usize> = text.char_indices().map(|c| c.0).chain([text.len()]).collect();
    if places.len() < 2 {
        return Ok(());
    }
    let source = match name {
        "<Script>" => Source::new(text, SourceKind::Script),
        _ => Source::with_path(text, name, SourceKind::Module),
    };
    let (mut e, mut want) = (e.clone(), String::new());
    for _ in 0..1 + rng.below(3) {
        let from = rng.below(places.len() as u64 - 1) as usize;
        let most = [4, 40, places.len() as u64][rng.below(3) as usize];
        let length = 1 + rng.below(most) as usize;
        let span = Span::new(places[from]..places[(from + length).min(places.len() - 1)]);
        e = e.push_trace(ErrorTrace { source: source.clone(), span });
        let (line, column) = place(text, span.start);
        let last = 1 + text.as_bytes()[..span.end - 1].iter().filter(|b| **b == b'\n').count();
        let mut entry = format!("  Location: {name}:{line}:{column}\n");
        for (i, l) in text.split('\n').enumerate().take(last).skip(line - 1) {
            entry.push_str(&format!("    {:<4} | {}\n", i + 1, l.trim()));
        }
        want.insert_str(0, &entry);
    }
    let (got, want) = (strip_ansi(&format!("{}", e)), format!("{pretty}\nTrace:\n{want}"));
    if got != strip_ansi(&want) {
        return Err(format!("a trace is shown as {:?} instead of {:?}", got, want));
    }
    Ok(())
}

pub enum Compiled {
    Accepted(dice_bytecode::Bytecode),
    Rejected(Located),
}

/// Compiles, and checks that the outcome is one of the two that are allowed.
pub fn judge(text: &str, kind: SourceKind, o: &mut Outcome) -> Option<Compiled> {
    // Files have names, texts from elsewhere have none.
    let (source, name) = match text.len() % 3 {
        0 => (Source::with_path(text, "scripts/é ☃.dm", kind), "scripts/é ☃.dm"),
        1 => (Source::with_path(text, "a.dm", kind), "a.dm"),
        _ => (Source::new(text, kind), "<Script>"),
    };
    let r = catch_unwind(AssertUnwindSafe(|| match Compiler::compile_source(source) {
        Ok(b) => Ok(Compiled::Accepted(b)),
        Err(e) => locate(&e, name).and_then(|l| trace(&e, text, name, &l.pretty).map(|_| Compiled::Rejected(l))),
    }));
    let program = crate::grammar::check(text);
    let l = match r {
        Err(_) => {
            o.violate("panic", format!("compiling or rendering the error panics: {}", panic_text()));
            return None;
        }
        Ok(Err(m)) => {
            o.violate("location", m);
            return None;
        }
        Ok(Ok(Compiled::Accepted(b))) => {
            if let Err(stop) = program {
                o.violate("grammar", format!("a text is accepted that is no program from {:?} on: {:?}", place(text, stop.from), around(text, stop.from)));
                return None;
            }
            return Some(Compiled::Accepted(b));
        }
        Ok(Ok(Compiled::Rejected(l))) => l,
    };
    if l.code.is_empty() || !l.message.contains(&l.code) {
        o.violate("message", format!("the error does not say what it is: {:?}", l.message));
        return None;
    }
    let lines: Vec<&str> = text.split('\n').collect();
    let inside = l.line >= 1 && l.line <= lines.len() && l.column >= 1 && l.column <= lines[l.line - 1].encode_utf16().count() + 1;
    if !inside {
        o.violate("location", format!("{} is reported at {}:{}, outside of the text", l.message, l.line, l.column));
        return None;
    }
    match program {
        Ok(()) => {
            if crate::grammar::is_syntax(&l.code) {
                o.violate("grammar", format!("a program is rejected for its syntax: {} at {}:{}", l.message, l.line, l.column));
                return None;
            }
        }
        // The limit on arguments is found while the function is read.
        Err(_) if l.code == "E1005" => {}
        Err(stop) => {
            let at = (l.line, l.column);
            let here = at >= place(text, stop.from) && at <= place(text, stop.to) || stop.word.is_some_and(|w| place(text, w) == at);
            if !here || !stop.codes.contains(&l.code.as_str()) {
                o.violate(
                    "grammar",
                    format!("{:?} expected at {:?}, near {:?}: {} at {}:{}", stop.codes, place(text, stop.from), around(text, stop.from), l.message, l.line, l.column),
                );
                return None;
            }
        }
    }
    // Every line that the rendering quotes is that line of the text, and the first one is the line of the error.
    let mut first = None;
    let mut rest = l.pretty.lines().peekable();
    let mut fences = 0;
    while let Some(line) = rest.next() {
        if line == "     |" {
            fences += 1;
            continue;
        }
        if fences != 1 {
            continue;
        }
        let quoted = line.split_once(" | ").and_then(|(n, q)| n.trim().parse::<usize>().ok().map(|n| (n, q)));
        if let Some((n, q)) = quoted {
            let q = q.strip_prefix(' ').unwrap_or(q);
            // A carriage return inside of a line ends a line of the rendering, too.
            let want = lines.get(n.wrapping_sub(1)).map(|l| strip_ansi(l.trim_end().lines().next().unwrap_or("")));
            if want.as_deref().map(|w| w.trim_end()) != Some(q.trim_end()) {
                o.violate("quote", format!("line {} is quoted as {:?}, it is {:?}", n, q, want));
                return None;
            }
            first.get_or_insert(n);
        }
    }
    if first != Some(l.line) && !lines[l.line - 1].is_empty() {
        o.violate("quote", format!("the error is at line {}, quoted is line {:?}: {}", l.line, first, l.pretty));
        return None;
    }
    Some(Compiled::Rejected(l))
}

/// Byte offsets at which a character may be added without changing what a string or comment says.
fn code_offsets(t: &str) -> Vec<usize> {
    let b = t.as_bytes();
    let mut out = Vec::new();
    let mut i = 0;
    while i < b.len() {
        match b[i] {
            b'"' => {
                out.push(i);
                i += 1;
                while i < b.len() && b[i] != b'"' {
                    if b[i] == b'\\' {
                        i += 1;
                    }
                    i += 1;
                }
                i += 1;
            }
            b'\\' => {
                out.push(i);
                i += 1;
                while i < b.len() && b[i] != b'\\' {
                    i += 1;
                }
                i += 1;
            }
            b'/' if i + 1 < b.len() && b[i + 1] == b'/' => {
                out.push(i);
                while i < b.len() && b[i] != b'\n' && b[i] != b'\r' {
                    i += 1;
                }
                i += 1;
            }
            _ => {
                if t.is_char_boundary(i) {
                    out.push(i);
                }
                i += 1;
            }
        }
    }
    // Only where no token is split.
    out.retain(|i| *i < b.len() && (b[*i].is_ascii_whitespace() || *i > 0 && b[*i - 1].is_ascii_whitespace()));
    out
}

pub fn place(text: &str, offset: usize) -> (usize, usize) {
    let before = &text[..offset];
    let line = before.matches('\n').count() + 1;
    let start = before.rfind('\n').map_or(0, |i| i + 1);
    (line, before[start..].encode_utf16().count() + 1)
}

pub fn base_texts(case: &Case, ps: &mut Stream) -> (String, String, SourceKind) {
    let (prog, _) = script::program_of(case, ps, 120);
    let mut texts: Vec<String> = script::texts(&prog).into_iter().map(|t| t.1).collect();
    let main = texts.len() - 1;
    texts.push(std::fs::read_to_string(script::PRELUDE_PATH).unwrap_or_default());
    let i = ps.below(texts.len() as u32) as usize;
    let j = ps.below(texts.len() as u32) as usize;
    let kind = if i == main { SourceKind::Script } else { SourceKind::Module };
    (texts[i].clone(), texts[j].clone(), kind)
}

pub fn scenario(case: &Case, verbose: bool) -> Outcome {
    let mut o = Outcome::default();
    let mut ps = case.p.open();
    let (text, other, kind) = base_texts(case, &mut ps);
    o.p = std::mem::take(&mut ps.rec);
    let mut hs = case.h.open();
    let bad = damage(&mut hs, &text, &other, &mut o);
    o.nontrivial = bad != text && !bad.trim().is_empty();
    o.sig = hash_text(bad.bytes());
    o.sim_time = bad.len() as u64;
    o.stat("bytes compiled", bad.len() as u64);
    if verbose {
        o.show.push(format!("--- damaged file, compiled as {:?} ---", kind));
        o.show.extend(bad.split('\n').map(|l| l.to_string()));
        o.show.push("--- outcome ---".into());
    }
    let first = judge(&bad, kind, &mut o);
    match &first {
        None => {}
        Some(Compiled::Accepted(_)) => {
            o.stat("damaged files accepted", 1);
            o.sigs.push(1);
            if verbose {
                o.show.push("accepted".into());
            }
            // Nothing of an accepted file is ignored: an unreadable character anywhere in its code is an error there.
            let places = code_offsets(&bad);
            for end in [false, true] {
                if !end && places.is_empty() {
                    continue;
                }
                let at = if end { bad.len() } else { places[hs.below(places.len() as u32) as usize] };
                let (add, at) = if end { ("\n@", at) } else { ("@", at) };
                let mut t = bad.clone();
                t.insert_str(at, add);
                o.fault("unreadable character written");
                match judge(&t, kind, &mut o) {
                    Some(Compiled::Accepted(_)) => {
                        o.violate("ignored", format!("the character @ at byte {} of an accepted file is ignored: {:?}", at, around(&t, at)));
                    }
                    Some(Compiled::Rejected(l)) => {
                        let offset = at + add.len() - 1;
                        let want = place(&t, offset);
                        // What is missing after one of these words is reported at the word itself.
                        let declaration = code_before(&t, offset).and_then(|p| {
                            let word = ["op", "import", "export", "super"].iter().find(|w| t[..p].ends_with(**w))?;
                            Some(place(&t, p - word.len()))
                        });
                        if (l.line, l.column) != want && Some((l.line, l.column)) != declaration {
                            o.violate(
                                "location",
                                format!("the unreadable character at {:?} is reported at {}:{} ({})", want, l.line, l.column, l.message),
                            );
                        }
                    }
                    None => {}
                }
            }
            let mut t = bad.clone();
            t.push_str("\n}");
            if let Some(Compiled::Accepted(_)) = judge(&t, kind, &mut o) {
                o.violate("ignored", "a closing brace after the end of an accepted file is ignored");
            }
        }
        Some(Compiled::Rejected(l)) => {
            o.stat("damaged files rejected", 1);
            o.sigs.push(hash_text(l.message.bytes()));
            if verbose {
                o.show.push(l.pretty.clone());
            }
            // The same text further down is rejected for the same reason, further down.
            let shift = 1 + hs.below(3) as usize;
            let mut t = "// é😀 shifted\n".repeat(shift);
            t.push_str(&bad);
            match judge(&t, kind, &mut o) {
                Some(Compiled::Rejected(m)) => {
                    if (&m.code, &m.message) != (&l.code, &l.message) {
                        o.violate("unstable", format!("below {} comment lines the error is {:?} instead of {:?}", shift, m.message, l.message));
                    } else if m.line != l.line + shift || m.column != l.column {
                        o.violate(
                            "location",
                            format!(
                                "below {} comment lines {:?} moves from {}:{} to {}:{}",
                                shift, l.message, l.line, l.column, m.line, m.column
                            ),
                        );
                    }
                }
                Some(Compiled::Accepted(_)) => o.violate("unstable", format!("below {} comment lines the rejected text is accepted", shift)),
                None => {}
            }
        }
    }
    o.h = hs.rec;
    o
}

/// The end of the last code before an offset that lies outside of strings and comments.
fn code_before(t: &str, offset: usize) -> Option<usize> {
    let mut end = t[..offset].trim_end().len();
    loop {
        let start = t[..end].rfind(['\n', '\r']).map_or(0, |i| i + 1);
        match t[start..end].find("//") {
            Some(i) => end = t[..start + i].trim_end().len(),
            None => return Some(end).filter(|e| *e > 0),
        }
    }
}

fn around(t: &str, at: usize) -> String {
    let b = t.as_bytes();
    String::from_utf8_lossy(&b[at.saturating_sub(20)..(at + 20).min(b.len())]).into_owned()
}

//! C01 to C10, C19: programs nobody generates. A text is edited token by token as long as it stays a program; what the compiler accepts of it has to
//! run in well-formed frames, and the interpreter has to run it as the reference machine does.
use crate::driver::{hash_text, panic_text, Case, Outcome};
use crate::grammar::{check, tokens, Tok, K};
use crate::rng::Stream;
use crate::script::{self, compile};
use crate::vm::Code;
use crate::world::Fail;
use dice_core::source::SourceKind;
use std::panic::{catch_unwind, AssertUnwindSafe};

/// Stands where an operand stood, written `X` here.
const OPERANDS: [&str; 40] = [
    "{ break }",
    "{ continue }",
    "{ return X }",
    "{ return }",
    "(if hb(901) { break } else { X })",
    "(if hb(902) { X } else { return X })",
    "{ let zx = X zx }",
    "{ let mut zx = X zx = X zx }",
    "{ let mut zx = X let zf = || { zx = 1 zx } zf() }",
    "{ fn zf() { X } zf() }",
    "{ fn zf(za) { || za } zf(X)() }",
    "{ let zx = X on(903, || zx) zx }",
    "(|| X)()",
    "(|za| za)(X)",
    "(|za| || za)(X)()",
    "{ class Zc { fn new(self) { self.v = X } fn w(self) { self.v } } Zc().w() }",
    "{ class Zc { fn new(self, v) { self.v = v } fn get(self) { || self.v } } Zc(X).get()() }",
    "{ class Zb { fn m(self) { X } } class Zc : Zb { fn m(self) { super.m() } } Zc().m() }",
    "{ class Zb { fn new(self, v) { self.v = v } } class Zc : Zb { fn new(self, v) { super(v) self.w = 1 } } Zc(X).v }",
    "#{ a: X }.a",
    "#{ a: X, b: 1 }",
    "[X, X][0]",
    "[X]",
    "(X ?? X)",
    "([X] or ze { X })",
    "(X or ze { log(913, ze) X })",
    "X?.a",
    "X!!",
    "(X |> |za| za)",
    "(hb(904) && X)",
    "(hb(905) || X)",
    "(X is Int)",
    "{ let { a, b } = #{ a: X, b: 2 } a }",
    "{ let mut zs = 0 for zi in 0..3 { zs += zi if hb(906) { break } on(907, || zi) } X }",
    "{ while hb(908) { let zw = X if hb(909) { continue } on(910, || zw) } }",
    "{ loop { let zl = X if hb(911) { break } on(912, || zl) } }",
    "{ fn zf(za: Int) -> Int { return za } zf(X) }",
    "{ let mut zo = #{ a: 1 } zo.a += X zo.a }",
    "{ let mut za = [1] za[0] += X za }",
    "-X",
];

/// Stands where a statement may begin.
const STATEMENTS: [&str; 12] = [
    "break",
    "continue",
    "return",
    "if hb(920) { break }",
    "if hb(921) { continue }",
    "if hb(922) { return 1 }",
    "{ }",
    "()",
    "let zy = hi(923)",
    "{ let zy = hi(924) on(925, || zy) }",
    "loop { if hb(926) { break } break }",
    "fn zn() { zn }",
];

fn is_operand(k: K) -> bool {
    matches!(k, K::Ident | K::Int | K::Float | K::Str | K::P("true" | "false" | "null"))
}

fn is_operator(k: K) -> bool {
    matches!(
        k,
        K::P("+" | "-" | "*" | "/" | "%" | "<" | ">" | "<=" | ">=" | "==" | "!=" | "&&" | "||" | "??" | "or" | "|>" | ".." | "..=" | "=" | "+=" | "-=" | "*=" | "/=")
    )
}

/// The index behind the token or bracketed group that begins at a token.
fn group(t: &[Tok], i: usize) -> usize {
    let mut depth = 0;
    for (j, x) in t.iter().enumerate().skip(i) {
        match x.k {
            K::P("(" | "[" | "{") => depth += 1,
            K::P(")" | "]" | "}") => depth -= 1,
            K::P("#") => continue,
            _ => {}
        }
        if depth <= 0 {
            return j + 1;
        }
    }
    t.len()
}

/// One edit.
fn edit(s: &mut Stream, text: &str) -> String {
    let t = tokens(text);
    if t.is_empty() {
        return text.into();
    }
    let mut any = |s: &mut Stream, f: &dyn Fn(K) -> bool| -> Option<usize> {
        let c: Vec<usize> = (0..t.len()).filter(|i| f(t[*i].k)).collect();
        // What comes first runs more often.
        (!c.is_empty()).then(|| c[s.below(c.len() as u32).min(s.below(c.len() as u32)) as usize])
    };
    let put = |from: usize, to: usize, with: &str| format!("{} {} {}", &text[..from], with, &text[to..]);
    let span = |i: usize| -> (usize, usize) {
        let j = group(&t, i).max(i + 1);
        (t[i].start, t[j - 1].end)
    };
    match s.below(10) {
        0..=3 => {
            let Some(i) = any(s, &is_operand) else { return text.into() };
            let x = &text[t[i].start..t[i].end];
            put(t[i].start, t[i].end, &OPERANDS[s.below(OPERANDS.len() as u32) as usize].replace('X', x))
        }
        4 => {
            // Statements begin behind braces and behind line breaks of the canonical layout.
            let c: Vec<usize> = (1..t.len()).filter(|i| t[*i - 1].k == K::P("{") || text[t[*i - 1].end..t[*i].start].contains('\n')).collect();
            if c.is_empty() {
                return text.into();
            }
            let at = t[c[s.below(c.len() as u32) as usize]].start;
            put(at, at, STATEMENTS[s.below(STATEMENTS.len() as u32) as usize])
        }
        5 => {
            let (Some(i), Some(j)) = (any(s, &is_operator), any(s, &is_operator)) else { return text.into() };
            put(t[i].start, t[i].end, &text[t[j].start..t[j].end])
        }
        6 => {
            let (Some(i), Some(j)) = (any(s, &is_operand), any(s, &is_operand)) else { return text.into() };
            put(t[i].start, t[i].end, &text[t[j].start..t[j].end])
        }
        7 => {
            // A group in the place of another one, or of an operand.
            let open = ["{", "(", "["][s.below(3) as usize];
            let Some(j) = any(s, &|k| k == K::P(open)) else { return text.into() };
            let to = s.below(2) == 0;
            let Some(i) = any(s, &|k| if to { k == K::P(open) } else { is_operand(k) }) else { return text.into() };
            let (a, b) = (span(i), span(j));
            put(a.0, a.1, &text[b.0..b.1])
        }
        8 => {
            let i = s.below(t.len() as u32) as usize;
            let (a, b) = span(i);
            put(a, b, "")
        }
        _ => {
            // A line of the text elsewhere.
            let lines: Vec<&str> = text.split('\n').collect();
            let (i, j) = (s.below(lines.len() as u32) as usize, s.below(lines.len() as u32) as usize);
            let mut out = lines.clone();
            match s.below(3) {
                0 => out.insert(i, lines[j]),
                1 => out[i] = lines[j],
                _ => out.swap(i, j),
            }
            out.join("\n")
        }
    }
}

pub fn scenario(case: &Case, verbose: bool) -> Outcome {
    let mut o = Outcome::default();
    let mut ps = case.p.open();
    let (mut prog, mix) = script::program_of(case, &mut ps, 70);
    prog.layout = 0;
    o.p = std::mem::take(&mut ps.rec);
    let mut texts = script::texts(&prog);
    let main = texts.len() - 1;
    let mut hs = case.h.open();
    let kind = |i: usize| if i == main { SourceKind::Script } else { SourceKind::Module };
    let mut codes = Vec::new();
    for (i, (name, text)) in texts.iter().enumerate() {
        match compile(text, kind(i)) {
            Ok(Ok(b)) => codes.push(Code::new(name, b)),
            // The other runs are about these.
            _ => {
                o.discard = Some("no program to begin with");
                return o;
            }
        }
    }
    let mut edits = 0;
    for _ in 0..1 + hs.below(5) {
        let i = if hs.below(4) > 0 { main } else { hs.below(texts.len() as u32) as usize };
        for _ in 0..4 {
            let new = edit(&mut hs, &texts[i].1);
            if new.len() > 20_000 || check(&new).is_err() {
                continue;
            }
            match compile(&new, kind(i)) {
                Ok(Ok(b)) => {
                    codes[i] = Code::new(&texts[i].0, b);
                    texts[i].1 = new;
                    edits += 1;
                    break;
                }
                Ok(Err(_)) => {}
                Err(p) => {
                    o.violate("panic", format!("compiling panics: {}: {:?}", p, new));
                    o.h = hs.rec;
                    return o;
                }
            }
        }
    }
    o.stat("edits of accepted programs", edits);
    let main_code = codes.pop().unwrap();
    let modules: Vec<_> = texts.iter().map(|t| t.0.clone()).zip(codes).collect();
    if verbose {
        for (n, t) in &texts {
            o.show.push(format!("--- {} ---", n));
            o.show.extend(t.lines().map(|l| l.to_string()));
        }
    }
    let at = hs.rec.len();
    let ran = catch_unwind(AssertUnwindSafe(|| script::run_machine(&main_code, &modules, hs, &mix, 60_000)));
    let Ok(machine) = ran else {
        o.violate("panic", format!("running the compiled code panics: {}", panic_text()));
        return o;
    };
    let w = &machine.world;
    o.h = w.h.rec.clone();
    if verbose {
        o.show.push("--- machine ---".into());
        o.show.extend(w.log.iter().cloned());
    }
    o.faults = w.faults.clone();
    o.fault("text edited");
    o.sim_time = w.end_time;
    o.stat("host calls", w.host_calls as u64);
    o.stat("callback activations", w.activations as u64);
    o.stat("functions started", w.started);
    o.stat("instructions executed", w.steps);
    o.nontrivial = edits > 0 && w.host_calls >= 3;
    o.sig = hash_text(w.log.iter().flat_map(|l| l.bytes().filter(|b| !b.is_ascii_digit()).chain(std::iter::once(b'\n'))));
    // Nobody promises that an edited program ends.
    const ENDLESS: &str = "the program does not come to an end";
    let endless = matches!(&machine.outcome, Err(Fail::Mon(m)) if m.contains(ENDLESS)) || w.log.iter().any(|l| l.contains(ENDLESS));
    if endless || matches!(machine.outcome, Err(Fail::Budget)) || w.log.iter().any(|l| l.ends_with("-> budget")) {
        o.discard = Some("no end within the step budget of the machine");
    } else if let Err(Fail::Mon(m)) = &machine.outcome {
        o.violate("frame", m.clone());
    } else if let Some(l) = w.log.iter().find(|l| l.contains("MONITOR ")) {
        o.violate("frame", l.clone());
    } else if case.id == "C19" {
        let h = Stream::replay_from(o.h.clone(), at);
        let budget = w.steps * 4 + 100_000;
        match catch_unwind(AssertUnwindSafe(|| script::run_real(&main_code, &modules, h, &mix, budget))) {
            Err(_) => o.violate("panic", format!("running the compiled code panics: {}", panic_text())),
            Ok(real) => {
                if verbose {
                    o.show.push("--- interpreter ---".into());
                    o.show.extend(real.world.log.iter().cloned());
                }
                script::compare(&machine, &real, &mut o);
            }
        }
    } else {
        match crate::parse::program(&texts) {
            Err(_) => o.stat("edited programs run without a reference", 1),
            Ok(prog) => {
                let h = Stream::replay_from(o.h.clone(), at);
                let reference = script::run_reference(&prog, h, &mix, 40_000);
                if verbose {
                    o.show.push("--- expected ---".into());
                    o.show.extend(reference.world.log.iter().cloned());
                }
                match script::unusable(&reference) {
                    Some(why) => o.discard = Some(why),
                    None => script::compare(&reference, &machine, &mut o),
                }
            }
        }
    }
    o
}

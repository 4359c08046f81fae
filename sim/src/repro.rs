//! C11: the same source compiled in different environments: entropy, hash seeds and histories.
use crate::damage::{base_texts, damage};
use crate::driver::{hash_text, panic_text, Case, Outcome};
use crate::dump;
use crate::entropy::{self, Entropy};
use crate::proc::{in_fork, pack, unpack, End};
use crate::rng::{derive, Stream};
use dice_compiler::compiler::Compiler;
use dice_core::error::fmt::{ErrorFormatter, HumanReadableErrorFormatter};
use dice_core::error::localization::Locale;
use dice_core::source::{Source, SourceKind};
use std::panic::{catch_unwind, AssertUnwindSafe};

#[derive(Clone)]
pub struct Text {
    pub text: String,
    pub kind: SourceKind,
    pub path: Option<&'static str>,
}

impl Text {
    pub fn source(&self) -> Source {
        match self.path {
            None => Source::new(self.text.as_str(), self.kind),
            Some(p) => Source::with_path(self.text.as_str(), p, self.kind),
        }
    }
}

/// One compilation and what is done with its result.
#[derive(Clone, Copy)]
pub struct Op {
    pub text: usize,
    /// 0: nothing; 1: plain; 2: pretty; 3: both.
    pub render: u32,
    pub times: u32,
    /// The result lives as long as the environment.
    pub keep: bool,
    /// Done on a thread of its own.
    pub aside: bool,
    /// The very source object is compiled twice.
    pub twice: bool,
}

pub struct Result {
    pub program: std::result::Result<dice_bytecode::Bytecode, dice_core::error::Error>,
}

/// Everything a compilation shows, without fresh identifiers.
pub fn observe(r: &Result, render: u32) -> Vec<String> {
    let mut out = Vec::new();
    match &r.program {
        Ok(b) => {
            let mut ids = Vec::new();
            dump::ids(b, &mut ids);
            let unname = |mut s: String| {
                for i in &ids {
                    s = s.replace(&uuid_text(i), "#");
                }
                s
            };
            out.push(format!("program {}", dump::dump(b)));
            if render & 1 != 0 {
                out.push(format!("listing {}", unname(b.to_string())));
            }
            let n = ids.len();
            ids.sort();
            ids.dedup();
            out.push(if ids.len() == n { "identifiers distinct".into() } else { format!("identifiers repeat: {} of {}", n - ids.len(), n) });
        }
        Err(e) => {
            let mut plain = String::new();
            let mut pretty = String::new();
            let f = HumanReadableErrorFormatter::new(false);
            if render & 1 != 0 {
                let ok = f.fmt(&mut plain, e, &Locale::US_ENGLISH).is_ok();
                out.push(format!("error {} {}", ok, plain));
            }
            if render & 2 != 0 {
                let ok = f.fmt_pretty(&mut pretty, e, &Locale::US_ENGLISH).is_ok();
                out.push(format!("pretty {} {}", ok, pretty));
            }
            if render == 0 {
                out.push(format!("error {:?}", e.error_code()));
            }
        }
    }
    out
}

fn uuid_text(b: &[u8; 16]) -> String {
    let h: String = b.iter().map(|b| format!("{:02x}", b)).collect();
    format!("{}-{}-{}-{}-{}", &h[..8], &h[8..12], &h[12..16], &h[16..20], &h[20..])
}

pub fn compile(t: &Text) -> Result {
    Result { program: Compiler::compile_source(t.source()) }
}

struct Env {
    seed: u64,
    plain: Option<u8>,
    faults: u64,
    history: Vec<Op>,
    last: Op,
}

/// In a fresh process, on a fresh thread: the history, then the compilation that is observed.
fn live(env: &Env, texts: &[Text]) -> Vec<String> {
    colored::control::set_override(true);
    let mut kept = Vec::new();
    let mut n = 0;
    let mut enter = |seed: u64| {
        n += 1;
        entropy::install(Entropy::new(derive(seed, &[n]), env.plain, env.faults));
    };
    enter(env.seed);
    for op in &env.history {
        let t = &texts[op.text];
        let act = || {
            let mut all = Vec::new();
            for _ in 0..op.times {
                let s = t.source();
                let r = Result { program: Compiler::compile_source(s.clone()) };
                if op.render > 0 {
                    observe(&r, op.render);
                }
                if op.keep {
                    all.push(r);
                }
                if op.twice {
                    let r = Result { program: Compiler::compile_source(s) };
                    if op.render > 0 {
                        observe(&r, op.render);
                    }
                }
            }
            all
        };
        if op.aside {
            let (seed, plain, faults) = (derive(env.seed, &[77]), env.plain, env.faults);
            std::thread::scope(|s| {
                let t = std::thread::Builder::new().stack_size(64 << 20);
                let _ = t
                    .spawn_scoped(s, || {
                        entropy::install(Entropy::new(seed, plain, faults));
                        act();
                    })
                    .expect("thread")
                    .join();
            });
        } else {
            kept.extend(act());
        }
    }
    let t = &texts[env.last.text];
    let s = t.source();
    let r = Result { program: Compiler::compile_source(s.clone()) };
    let mut out = observe(&r, env.last.render);
    if env.last.twice {
        let again = observe(&Result { program: Compiler::compile_source(s) }, env.last.render);
        if again != out {
            out.push(format!("the same source object compiled again: {:?}", again));
        }
    }
    let e = entropy::take().unwrap();
    out.push(format!("{} {} {}", e.calls, e.interrupted, e.short));
    out
}

fn op(s: &mut Stream, texts: usize) -> Op {
    let text = s.below(texts as u32) as usize;
    let render = s.below(4);
    let times = match s.below(120) {
        119 => 64 + s.below(230),
        n => 1 + n / 100,
    };
    let flags = s.below(8);
    Op { text, render, times, keep: flags & 1 != 0, aside: flags & 2 != 0, twice: flags & 4 != 0 }
}

/// Texts to compile: the parts of a program, the prelude, and damaged versions of them.
pub fn texts_of(case: &Case, ps: &mut Stream, hs: &mut Stream, o: &mut Outcome) -> Vec<Text> {
    let (text, other, kind) = base_texts(case, ps);
    let mut texts = vec![Text { text: text.clone(), kind, path: None }];
    let paths = [None, Some("a.dm"), Some("scripts/é ☃.dm")];
    for i in 0..2 + ps.below(3) {
        let base = if i == 0 || ps.below(3) == 0 { &text } else { &other };
        let t = match ps.below(4) {
            0 => other.clone(),
            _ => damage(hs, base, &other, o),
        };
        let kind = if ps.below(4) == 3 { SourceKind::Module } else { kind };
        texts.push(Text { text: t, kind, path: paths[ps.below(3) as usize] });
    }
    texts
}

pub fn scenario(case: &Case, verbose: bool) -> Outcome {
    let mut o = Outcome::default();
    let mut ps = case.p.open();
    let mut hs = case.h.open();
    let mut damaged = Outcome::default();
    let texts = texts_of(case, &mut ps, &mut hs, &mut damaged);
    let target = ps.below(texts.len() as u32) as usize;
    let mut first: Option<Vec<String>> = None;
    let last = Op { text: target, render: 3, times: 1, keep: false, aside: false, twice: false };
    let n = 2 + hs.below(3);
    let mut shape = format!("{}", target);
    for i in 0..n {
        let env = if i == 0 {
            Env { seed: 1, plain: None, faults: 0, history: Vec::new(), last }
        } else {
            let seed = 2 + hs.below(1 << 30) as u64;
            let plain = [None, None, Some(0), Some(0xff)][hs.below(4) as usize];
            let faults = [0, 4, 2][hs.below(3) as usize];
            let history: Vec<Op> = (0..hs.below(6)).map(|_| op(&mut hs, texts.len())).collect();
            Env { seed, plain, faults, history, last: Op { twice: hs.below(3) == 2, ..last } }
        };
        let end = in_fork(|| {
            let run = || match catch_unwind(AssertUnwindSafe(|| live(&env, &texts))) {
                Ok(v) => v,
                Err(_) => vec![format!("panic: {}", panic_text())],
            };
            std::thread::scope(|s| {
                let t = std::thread::Builder::new().stack_size(64 << 20).spawn_scoped(s, run).expect("thread");
                pack(&t.join().unwrap_or_else(|_| vec!["panic".into()]))
            })
        });
        for op in &env.history {
            shape += &format!("|{} {} {} {} {}", op.text, op.render, op.times, op.aside, op.twice);
            o.fault("compilation before the observed one");
        }
        if i > 0 {
            o.fault(match env.plain {
                None => "other random bytes",
                Some(_) => "random bytes that are all the same but for a counter",
            });
        }
        o.nontrivial |= i > 0 && (!env.history.is_empty() || env.faults > 0);
        let mut got = match end {
            End::Done(b) => unpack(&b),
            End::Signal(s) => vec![format!("the process is ended by signal {}", s), "0 0 0".into()],
            End::Code(c) => vec![format!("the process ends with code {}", c), "0 0 0".into()],
        };
        let counts = got.pop().unwrap_or_default();
        if let [c, i, s] = counts.split(' ').filter_map(|x| x.parse::<u64>().ok()).collect::<Vec<_>>()[..] {
            o.sim_time += c;
            o.stat("requests for entropy", c);
            for _ in 0..i {
                o.fault("interrupted request for entropy");
            }
            for _ in 0..s {
                o.fault("short supply of entropy");
            }
        } else {
            got.push(counts);
        }
        o.stat("environments", 1);
        if verbose {
            o.show.push(format!("environment {}: entropy {:?} {}, {} compilations before", i, env.plain, env.faults, env.history.len()));
            if i == 0 {
                o.show.extend(got.iter().flat_map(|g| g.lines().map(|l| l.to_string()).collect::<Vec<_>>()));
            }
        }
        o.sigs.push(hash_text(format!("{} {:?}", shape, got).bytes()));
        if let Some(g) = got.iter().find(|g| g.starts_with("identifiers repeat")) {
            o.violate("identifiers", format!("environment {}: {}", i, g));
        } else if let Some(g) = got.iter().find(|g| g.starts_with("the same source object")) {
            o.violate("again", format!("environment {}: {}", i, g));
        }
        match &first {
            None => {
                // What a crash or panic says about the code is C13's; here it is a result like any other.
                o.stat(if got.iter().any(|g| g.starts_with("program")) { "accepted" } else { "rejected" }, 1);
                first = Some(got);
            }
            Some(f) if *f != got => {
                let d = f.iter().zip(&got).find(|(a, b)| a != b).map(|(a, b)| {
                    let (a, b) = a.lines().zip(b.lines()).find(|(a, b)| a != b).unwrap_or((a, b));
                    format!("{:?} alone, {:?} here", cut(a), cut(b))
                });
                o.violate(
                    "differs",
                    format!("environment {} gives another result: {}", i, d.unwrap_or_else(|| format!("{} parts, not {}", got.len(), f.len()))),
                );
            }
            _ => {}
        }
        if o.viol.is_some() {
            break;
        }
    }
    o.sig = hash_text(format!("{} {:?}", shape, first).bytes());
    o.p = std::mem::take(&mut ps.rec);
    o.h = hs.rec;
    o
}

fn cut(s: &str) -> String {
    s.chars().take(300).collect()
}

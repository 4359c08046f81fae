//! C14: rendering to sinks that fail.
use crate::damage::{base_texts, damage};
use crate::driver::{hash_text, panic_text, Case, Outcome};
use crate::rng::Stream;
use dice_bytecode::Bytecode;
use dice_compiler::compiler::Compiler;
use dice_core::error::context::{self, Context, ContextKind};
use dice_core::error::fmt::{ErrorFormatter, HumanReadableErrorFormatter};
use dice_core::error::localization::Locale;
use dice_core::error::trace::ErrorTrace;
use dice_core::error::Error;
use dice_core::source::{Source, SourceKind};
use dice_core::span::Span;
use dice_core::tags;
use std::fmt::Write as _;
use std::panic::{catch_unwind, AssertUnwindSafe};

#[derive(Clone, Copy, Debug, PartialEq)]
enum Fault {
    None,
    /// The n-th write fails, and all later ones.
    Permanent(u32),
    /// The n-th write fails, later ones would succeed.
    Transient(u32),
    /// The n-th write takes only a part of its text and fails, later ones would succeed.
    Torn(u32),
    /// There is room for that many bytes.
    Full(usize),
}

struct Sink<'a> {
    got: Vec<u8>,
    fault: Fault,
    writes: u32,
    failed: bool,
    after: u32,
    /// Decides short and interrupted writes of a byte sink.
    io: Option<&'a mut Stream>,
    interrupts: u32,
    shorts: u32,
}

impl<'a> Sink<'a> {
    fn new(fault: Fault, io: Option<&'a mut Stream>) -> Self {
        Sink { got: Vec::new(), fault, writes: 0, failed: false, after: 0, io, interrupts: 0, shorts: 0 }
    }

    /// How much of the bytes the sink takes before it fails, if it does.
    fn fate(&mut self, b: &[u8]) -> Option<usize> {
        self.after += self.failed as u32;
        let n = self.writes;
        self.writes += 1;
        let fate = match self.fault {
            Fault::None => None,
            Fault::Permanent(k) => (n >= k).then_some(0),
            Fault::Transient(k) => (n == k).then_some(0),
            Fault::Torn(k) => (n == k).then_some(b.len() / 2),
            Fault::Full(room) => (self.got.len() + b.len() > room).then(|| room.saturating_sub(self.got.len()).min(b.len())),
        };
        self.failed |= fate.is_some();
        fate
    }
}

impl std::fmt::Write for Sink<'_> {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        match self.fate(s.as_bytes()) {
            None => {
                self.got.extend_from_slice(s.as_bytes());
                Ok(())
            }
            Some(n) => {
                self.got.extend_from_slice(&s.as_bytes()[..n]);
                Err(std::fmt::Error)
            }
        }
    }
}

impl std::io::Write for Sink<'_> {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        if let (Some(s), false) = (self.io.as_deref_mut(), b.is_empty()) {
            match s.below(8) {
                6 => {
                    self.interrupts += 1;
                    return Err(std::io::ErrorKind::Interrupted.into());
                }
                7 if b.len() > 1 => {
                    let n = 1 + s.below(b.len() as u32 - 1) as usize;
                    self.shorts += 1;
                    return match self.fate(&b[..n]) {
                        None => {
                            self.got.extend_from_slice(&b[..n]);
                            Ok(n)
                        }
                        Some(_) => Err(std::io::Error::from_raw_os_error(libc::ENOSPC)),
                    };
                }
                _ => {}
            }
        }
        match self.fate(b) {
            None => {
                self.got.extend_from_slice(b);
                Ok(b.len())
            }
            Some(n) => {
                self.got.extend_from_slice(&b[..n]);
                Err(std::io::Error::from_raw_os_error(if self.writes % 2 == 0 { libc::ENOSPC } else { libc::EPIPE }))
            }
        }
    }

    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}

enum Thing {
    Code(Bytecode),
    Failure(Box<Error>),
}

const MODES: u32 = 6;

/// Renders in one of the ways there are; true when the rendering reports success.
fn render(t: &Thing, mode: u32, sink: &mut Sink, alternate: bool) -> bool {
    match t {
        Thing::Failure(e) => match mode {
            0 => HumanReadableErrorFormatter::new(alternate).fmt(sink, e, &Locale::US_ENGLISH).is_ok(),
            1 => HumanReadableErrorFormatter::new(alternate).fmt_pretty(sink, e, &Locale::US_ENGLISH).is_ok(),
            2 => write!(sink, "{:?}", e).is_ok(),
            3 => write!(sink, "{}", e).is_ok(),
            4 => std::io::Write::write_fmt(sink, format_args!("{:?}", e)).is_ok(),
            _ => std::io::Write::write_fmt(sink, format_args!("{}", e)).is_ok(),
        },
        Thing::Code(b) => match mode {
            0..=2 => write!(sink, "{}", b).is_ok(),
            3 => write!(sink, "<{}|{}>", b, b).is_ok(),
            _ => std::io::Write::write_fmt(sink, format_args!("{}", b)).is_ok(),
        },
    }
}

fn is_io(mode: u32) -> bool {
    mode >= 4
}

fn some_span(s: &mut Stream, text: &str) -> Span {
    let mut at = |s: &mut Stream| {
        let mut n = s.below(text.len() as u32 + 1) as usize;
        while !text.is_char_boundary(n) {
            n -= 1;
        }
        n
    };
    let (a, b) = (at(s), at(s));
    Span::new(a.min(b)..a.max(b))
}

fn things(ps: &mut Stream, hs: &mut Stream, texts: (String, String, SourceKind), o: &mut Outcome) -> Vec<Thing> {
    let (text, other, kind) = texts;
    let mut out = Vec::new();
    for i in 0..1 + ps.below(3) {
        let t = if i == 0 && ps.below(2) == 0 { text.clone() } else { damage(hs, &text, &other, o) };
        let source = match ps.below(3) {
            0 => Source::new(t.as_str(), kind),
            1 => Source::with_path(t.as_str(), "scripts/é ☃.dm", kind),
            _ => Source::with_path(t.as_str(), "a.dm", kind),
        };
        match Compiler::compile_source(source.clone()) {
            Ok(b) => out.push(Thing::Code(b)),
            Err(mut e) => {
                for _ in 0..ps.below(4) {
                    let kind = if ps.below(2) == 0 { ContextKind::Note } else { ContextKind::Help };
                    let c = match ps.below(3) {
                        0 => Context::new(context::MODULE_LOAD_ERROR, kind).with_tags(tags! { module => "modul \"é\"" }),
                        1 => Context::new(context::IMPORT_REQUIRES_ITEMS_TO_BE_IMPORTED_HELP, kind),
                        _ => Context::new(context::EXPORT_ONLY_ALLOWED_IN_MODULES, kind).with_tags(tags! { kind => "Script" }),
                    };
                    e = e.push_context(c);
                }
                for _ in 0..ps.below(4) {
                    let span = some_span(ps, &t);
                    e = e.push_trace(ErrorTrace { source: source.clone(), span });
                }
                if ps.below(4) == 3 {
                    e = e.with_span(some_span(ps, &t));
                }
                out.push(Thing::Failure(Box::new(e)));
            }
        }
    }
    out
}

pub fn scenario(case: &Case, verbose: bool) -> Outcome {
    // Output goes to a terminal: that makes for most writes. The setting is the same in all runs.
    colored::control::set_override(true);
    let mut o = Outcome::default();
    let mut ps = case.p.open();
    let mut hs = case.h.open();
    let r = catch_unwind(AssertUnwindSafe(|| {
        let texts = base_texts(case, &mut ps);
        let things = things(&mut ps, &mut hs, texts, &mut o);
        let mut full: Vec<Vec<Option<Vec<u8>>>> = vec![vec![None; MODES as usize * 2]; things.len()];
        for _ in 0..4 + hs.below(9) {
            let i = hs.below(things.len() as u32) as usize;
            let mode = hs.below(MODES);
            let alternate = hs.below(2) == 1;
            let key = mode as usize * 2 + alternate as usize;
            let what = match &things[i] {
                Thing::Code(_) => "disassembly",
                Thing::Failure(_) => "error",
            };
            // What a healthy sink receives, and in how many writes.
            let mut healthy = Sink::new(Fault::None, None);
            let ok = render(&things[i], mode, &mut healthy, alternate);
            if !ok {
                o.violate("healthy", format!("rendering the {} (way {}) to a healthy sink fails", what, mode));
                return;
            }
            match &full[i][key] {
                Some(f) if *f != healthy.got => {
                    o.violate("again", format!("rendering the {} (way {}) again gives another text", what, mode));
                    return;
                }
                _ => {}
            }
            let text = healthy.got.clone();
            if text.is_empty() {
                o.violate("empty", format!("rendering the {} (way {}) gives nothing", what, mode));
                return;
            }
            // Different ways to the same text.
            if let (Thing::Failure(e), 0 | 1) = (&things[i], mode) {
                let same = if mode == 0 { format!("{:?}", e) } else { format!("{}", e) };
                if same.as_bytes() != text.as_slice() {
                    o.violate("ways", format!("the formatter and the trait render the error differently (way {})", mode));
                    return;
                }
            }
            full[i][key] = Some(text.clone());
            let n = healthy.writes;
            let fault = match hs.below(6) {
                0 => Fault::None,
                1 => Fault::Permanent(hs.below(n)),
                2 => Fault::Transient(hs.below(n)),
                3 => Fault::Torn(hs.below(n)),
                4 => Fault::Full(hs.below(text.len() as u32) as usize),
                _ => Fault::Permanent(n - 1 - hs.below(n.min(4))),
            };
            let name = match fault {
                Fault::None => "none",
                Fault::Permanent(_) => "write fails for good",
                Fault::Transient(_) => "write fails once",
                Fault::Torn(_) => "torn write",
                Fault::Full(_) => "sink full",
            };
            if fault != Fault::None {
                o.fault(name);
            }
            let mut rest = Stream::seeded(0);
            let chunks = is_io(mode) && hs.below(2) == 1;
            if chunks {
                rest = Stream::replay((0..64).map(|_| hs.below(8)).collect());
            }
            let mut sink = Sink::new(fault, chunks.then_some(&mut rest));
            let ok = render(&things[i], mode, &mut sink, alternate);
            o.sim_time += sink.writes as u64;
            o.stat("writes", sink.writes as u64);
            for _ in 0..sink.interrupts {
                o.fault("interrupted write");
            }
            for _ in 0..sink.shorts {
                o.fault("short write");
            }
            if verbose {
                o.show.push(format!(
                    "{} way {}: {} writes, {} bytes in full; {:?}: {} after {} bytes",
                    what,
                    mode,
                    n,
                    text.len(),
                    fault,
                    if ok { "success" } else { "failure" },
                    sink.got.len()
                ));
            }
            o.nontrivial |= sink.failed;
            o.sig = hash_text(format!("{} {} {} {} {} {:?}", o.sig, what, mode, n, text.len(), fault).bytes());
            o.sigs.push(hash_text(format!("{} {} {} {:?}", what, mode, n, fault).bytes()));
            if sink.failed && ok {
                o.violate("hidden", format!("rendering the {} (way {}) reports success although {} ({:?})", what, mode, name, fault));
            } else if !sink.failed && !ok {
                o.violate("spurious", format!("rendering the {} (way {}) fails although the sink takes everything", what, mode));
            } else if !text.starts_with(&sink.got) {
                o.violate("corrupt", format!("what the {} (way {}) leaves in the sink is no prefix of its text ({:?})", what, mode, fault));
            } else if ok && sink.got != text {
                o.violate("incomplete", format!("rendering the {} (way {}) reports success and leaves a part out", what, mode));
            } else if sink.after > 0 {
                o.violate("goes on", format!("rendering the {} (way {}) writes on after {} ({:?})", what, mode, name, fault));
            }
            if o.viol.is_some() {
                return;
            }
        }
    }));
    if r.is_err() {
        o.violate("panic", format!("panic: {}", panic_text()));
    }
    o.p = std::mem::take(&mut ps.rec);
    o.h = hs.rec;
    o
}

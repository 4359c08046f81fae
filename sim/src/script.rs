//! One simulated run: a generated program is compiled by the code under test and executed against the simulated host, and the
//! reference evaluator runs the same abstract program against the same host.
use crate::ast::*;
use crate::driver::{hash_text, panic_text, Case, Outcome};
use crate::gen::{generate, Focus};
use crate::prelude;
use crate::refint::RefEngine;
use crate::render::block_text;
use crate::rng::Stream;
use crate::vm::{Code, VmEngine};
use crate::world::*;
use dice_bytecode::Bytecode;
use dice_compiler::compiler::Compiler;
use dice_core::source::{Source, SourceKind};
use std::collections::HashSet;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::rc::Rc;

pub const PRELUDE_PATH: &str = "/repo/data/scripts/prelude.dm";

/// Compiles with the code under test. `Err` holds the error code and its text.
pub fn compile(text: &str, kind: SourceKind) -> Result<Result<Bytecode, (String, String)>, String> {
    catch_unwind(AssertUnwindSafe(|| match Compiler::compile_source(Source::new(text, kind)) {
        Ok(b) => Ok(b),
        Err(e) => Err((e.error_code().to_string(), format!("{:?}", e))),
    }))
    .map_err(|_| panic_text())
}

pub struct Prelude {
    pub code: Result<Rc<Code>, String>,
    pub program: Program,
}

thread_local! {
    static PRELUDE: Rc<Prelude> = Rc::new(load_prelude());
}

fn load_prelude() -> Prelude {
    let program = prelude::program();
    let text = match std::fs::read_to_string(PRELUDE_PATH) {
        Ok(t) => t,
        Err(e) => return Prelude { code: Err(format!("the prelude cannot be read: {}", e)), program },
    };
    let code = match compile(&text, SourceKind::Module) {
        Ok(Ok(b)) => Ok(Code::new(prelude::NAME, b)),
        Ok(Err((c, e))) => Err(format!("the prelude is rejected with {}: {}", c, e)),
        Err(p) => Err(format!("compiling the prelude panics: {}", p)),
    };
    Prelude { code, program }
}

pub fn the_prelude() -> Rc<Prelude> {
    PRELUDE.with(|p| p.clone())
}

pub struct RunLog {
    pub world: World,
    pub outcome: R,
}

/// Runs a program and then the callbacks it registered.
fn activity(eng: &mut dyn Engine, main: R, before: &HashSet<Name>) -> R {
    let mut main = main;
    if let Some(m) = eng.idle() {
        main = Err(Fail::Mon(m));
    }
    let w = eng.w();
    let o = w.outcome(&main);
    w.log.push(format!("main -> {}", o));
    if matches!(main, Err(Fail::Mon(_)) | Err(Fail::Budget)) {
        return main;
    }
    deliver(eng);
    epilogue(eng.w(), before);
    main
}

fn begin(eng: &mut dyn Engine, mix: &FaultMix) -> Result<HashSet<Name>, Fail> {
    prelude::install(eng)?;
    let w = eng.w();
    let cfg = HostCfg::draw(&mut w.h, mix);
    w.cfg = cfg;
    w.log.clear();
    w.steps = 0;
    Ok(w.globals.keys().cloned().collect())
}

pub fn run_reference(p: &Program, h: Stream, mix: &FaultMix, budget: u64) -> RunLog {
    run_reference_with(p, h, mix, budget, None)
}

pub fn run_reference_with(p: &Program, h: Stream, mix: &FaultMix, budget: u64, broken: Option<(String, String)>) -> RunLog {
    let pre = the_prelude();
    let mut first = RefEngine::new(World::new(h), &pre.program, 1_000_000);
    let before = begin(&mut first, mix).expect("the reference prelude runs");
    let mut eng = RefEngine::new(first.world, p, budget);
    eng.broken = broken;
    let main = eng.run_main(&p.main);
    let outcome = activity(&mut eng, main, &before);
    RunLog { world: eng.world, outcome }
}

pub fn run_machine(main: &Rc<Code>, modules: &[(String, Rc<Code>)], h: Stream, mix: &FaultMix, budget: u64) -> RunLog {
    run_machine_with(main, modules, &[], h, mix, budget)
}

/// Modules come as code, or as texts that are compiled when they are imported.
pub fn run_machine_with(
    main: &Rc<Code>,
    modules: &[(String, Rc<Code>)],
    sources: &[(String, String)],
    h: Stream,
    mix: &FaultMix,
    budget: u64,
) -> RunLog {
    let pre = the_prelude();
    let mut eng = VmEngine::new(World::new(h), budget);
    let code = match &pre.code {
        Ok(c) => c.clone(),
        Err(e) => return RunLog { world: eng.world, outcome: Err(Fail::Mon(e.clone())) },
    };
    eng.add_module(prelude::NAME, code);
    for (n, c) in modules {
        eng.add_module(n, c.clone());
    }
    eng.sources = sources.iter().cloned().collect();
    let before = match begin(&mut eng, mix) {
        Ok(b) => b,
        Err(e) => return RunLog { world: eng.world, outcome: Err(Fail::Mon(format!("the prelude fails: {:?}", e))) },
    };
    let main = eng.run_main(main);
    let outcome = activity(&mut eng, main, &before);
    RunLog { world: eng.world, outcome }
}

/// The same, by the real interpreter.
#[cfg(feature = "interp")]
pub fn run_real(main: &Rc<Code>, modules: &[(String, Rc<Code>)], h: Stream, mix: &FaultMix, budget: u64) -> RunLog {
    let pre = the_prelude();
    let mut machine = crate::real::Machine::new(World::with(h, false), budget + 100_000);
    let outcome = (|| {
        let code = pre.code.as_ref().map_err(|e| Fail::Mon(e.clone()))?;
        machine.add_module(prelude::NAME, code.bytecode());
        for (n, c) in modules {
            machine.add_module(n, c.bytecode());
        }
        let mut eng = machine.engine();
        let before = begin(&mut eng, mix).map_err(|e| Fail::Mon(format!("the prelude fails: {:?}", e)))?;
        let main = eng.run_main(main.bytecode());
        activity(&mut eng, main, &before)
    })();
    RunLog { world: machine.into_world(), outcome }
}

#[cfg(not(feature = "interp"))]
pub fn run_real(_: &Rc<Code>, _: &[(String, Rc<Code>)], _: Stream, _: &FaultMix, _: u64) -> RunLog {
    unreachable!()
}

/// The mix of programs and faults of a property.
pub fn profile(id: &str) -> (Focus, FaultMix) {
    let mut f = Focus::default();
    let mut m = FaultMix::default();
    match id {
        "C01" => {
            f = Focus { calls: 8, ops: 4, objects: 4, lazy: 3, ..f };
            m = FaultMix { wrong: 0, null: 0, ..m };
        }
        "C02" => {
            f = Focus { calls: 5, callbacks: 6, closures: 5, ..f };
            m = FaultMix { raise: 3, reent: 2, ..m };
        }
        "C03" => {
            f = Focus { results: 12, loops: 5, exits: 5, closures: 4, ..f };
            m = FaultMix { err: 3, raise: 1, ..m };
        }
        "C04" => {
            f = Focus { chains: 12, lazy: 10, objects: 5, ..f };
            m = FaultMix { null: 3, ..m };
        }
        "C05" => {
            f = Focus { closures: 12, callbacks: 8, loops: 5, exits: 5, ..f };
            m = FaultMix { sched: 3, reent: 3, ..m };
        }
        "C06" => {
            f = Focus { loops: 12, exits: 8, closures: 3, ..f };
        }
        "C07" => {
            f = Focus { types: 12, results: 4, classes: 4, ..f };
            m = FaultMix { null: 3, wrong: 3, ..m };
        }
        "C08" => {
            f = Focus { classes: 12, ops: 10, objects: 4, ..f };
            m = FaultMix { reent: 3, ..m };
        }
        "C09" => {
            f = Focus { modules: 12, ..f };
            m = FaultMix { modfail: 3, raise: 2, ..m };
        }
        "C22" => {
            f = Focus { modules: 10, callbacks: 4, ..f };
            m = FaultMix { raise: 2, ..m };
        }
        "C19" => {
            f = Focus { odd: 6, ..f };
        }
        "C24" => {
            f = Focus { lib: 14, callbacks: 3, closures: 4, ..f };
            m = FaultMix { raise: 2, ..m };
        }
        "C21" => {
            f = Focus { wide: 2, limit: true, ill: 0, ..f };
        }
        _ => {
            f = Focus { exits: 8, results: 6, loops: 6, closures: 5, ill: 3, ..f };
            m = FaultMix { raise: 2, wrong: 2, null: 2, err: 2, ..m };
        }
    }
    (f, m)
}

pub fn program_of(case: &Case, p: &mut Stream, size: u32) -> (Program, FaultMix) {
    let (mut focus, mut mix) = profile(case.id);
    if case.id == "C19" {
        // The interpreter runs what any of the properties is about.
        (focus, mix) = profile(["C19", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10"][p.below(10) as usize]);
        focus.odd = 6;
        focus.lib = 2;
    }
    if p.below(4) == 3 && !focus.limit && case.id != "C24" {
        focus = Focus::default();
        mix = FaultMix::default();
    }
    let size = if focus.limit { size / 4 } else { size };
    let mut prog = generate(p, &focus, size);
    for e in &case.edits {
        crate::edit::delete_statement(&mut prog, *e as usize);
    }
    (prog, mix)
}

pub fn texts(p: &Program) -> Vec<(String, String)> {
    let mut out: Vec<(String, String)> =
        p.modules.iter().enumerate().map(|(i, (n, b))| (n.clone(), block_text(p, b, i as u64 + 1))).collect();
    out.push(("main".into(), block_text(p, &p.main, 0)));
    out
}

pub fn scenario(case: &Case, verbose: bool) -> Outcome {
    let edited = match case.id {
        "C10" | "C19" => case.index % 3 == 2,
        "C21" | "C24" => false,
        _ => case.index % 5 == 4,
    };
    if edited {
        return crate::splice::scenario(case, verbose);
    }
    let mut o = Outcome::default();
    let mut ps = case.p.open();
    let size = if case.big { 420 } else { 170 };
    let (prog, mix) = program_of(case, &mut ps, size);
    o.p = std::mem::take(&mut ps.rec);
    // Deleting statements may leave variables without their declarations.
    if !case.edits.is_empty() && prog.modules.iter().map(|m| &m.1).chain([&prog.main]).any(|b| !free_vars(&[], &None, b).is_empty()) {
        o.discard = Some("a variable without its declaration");
        return o;
    }
    let reference = run_reference(&prog, case.h.open(), &mix, if case.id == "C21" { 100_000 } else { 20_000 });
    o.h = reference.world.h.rec.clone();
    if verbose {
        for (n, t) in texts(&prog) {
            o.show.push(format!("--- {} ---", n));
            o.show.extend(t.lines().map(|l| l.to_string()));
        }
        o.show.push("--- expected ---".into());
        o.show.extend(reference.world.log.iter().cloned());
    }
    o.discard = unusable(&reference);
    if o.discard.is_some() {
        return o;
    }

    let mut codes = Vec::new();
    for (i, (name, text)) in texts(&prog).into_iter().enumerate() {
        let kind = if i == prog.modules.len() { SourceKind::Script } else { SourceKind::Module };
        match compile(&text, kind) {
            Ok(Ok(b)) => codes.push((name.clone(), Code::new(&name, b))),
            Ok(Err((c, _))) if beyond_limits(&c, &prog, &text) => {
                o.discard = Some("beyond the limits of the compiler");
                return o;
            }
            Ok(Err((c, e))) => {
                o.violate(&format!("rejected {}", c), format!("a valid program is rejected: {}", first_line(&e)));
                return o;
            }
            Err(p) => {
                o.violate("panic", format!("compiling panics: {}", p));
                return o;
            }
        }
    }
    let (_, main) = codes.pop().unwrap();
    let budget = reference.world.steps * 200 + 100_000;
    let machine =
        match catch_unwind(AssertUnwindSafe(|| {
            let h = crate::rng::Stream::replay(o.h.clone());
            match case.id {
                "C19" | "C24" => run_real(&main, &codes, h, &mix, budget),
                _ => run_machine(&main, &codes, h, &mix, budget),
            }
        })) {
            Ok(m) => m,
            Err(_) => {
                o.violate("panic", format!("running the compiled code panics: {}", panic_text()));
                return o;
            }
        };
    if verbose {
        o.show.push("--- observed ---".into());
        o.show.extend(machine.world.log.iter().cloned());
    }
    let w = &machine.world;
    o.faults = reference.world.faults.clone();
    o.sim_time = reference.world.end_time;
    o.stat("host calls", reference.world.host_calls as u64);
    o.stat("callback activations", reference.world.activations as u64);
    o.stat("functions started", reference.world.started);
    o.stat("instructions executed", w.steps);
    o.stat("modules loaded", reference.world.modules.len() as u64);
    o.nontrivial = reference.world.host_calls >= 3;
    o.sig = hash_text(reference.world.log.iter().flat_map(|l| l.bytes().filter(|b| !b.is_ascii_digit()).chain(std::iter::once(b'\n'))));
    compare(&reference, &machine, &mut o);
    o
}

/// Why a run of the reference says nothing.
pub fn unusable(reference: &RunLog) -> Option<&'static str> {
    match &reference.outcome {
        Err(Fail::Budget) => Some("no end within the step budget of the reference"),
        Err(Fail::Mon(_)) => Some("the reference cannot run the program"),
        _ if reference.world.log.iter().any(|l| l.contains("MONITOR ") || l.ends_with("-> budget")) => {
            Some("no end within the step budget of the reference")
        }
        _ => None,
    }
}

/// The frames of the machine have to be well-formed, and its history that of the reference.
pub fn compare(reference: &RunLog, machine: &RunLog, o: &mut Outcome) {
    let w = &machine.world;
    if let Err(Fail::Mon(m)) = &machine.outcome {
        o.violate("frame", m.clone());
        return;
    }
    if let Some(l) = w.log.iter().find(|l| l.contains("MONITOR ")) {
        o.violate("frame", l.clone());
        return;
    }
    for i in 0..reference.world.log.len().max(w.log.len()) {
        let (a, b) = (reference.world.log.get(i), w.log.get(i));
        if a != b {
            let none = "nothing more".to_string();
            o.violate("history", format!("step {}: expected `{}`, observed `{}`", i, a.unwrap_or(&none), b.unwrap_or(&none)));
            return;
        }
    }
}

/// Whether an error about a limit can be right for a program.
fn beyond_limits(code: &str, p: &Program, text: &str) -> bool {
    if !code.starts_with("E21") && code != "E1005" {
        return false;
    }
    // No limit is below 255, and a word of the text makes for at most four constants, variables or parts.
    let words = text.split(|c: char| !c.is_alphanumeric() && c != '_').filter(|w| !w.is_empty()).count();
    if words * 4 + 20 < 255 {
        return false;
    }
    if p.wide.is_empty() {
        return true;
    }
    // A constant is a name, a number, a text or a function: different words, and each may be there once as a name and once as a text.
    let mut different: Vec<&str> = text.split(|c: char| !c.is_alphanumeric() && c != '_').filter(|w| !w.is_empty()).collect();
    different.sort();
    different.dedup();
    let functions = text.matches('|').count() / 2 + text.matches("fn").count();
    if code == "E2101" && different.len() * 2 + functions >= 255 || code == "E2100" && different.len() >= 200 || code == "E2102" && different.len() >= 200 {
        return true;
    }
    // The rest of the program has some parts as well.
    p.wide.iter().any(|(k, n)| match k {
        Wide::List => *n > 255,
        Wide::Args => *n > 240,
        Wide::Consts => *n > 120,
        Wide::Locals | Wide::Captures => *n > 150,
        Wide::Jump => *n > 3000,
        Wide::Nest => *n > 150,
    }) || words > 1500
}

pub fn first_line(s: &str) -> &str {
    s.lines().next().unwrap_or("")
}

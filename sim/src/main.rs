mod ast;
mod damage;
mod driver;
mod dump;
mod edit;
mod entropy;
mod gen;
mod json;
mod grammar;
#[cfg(feature = "loader")]
mod heap;
mod library;
#[cfg(feature = "loader")]
mod poison;
#[cfg(feature = "loader")]
mod loader;
mod parse;
mod prelude;
mod proc;
#[cfg(feature = "interp")]
mod real;
mod refint;
mod render;
mod repro;
mod rng;
#[cfg(feature = "threads")]
mod sched;
mod script;
#[cfg(feature = "loader")]
mod seam;
mod sink;
mod splice;
mod statics;
#[cfg(feature = "threads")]
mod threads;
mod vm;
mod world;

use driver::Check;
use std::path::Path;

const SCRIPT_REAL: &[&str] = &["dice-core", "dice-syntax (lexer, parser)", "dice-compiler", "dice-bytecode (cursor)", "data/scripts/prelude.dm"];
const SCRIPT_STUBS: &[&str] = &[
    "virtual machine (dice-runtime does not compile at this commit; the stub follows its instruction semantics)",
    "host functions, host objects and their failures",
    "event queue and clock that deliver callbacks",
    "module loader (modules come from memory)",
];
const SCRIPT_RULE: &str = "one seed generates a program (swarm of language features, focused on the property), a host behaviour with faults and a \
callback schedule; a run is non-trivial when it makes at least 3 host calls, and distinct by the history of its host calls with all numbers removed";
const SCRIPT_SIG: &str = "distinct histories of host calls, activations and outcomes, with all numbers removed";
const SCRIPT_ASSUME: &[&str] = &[
    "the stub virtual machine executes instructions as dice-runtime's interpreter is written to",
    "programs stay below 256 constants, locals and arguments per function",
];

const fn script(id: &'static str) -> Check {
    Check {
        id,
        scenario: script::scenario,
        quick: 400_000,
        thorough: 4_000_000,
        quick_wall: 240,
        thorough_wall: 700,
        rule: SCRIPT_RULE,
        real: SCRIPT_REAL,
        stubs: SCRIPT_STUBS,
        time_unit: "ticks of the simulated clock; a host call takes one tick",
        sig: SCRIPT_SIG,
        assumptions: SCRIPT_ASSUME,
    }
}

static CHECKS: &[Check] = &[
    script("C01"),
    script("C02"),
    script("C03"),
    script("C04"),
    script("C05"),
    script("C06"),
    script("C07"),
    script("C08"),
    script("C09"),
    script("C10"),
    #[cfg(feature = "interp")]
    Check {
        real: &["dice-runtime/src/interpreter", "dice-core", "dice-syntax (lexer, parser)", "dice-compiler", "dice-bytecode", "data/scripts/prelude.dm"],
        stubs: &[
            "values, operand stack and captured variables as the interpreter's sources use them (dice-runtime as a whole does not compile)",
            "heap of objects, classes and arrays",
            "host functions, host objects and their failures",
            "event queue and clock that deliver callbacks",
            "module loader (modules come from memory)",
        ],
        assumptions: &["programs stay below 256 constants, locals and arguments per function"],
        quick: 300_000,
        ..script("C19")
    },
    #[cfg(feature = "interp")]
    Check {
        real: &[
            "dice-runtime/src/classes",
            "dice-runtime/src/interpreter",
            "dice-core",
            "dice-syntax (lexer, parser)",
            "dice-compiler",
            "dice-bytecode",
            "data/scripts/prelude.dm",
        ],
        stubs: &[
            "values, operand stack and captured variables as the sources of interpreter and library use them (dice-runtime as a whole does not compile)",
            "heap of objects, classes and arrays; the text of objects and functions",
            "host functions, host objects and their failures",
            "event queue and clock that deliver callbacks",
            "module loader (modules come from memory)",
        ],
        assumptions: &["floating-point functions are those of the standard library of Rust", "programs stay below the limits of the bytecode"],
        quick: 250_000,
        ..script("C24")
    },
    Check {
        quick: 20_000,
        thorough: 1_000_000,
        rule: "one seed generates a program with one construct of many parts (list elements, arguments, variables, captured variables, constants, \
statements to jump over, nested blocks) below, at or beyond a limit of the bytecode, and the host's answers; non-trivial as for the other \
programs: at least three host calls",
        assumptions: &["the stub virtual machine executes instructions as dice-runtime's interpreter is written to"],
        ..script("C21")
    },
    Check {
        id: "C11",
        scenario: repro::scenario,
        quick: 20_000,
        thorough: 2_000_000,
        quick_wall: 240,
        thorough_wall: 700,
        rule: "one seed generates sources and two to four environments: entropy, faults of the calls that supply it, and earlier compilations and \
renderings; a run is non-trivial when an environment has a history or faults, and distinct by the histories and the result",
        real: &["dice-core", "dice-syntax", "dice-compiler", "dice-bytecode", "uuid, rand, getrandom, std's hash maps"],
        stubs: &["the operating system's random bytes (getrandom is interposed)"],
        time_unit: "requests for entropy",
        sig: "distinct pairs of histories and results",
        assumptions: &["the entropy does not repeat"],
    },
    #[cfg(feature = "threads")]
    Check {
        id: "C12",
        scenario: threads::scenario,
        quick: 10_000,
        thorough: 500_000,
        quick_wall: 240,
        thorough_wall: 700,
        rule: "one seed generates sources, two to four threads that compile and render them in a process of their own, and a schedule; a run is \
non-trivial when threads are switched at least as often as there are threads, and distinct by the sequence of switches with their points",
        real: &["dice-core (errors, localization, rendering)", "dice-syntax", "dice-compiler", "dice-bytecode", "std's locks, once_cell, fluent"],
        stubs: &["the scheduler of threads, and futexes"],
        time_unit: "points where a thread may be stopped (branches, memory accesses, allocations)",
        sig: "distinct sequences of thread switches with the points at which they happen",
        assumptions: &["memory is sequentially consistent: reordering by the processor is not simulated"],
    },
    Check {
        id: "C13",
        scenario: damage::scenario,
        quick: 300_000,
        thorough: 20_000_000,
        quick_wall: 240,
        thorough_wall: 700,
        rule: "one seed generates a source file and one to three storage faults on it; a run is non-trivial when the file is changed and not blank, \
and distinct by the damaged text",
        real: &["dice-core (source, errors, rendering)", "dice-syntax", "dice-compiler", "dice-bytecode"],
        stubs: &["the disk (faults are applied to the bytes of the file in memory)"],
        time_unit: "bytes of damaged files compiled (the property involves no clock)",
        sig: "distinct damaged texts and distinct error messages",
        assumptions: &["files hold text; bytes that are none are replaced as a reader in lossy mode does, and are covered by C15 otherwise"],
    },
    Check {
        rule: "one seed generates a valid program of several files, picks one rule that holds before a program runs and a place in the \
program, breaks the rule there, and, if that rejects a module, a host behaviour and callback schedule under which the program runs that \
imports it; a run is non-trivial when there is such a place, and distinct by the texts and the history",
        assumptions: &[
            "the stub virtual machine executes instructions as dice-runtime's interpreter is written to",
            "the first broken rule that the compiler meets is the only one",
        ],
        sig: "distinct pairs of texts and histories",
        quick: 100_000,
        thorough: 4_000_000,
        scenario: statics::scenario,
        ..script("C22")
    },
    Check {
        id: "C14",
        scenario: sink::scenario,
        quick: 150_000,
        thorough: 10_000_000,
        quick_wall: 240,
        thorough_wall: 700,
        rule: "one seed generates source files (damaged or not), compiles them and renders the errors or disassemblies in up to twelve renderings, \
each to a sink with a fault at a chosen write; a run is non-trivial when a sink fails, and distinct by the sizes of the texts and the faults",
        real: &["dice-core (errors, localization, rendering)", "dice-bytecode (disassembly)", "dice-syntax", "dice-compiler"],
        stubs: &["the sink that receives the text (in memory, with faults)"],
        time_unit: "writes that reach a sink",
        sig: "distinct pairs of a rendering (by its number of writes) and a fault",
        assumptions: &["rendering to a terminal, with colours"],
    },
    #[cfg(feature = "loader")]
    Check {
        id: "C15",
        scenario: loader::scenario,
        quick: 60_000,
        thorough: 4_000_000,
        quick_wall: 240,
        thorough_wall: 700,
        rule: "one seed generates a directory tree with files and links, and a sequence of loads with changes of the tree between and during them and \
faults of the file-system calls; a run is non-trivial when a fault or concurrent change hits a load, and distinct by its calls, faults and results",
        real: &["dice-runtime (FileModuleLoader, Module, symbols)", "dice-compiler", "dice-syntax", "dice-core", "std::fs, dunce"],
        stubs: &[
            "results of file-system calls (interposed; those without a fault go to real files in a scratch directory)",
            "the interpreter that asks for modules (it does not compile)",
        ],
        time_unit: "file-system calls",
        sig: "distinct sequences of calls, faults and results of one load",
        assumptions: &["a directory on the resolved path is not replaced by a link between resolution and opening"],
    },
    #[cfg(feature = "loader")]
    Check {
        id: "C20",
        scenario: heap::scenario,
        quick: 400_000,
        thorough: 10_000_000,
        quick_wall: 240,
        thorough_wall: 700,
        rule: "one seed generates a sequence of the operations that instructions consist of, in activations, and the collector's work between \
them: how far it marks or frees before the program goes on, and where activations fail; a run is non-trivial when the collector works or an \
activation fails at least three times, and distinct by the operations, the phases of the collector and the failures",
        real: &["dice-runtime (values, objects, arrays, classes, closures, captured variables, stack, symbols, state)", "gc-arena"],
        stubs: &["the interpreter, whose operations on the heap the simulator issues (it does not compile)", "the decision when the collector works"],
        time_unit: "operations of the program",
        sig: "distinct sequences of operations, collector phases and failures",
        assumptions: &["a host function that a value holds ends when the value is freed, and not before"],
    },
    #[cfg(feature = "loader")]
    Check {
        id: "C23",
        scenario: heap::scenario,
        quick: 400_000,
        thorough: 10_000_000,
        quick_wall: 240,
        thorough_wall: 700,
        rule: "one seed generates a sequence of the operations that instructions consist of, in activations, and the collector's work between \
them: how far it marks or frees before the program goes on, and where activations fail; a run is non-trivial when the collector works or an \
activation fails at least three times, and distinct by the operations, the phases of the collector and the failures",
        real: &["dice-runtime (values, objects, arrays, classes, closures, captured variables, stack, symbols, state)", "gc-arena"],
        stubs: &["the interpreter, whose operations on the heap the simulator issues (it does not compile)", "the decision when the collector works"],
        time_unit: "operations of the program",
        sig: "distinct sequences of operations, collector phases and failures",
        assumptions: &["operations are issued as dice-runtime's interpreter is written to"],
    },
];

fn find(id: &str) -> &'static Check {
    CHECKS.iter().find(|c| c.id == id).unwrap_or_else(|| {
        eprintln!("no check {}", id);
        std::process::exit(2)
    })
}

#[cfg(feature = "loader")]
#[global_allocator]
static MEMORY: poison::Memory = poison::Memory;

fn main() {
    let args: Vec<String> = std::env::args().skip(1).collect();
    let args: Vec<&str> = args.iter().map(|s| s.as_str()).collect();
    let seed = || std::env::var("VERIF_SEED").ok().and_then(|s| s.parse::<u64>().ok()).unwrap_or(1);
    let code = match args.as_slice() {
        ["check", id] => {
            let tier = std::env::var("VERIF_TIER").unwrap_or_else(|_| "quick".into());
            driver::supervise(find(id), &tier, seed())
        }
        ["check", id, "--tier", tier] => driver::supervise(find(id), tier, seed()),
        ["worker", id, tier, seed, first, out] => {
            driver::worker(find(id), tier, seed.parse().unwrap(), first.parse().unwrap(), Path::new(out))
        }
        ["one", file] => driver::run_one(Path::new(file), CHECKS),
        ["replay", file] => driver::replay(Path::new(file), CHECKS),
        ["show", id, index] => {
            let check = find(id);
            let case = driver::case_of(check, seed(), index.parse().unwrap());
            driver::quiet_panics();
            let o = driver::on_big_stack(move || driver::run_case(check, &case, true)).unwrap();
            for l in &o.show {
                println!("{}", l);
            }
            println!("{:?} {:?} {:?}", o.viol, o.discard, o.faults);
            0
        }
        _ => {
            eprintln!("usage: dice-sim check ID [--tier quick|thorough] | replay FILE | show ID RUN");
            2
        }
    };
    std::process::exit(code);
}

//! Runs the Dice scripts of a folder (main.dm and the modules beside it) on the virtual machine of this demonstration and prints what
//! the host observed. Compile errors are printed instead of run.
#![allow(dead_code)]
mod ast;
mod library;
mod prelude;
mod rng;
mod vm;
mod world;
use dice_bytecode::Bytecode;
use dice_compiler::compiler::Compiler;
use dice_core::source::{Source, SourceKind};
use std::rc::Rc;
use vm::{Code, VmEngine};
use world::*;

mod script {
    use super::*;
    pub fn compile(text: &str, kind: SourceKind) -> Result<Result<Bytecode, (String, String)>, String> {
        Ok(Compiler::compile_source(Source::new(text.to_string(), kind)).map_err(|e| (e.error_code().to_string(), format!("{:?}", e))))
    }
}

fn compile(name: &str, text: &str, kind: SourceKind) -> Result<Rc<Code>, String> {
    let bytecode: Bytecode = Compiler::compile_source(Source::new(text.to_string(), kind)).map_err(|e| format!("{:?}", e))?;
    Ok(Code::new(name, bytecode))
}

fn main() {
    let dir = std::env::args().nth(1).expect("folder");
    let mut eng = VmEngine::new(World::new(rng::Stream::replay(Vec::new())), 1_000_000);
    let pre = std::fs::read_to_string("/repo/data/scripts/prelude.dm").expect("prelude");
    let mut names: Vec<String> = std::fs::read_dir(&dir).unwrap().map(|e| e.unwrap().file_name().into_string().unwrap()).collect();
    names.sort();
    let mut main = None;
    let all = std::iter::once((prelude::NAME.to_string(), pre)).chain(
        names.iter().filter(|n| n.ends_with(".dm")).map(|n| (n.trim_end_matches(".dm").to_string(), std::fs::read_to_string(format!("{}/{}", dir, n)).unwrap())),
    );
    for (name, text) in all {
        let kind = if name == "main" { SourceKind::Script } else { SourceKind::Module };
        match compile(&name, &text, kind) {
            Ok(c) if name == "main" => main = Some(c),
            Ok(c) => eng.add_module(&name, c),
            Err(e) => println!("{} is rejected: {}", name, e),
        }
    }
    let main = match main {
        Some(m) => m,
        None => return,
    };
    if let Err(e) = prelude::install(&mut eng) {
        println!("the prelude fails: {:?}", e);
        return;
    }
    let cfg = HostCfg { ints: 3, ..HostCfg::default() };
    eng.world.cfg = cfg;
    eng.world.log.clear();
    let result = eng.run_main(&main);
    let text = eng.world.outcome(&result);
    println!("{}", eng.world.log.join("\n"));
    println!("main -> {}", text);
    eng.world.log.clear();
    deliver(&mut eng);
    println!("{}", eng.world.log.join("\n"));
    if eng.idle_depth() != 0 || eng.open_upvalues() != 0 {
        println!("left behind: {} operands, {} open variables", eng.idle_depth(), eng.open_upvalues());
    }
}

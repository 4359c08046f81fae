//! A compiled program as text, without the fresh identifiers of its functions.
use dice_bytecode::{Bytecode, ConstantValue};
use std::fmt::Write;

pub fn dump(b: &Bytecode) -> String {
    let mut out = String::new();
    put(b, 0, &mut out);
    out
}

fn put(b: &Bytecode, depth: usize, out: &mut String) {
    let pad = "  ".repeat(depth);
    let mut c = b.cursor();
    let mut code = String::new();
    for _ in 0..c.remaining() {
        let _ = write!(code, "{:02x}", c.read_u8());
    }
    let _ = writeln!(out, "{}slots {} upvalues {} code {}", pad, b.slot_count(), b.upvalue_count(), code);
    for k in b.constants() {
        match k {
            ConstantValue::Function(f) => {
                let _ = writeln!(out, "{}fn {:?}", pad, name(f));
                put(&f.bytecode, depth + 1, out);
            }
            ConstantValue::Float(x) => {
                let _ = writeln!(out, "{}float {:016x}", pad, x.to_bits());
            }
            k => {
                let _ = writeln!(out, "{}{:?}", pad, k);
            }
        }
    }
}

/// The identifiers of all functions of a program.
pub fn ids(b: &Bytecode, out: &mut Vec<[u8; 16]>) {
    for k in b.constants() {
        if let ConstantValue::Function(f) = k {
            out.push(*f.id.as_bytes());
            ids(&f.bytecode, out);
        }
    }
}

/// The name of a function, without what is fresh in it.
fn name(f: &dice_bytecode::FunctionBytecode) -> String {
    const FRESH: &str = "__anonymous_fn_";
    if f.name.starts_with(FRESH) {
        format!("{}#", FRESH)
    } else {
        f.name.replace(&f.id.to_string(), "#")
    }
}

//! The interpreter and the standard library of dice-runtime, run as they are. Their sources were written for values that are owned
//! and a runtime that is not inside of an arena; the rest of dice-runtime has since begun to move to a collected heap, so the crate as
//! a whole does not compile. This crate includes those files and gives them what they import: the values, the stack and the runtime
//! they were written for, whose objects live in the heap of the simulation.
extern crate dice_core as dice_bytecode;

pub mod module;
pub mod runtime;
pub mod stack;

#[path = "/repo/dice-runtime/src/classes/mod.rs"]
mod classes;
#[path = "/repo/dice-runtime/src/interpreter/mod.rs"]
mod interpreter;

pub use dice_core::{bytecode, error, stop, upvalue, value, Bytecode};
pub use runtime::Runtime;

//! What the sources of the interpreter and of the standard library import from `dice_core` and `dice_bytecode`.
pub mod bytecode;
pub mod error;
pub mod protocol;
pub mod runtime;
pub mod stop;
pub mod upvalue;
pub mod value;

pub use bytecode::{Bytecode, BytecodeCursor};
pub use real_bytecode::Instruction;
pub use real_core::{source, span, tags};

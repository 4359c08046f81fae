use crate::error::Error;
use crate::runtime::Runtime;
use crate::value::{Symbol, Value};
use crate::Bytecode;

pub struct Module {
    pub id: Symbol,
    pub bytecode: Bytecode,
}

/// What the simulation gives to the interpreter.
pub trait ModuleLoader: Sized + 'static {
    fn load_module(&mut self, name: Symbol) -> Result<Module, Error>;
    /// Runs a function that is not compiled code. The first argument is the receiver, or the function itself.
    fn call_native(runtime: &mut Runtime<Self>, function: u32, args: &[Value]) -> Result<Value, Error>;
    /// A call that the standard library made failed; it may go on in spite of the error.
    fn failed(error: Error) -> Error;
    /// Such a call did not return.
    fn stopped(panic: Box<dyn std::any::Any + Send>) -> Error;
}

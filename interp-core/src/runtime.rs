use crate::error::Error;
use crate::value::{Class, Object, Value};

/// What functions of the host and of the standard library see of the runtime.
pub trait Runtime {
    fn new_object(&mut self) -> Result<Object, Error>;
    /// Calls a function; if that fails, nothing is left behind.
    fn call_function(&mut self, target: Value, args: &[Value]) -> Result<Value, Error>;
    fn any_class(&self) -> Result<Class, Error>;
    fn class_of(&self, value: &Value) -> Result<Class, Error>;
    fn is_value_of_type(&self, value: &Value, class: &Class) -> Result<bool, Error>;
    /// Runs a function of the host. The first argument is the receiver, or the function itself.
    fn call_host(&mut self, function: u32, args: &[Value]) -> Result<Value, Error>;
}

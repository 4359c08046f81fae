use crate::error::Error;
use crate::module::ModuleLoader;
use crate::stack::Stack;
use crate::upvalue::OpenUpvalues;
use crate::value::{Class, Object, Symbol, Value, ValueKind};
use crate::Bytecode;
use std::collections::HashMap;
use std::panic::{catch_unwind, AssertUnwindSafe};

pub struct State {
    pub open_upvalues: OpenUpvalues,
}

pub struct Runtime<L: ModuleLoader> {
    pub stack: Stack,
    pub open_upvalues: OpenUpvalues,
    pub state: State,
    pub globals: HashMap<Symbol, Value>,
    pub loaded_modules: HashMap<Symbol, Value>,
    pub module_loader: L,
    pub any_class: Class,
    pub module_class: Class,
    pub value_class_mapping: HashMap<ValueKind, Class>,
}

impl<L: ModuleLoader> Runtime<L> {
    pub fn new(module_loader: L) -> Self {
        let open_upvalues = OpenUpvalues::default();
        let any_class = Self::new_any_class();
        let module_class = Self::new_module_class(&any_class);
        let mut globals = HashMap::new();
        globals.insert(any_class.name(), Value::Class(any_class));
        globals.insert(module_class.name(), Value::Class(module_class));
        let mut runtime = Runtime {
            stack: Stack::default(),
            open_upvalues: open_upvalues.clone(),
            state: State { open_upvalues },
            globals,
            loaded_modules: HashMap::new(),
            module_loader,
            any_class,
            module_class,
            value_class_mapping: HashMap::new(),
        };
        runtime.register_known_types();
        runtime
    }

    pub(crate) fn set_value_class(&mut self, kind: ValueKind, class: Class) {
        self.value_class_mapping.insert(kind, class);
        self.globals.insert(class.name(), Value::Class(class));
    }

    pub fn run(&mut self, bytecode: Bytecode) -> Result<Value, Error> {
        let frame = self.stack.reserve(bytecode.slot_count());
        let result = self.execute(&bytecode, frame, None)?;
        self.stack.release(frame);
        Ok(result)
    }

    pub fn run_module(&mut self, bytecode: Bytecode, export: Value) -> Result<Value, Error> {
        let frame = self.stack.reserve(bytecode.slot_count());
        self.stack[frame.start()] = export;
        let result = self.execute(&bytecode, frame, None)?;
        self.stack.release(frame);
        Ok(result)
    }

    /// Calls a function from outside.
    pub fn call_from_outside(&mut self, target: Value, args: &[Value]) -> Result<Value, Error> {
        self.stack.push(target);
        self.stack.push_multiple(args);
        self.call_fn(args.len())?;
        Ok(self.stack.pop())
    }

    /// After a failure the frames of the activation are dropped; captured variables in them survive.
    pub fn unwind(&mut self, len: usize, depth: u32) {
        self.stack.depth = depth;
        self.open_upvalues.close_from(len, self.stack.values());
        self.stack.truncate(len);
    }

    pub fn is_value_of_type(&self, value: &Value, class: &Class) -> Result<bool, Error> {
        Ok(value
            .as_object()
            .ok()
            .and_then(|object| object.class())
            .or_else(|| self.value_class_mapping.get(&value.kind()).cloned())
            .map_or(false, |c| c.is_class(class)))
    }
}

impl<L: ModuleLoader> dice_core::runtime::Runtime for Runtime<L> {
    fn new_object(&mut self) -> Result<Object, Error> {
        Ok(Object::new(self.any_class))
    }
    fn call_function(&mut self, target: Value, args: &[Value]) -> Result<Value, Error> {
        let (len, depth) = (self.stack.len(), self.stack.depth);
        let result = catch_unwind(AssertUnwindSafe(|| self.call_from_outside(target, args)));
        let error = match result {
            Ok(Ok(value)) => return Ok(value),
            Ok(Err(e)) => e,
            Err(panic) => L::stopped(panic),
        };
        self.unwind(len, depth);
        Err(L::failed(error))
    }
    fn any_class(&self) -> Result<Class, Error> {
        Ok(self.any_class)
    }
    fn class_of(&self, value: &Value) -> Result<Class, Error> {
        Ok(value
            .as_object()
            .ok()
            .and_then(|object| object.class())
            .or_else(|| self.value_class_mapping.get(&value.kind()).cloned())
            .unwrap_or(self.any_class))
    }
    fn is_value_of_type(&self, value: &Value, class: &Class) -> Result<bool, Error> {
        Runtime::is_value_of_type(self, value, class)
    }
    fn call_host(&mut self, function: u32, args: &[Value]) -> Result<Value, Error> {
        L::call_native(self, function, args)
    }
}

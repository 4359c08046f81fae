use crate::stop::{stop, Stop};
use crate::value::{FnScript, Value};
use real_bytecode::{ConstantValue, Instruction};
use std::cell::Cell;
use std::rc::Rc;

thread_local! {
    static STEPS: Cell<(u64, u64)> = Cell::new((0, u64::MAX));
}

/// Starts counting instructions; after `limit` of them the run is stopped.
pub fn count_steps(limit: u64) {
    STEPS.with(|s| s.set((0, limit)));
}

pub fn steps() -> u64 {
    STEPS.with(|s| s.get().0)
}

/// Compiled code whose constants are values.
#[derive(Clone)]
pub struct Bytecode(Rc<Inner>);

struct Inner {
    code: real_bytecode::Bytecode,
    constants: Vec<Value>,
}

impl From<real_bytecode::Bytecode> for Bytecode {
    fn from(code: real_bytecode::Bytecode) -> Self {
        let constants = code
            .constants()
            .iter()
            .map(|c| match c {
                ConstantValue::Int(i) => Value::Int(*i),
                ConstantValue::Float(f) => Value::Float(*f),
                ConstantValue::String(s) | ConstantValue::Symbol(s) => Value::String(Rc::from(s.as_str())),
                ConstantValue::Function(f) => Value::FnScript(FnScript::new(&f.name, f.bytecode.clone().into())),
            })
            .collect();
        Bytecode(Rc::new(Inner { code, constants }))
    }
}

impl Bytecode {
    pub fn constants(&self) -> &[Value] {
        &self.0.constants
    }
    pub fn slot_count(&self) -> usize {
        self.0.code.slot_count()
    }
    pub fn upvalue_count(&self) -> usize {
        self.0.code.upvalue_count()
    }
    pub fn cursor(&self) -> BytecodeCursor<'_> {
        BytecodeCursor(self.0.code.cursor())
    }
}

/// The real cursor, counting the instructions it reads.
pub struct BytecodeCursor<'a>(real_bytecode::BytecodeCursor<'a>);

impl BytecodeCursor<'_> {
    pub fn read_instruction(&mut self) -> Option<Instruction> {
        STEPS.with(|s| {
            let (n, limit) = s.get();
            if n >= limit {
                stop(Stop::Steps);
            }
            s.set((n + 1, limit));
        });
        self.0.read_instruction()
    }
    pub fn read_u8(&mut self) -> u8 {
        self.0.read_u8()
    }
    pub fn read_offset(&mut self) -> i16 {
        self.0.read_offset()
    }
    pub fn offset_position(&mut self, offset: i16) {
        self.0.offset_position(offset)
    }
    pub fn last_instruction_offset(&self) -> u64 {
        self.0.last_instruction_offset()
    }
    pub fn position(&self) -> u64 {
        self.0.position()
    }
    pub fn remaining(&self) -> u64 {
        self.0.remaining()
    }
}

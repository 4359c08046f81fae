use crate::stop::{stop, Stop};
use crate::value::Value;
use std::ops::{Index, IndexMut, Range};

#[derive(Copy, Clone, Debug)]
pub struct StackFrame {
    start: usize,
    end: usize,
}

impl StackFrame {
    pub fn new(start: usize, end: usize) -> Self {
        Self { start, end }
    }
    pub fn start(self) -> usize {
        self.start
    }
    pub fn range(self) -> Range<usize> {
        self.start..self.end
    }
    pub fn prepend(self, count: usize) -> Self {
        Self { start: self.start - count, end: self.end }
    }
    pub fn length(self) -> usize {
        self.end - self.start
    }
}

/// How deep calls of compiled code may nest.
pub const DEPTH_LIMIT: u32 = 40;

#[derive(Default)]
pub struct Stack {
    values: Vec<Value>,
    pub depth: u32,
    pub started: u64,
}

impl Stack {
    pub fn push(&mut self, value: Value) {
        self.values.push(value)
    }
    pub fn push_multiple(&mut self, values: &[Value]) {
        self.values.extend_from_slice(values)
    }
    pub fn pop(&mut self) -> Value {
        self.values.pop().expect("operand stack underflow")
    }
    pub fn pop_count(&mut self, count: usize) -> Vec<Value> {
        assert!(count <= self.values.len(), "operand stack underflow");
        self.values.split_off(self.values.len() - count)
    }
    pub fn peek(&self, offset: usize) -> &Value {
        assert!(offset < self.values.len(), "operand stack underflow");
        &self.values[self.values.len() - 1 - offset]
    }
    pub fn peek_mut(&mut self, offset: usize) -> &mut Value {
        assert!(offset < self.values.len(), "operand stack underflow");
        let at = self.values.len() - 1 - offset;
        &mut self.values[at]
    }
    pub fn swap(&mut self) {
        let n = self.values.len();
        assert!(n >= 2, "operand stack underflow");
        self.values.swap(n - 1, n - 2)
    }
    pub fn len(&self) -> usize {
        self.values.len()
    }
    pub fn is_empty(&self) -> bool {
        self.values.is_empty()
    }

    /// The slots of a function that is called.
    pub fn reserve_slots(&mut self, count: usize) -> StackFrame {
        if self.depth >= DEPTH_LIMIT {
            stop(Stop::Depth);
        }
        self.depth += 1;
        self.started += 1;
        self.reserve(count)
    }
    pub fn release_stack_frame(&mut self, frame: StackFrame) {
        self.depth -= 1;
        self.release(frame)
    }

    pub fn reserve(&mut self, count: usize) -> StackFrame {
        let start = self.values.len();
        self.values.resize(start + count, Value::Null);
        StackFrame::new(start, start + count)
    }
    pub fn release(&mut self, frame: StackFrame) {
        assert_eq!(frame.end, self.values.len(), "a frame is released that is not the last");
        self.values.truncate(frame.start)
    }
    pub fn values(&self) -> &[Value] {
        &self.values
    }
    pub fn truncate(&mut self, len: usize) {
        self.values.truncate(len)
    }
}

impl Index<usize> for Stack {
    type Output = Value;
    fn index(&self, index: usize) -> &Value {
        &self.values[index]
    }
}

impl IndexMut<usize> for Stack {
    fn index_mut(&mut self, index: usize) -> &mut Value {
        &mut self.values[index]
    }
}

impl Index<StackFrame> for Stack {
    type Output = [Value];
    fn index(&self, frame: StackFrame) -> &[Value] {
        &self.values[frame.range()]
    }
}

impl IndexMut<StackFrame> for Stack {
    fn index_mut(&mut self, frame: StackFrame) -> &mut [Value] {
        &mut self.values[frame.range()]
    }
}

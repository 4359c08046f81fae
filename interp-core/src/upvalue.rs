use crate::value::Value;
use std::cell::{Ref, RefCell, RefMut};
use std::collections::VecDeque;
use std::rc::Rc;

pub enum UpvalueState {
    Open(usize),
    Closed(Value),
}

#[derive(Clone)]
pub struct Upvalue(Rc<RefCell<UpvalueState>>);

impl Upvalue {
    pub fn new_open(slot: usize) -> Self {
        Upvalue(Rc::new(RefCell::new(UpvalueState::Open(slot))))
    }
    pub fn close(&self, value: Value) {
        *self.0.borrow_mut() = UpvalueState::Closed(value);
    }
    pub fn state(&self) -> Ref<'_, UpvalueState> {
        self.0.borrow()
    }
    pub fn state_mut(&self) -> RefMut<'_, UpvalueState> {
        self.0.borrow_mut()
    }
}

/// The interpreter names its open upvalues in two ways; both are this list.
#[derive(Clone, Default)]
pub struct OpenUpvalues(Rc<RefCell<VecDeque<Upvalue>>>);

impl OpenUpvalues {
    pub fn iter(&self) -> std::vec::IntoIter<Upvalue> {
        self.0.borrow().iter().cloned().collect::<Vec<_>>().into_iter()
    }
    pub fn push_back(&self, upvalue: Upvalue) {
        self.0.borrow_mut().push_back(upvalue)
    }
    pub fn push_front(&self, upvalue: Upvalue) {
        self.0.borrow_mut().push_front(upvalue)
    }
    pub fn remove(&self, index: usize) -> Option<Upvalue> {
        self.0.borrow_mut().remove(index)
    }
    pub fn len(&self) -> usize {
        self.0.borrow().len()
    }
    pub fn is_empty(&self) -> bool {
        self.len() == 0
    }

    /// Closes those at and above a slot.
    pub fn close_from(&self, slot: usize, values: &[Value]) {
        self.0.borrow_mut().retain(|u| {
            let at = match &*u.state() {
                UpvalueState::Open(at) => *at,
                UpvalueState::Closed(_) => return false,
            };
            if at < slot {
                return true;
            }
            u.close(values.get(at).cloned().unwrap_or(Value::Null));
            false
        })
    }
}

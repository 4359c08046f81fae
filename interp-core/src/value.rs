use crate::error::codes::*;
use crate::error::Error;
use crate::runtime::Runtime;
use crate::stop::{stop, Stop};
use crate::upvalue::Upvalue;
use crate::Bytecode;
use std::cell::{Cell, RefCell};
use std::collections::HashMap;
use std::ops::{Deref, DerefMut, Index, IndexMut};
use std::rc::Rc;

/// Where objects, classes and arrays live.
pub trait Heap {
    fn new_object(&self, class: u32) -> u32;
    fn new_class(&self, name: &str, base: u32) -> u32;
    fn new_array(&self, items: Vec<Value>) -> u32;
    fn object_class(&self, object: u32) -> Option<u32>;
    fn class_name(&self, class: u32) -> Rc<str>;
    fn class_base(&self, class: u32) -> Option<u32>;
    fn is_class(&self, class: u32, other: u32) -> bool;
    fn method(&self, class: u32, name: &str) -> Option<Value>;
    fn set_method(&self, class: u32, name: &str, value: Value);
    fn field(&self, of: Place, name: &str) -> Option<Value>;
    fn set_field(&self, of: Place, name: &str, value: Value);
    fn items(&self, array: u32) -> Vec<Value>;
    fn set_items(&self, array: u32, items: Vec<Value>);
    fn fields(&self, of: Place) -> Vec<Symbol>;
    fn methods(&self, class: u32) -> Vec<(Symbol, Value)>;
    /// The class of the simulation that stands for one of the standard library.
    /// If it is derived from another one, it has what that has.
    fn library_class(&self, name: &str, base: Option<u32>) -> Option<u32>;
    fn new_native(&self) -> u32;
    /// What a value that is neither a number, a string nor null is shown as.
    fn show(&self, value: &Value) -> String;
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Place {
    Object(u32),
    Class(u32),
    Array(u32),
}

thread_local! {
    static HEAP: RefCell<Option<Rc<dyn Heap>>> = RefCell::new(None);
}

/// How long strings and arrays may become.
pub const SIZE_LIMIT: usize = 200;

pub type NativeFn = Box<dyn Fn(&mut dyn Runtime, &[Value]) -> Result<Value, Error>>;

thread_local! {
    static NATIVE: RefCell<HashMap<u32, Rc<NativeFn>>> = RefCell::new(HashMap::new());
}

pub fn set_heap(heap: Option<Rc<dyn Heap>>) {
    NATIVE.with(|n| n.borrow_mut().clear());
    HEAP.with(|h| *h.borrow_mut() = heap);
}

fn heap() -> Rc<dyn Heap> {
    HEAP.with(|h| h.borrow().clone()).expect("a heap")
}

/// A name, known by a number.
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub struct Symbol(u32);

#[derive(Default)]
struct Names {
    numbers: HashMap<Rc<str>, u32>,
    names: Vec<Rc<str>>,
}

thread_local! {
    static NAMES: RefCell<Names> = RefCell::new(Names::default());
}

impl Symbol {
    pub fn as_string(&self) -> String {
        self.text().to_string()
    }
    pub fn text(&self) -> Rc<str> {
        NAMES.with(|n| n.borrow().names[self.0 as usize].clone())
    }
}

impl std::fmt::Display for Symbol {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str(&self.text())
    }
}

impl From<&str> for Symbol {
    fn from(s: &str) -> Self {
        NAMES.with(|n| {
            let n = &mut *n.borrow_mut();
            if let Some(i) = n.numbers.get(s) {
                return Symbol(*i);
            }
            let i = n.names.len() as u32;
            let name: Rc<str> = Rc::from(s);
            n.names.push(name.clone());
            n.numbers.insert(name, i);
            Symbol(i)
        })
    }
}

impl From<&Symbol> for Symbol {
    fn from(s: &Symbol) -> Self {
        *s
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum ValueKind {
    Null,
    Unit,
    Bool,
    Int,
    Float,
    Function,
    Array,
    String,
    Symbol,
    Object,
    Class,
}

#[derive(Clone)]
pub enum Value {
    Null,
    Unit,
    Bool(bool),
    Int(i64),
    Float(f64),
    FnClosure(FnClosure),
    FnScript(FnScript),
    FnNative(FnNative),
    FnBound(FnBound),
    Array(Array),
    String(Rc<str>),
    Object(Object),
    Class(Class),
}

impl PartialEq for Value {
    fn eq(&self, other: &Value) -> bool {
        match (self, other) {
            (Value::Null, Value::Null) | (Value::Unit, Value::Unit) => true,
            (Value::Bool(a), Value::Bool(b)) => a == b,
            (Value::Int(a), Value::Int(b)) => a == b,
            (Value::Float(a), Value::Float(b)) => a == b,
            (Value::String(a), Value::String(b)) => a == b,
            (Value::Object(a), Value::Object(b)) => a == b,
            (Value::Array(a), Value::Array(b)) => a == b,
            (Value::Class(a), Value::Class(b)) => a == b,
            (Value::FnNative(a), Value::FnNative(b)) => a.0 == b.0,
            (Value::FnClosure(a), Value::FnClosure(b)) => Rc::ptr_eq(&a.0, &b.0),
            (Value::FnScript(a), Value::FnScript(b)) => Rc::ptr_eq(&a.0, &b.0),
            (Value::FnBound(a), Value::FnBound(b)) => Rc::ptr_eq(&a.0, &b.0),
            _ => false,
        }
    }
}

impl Value {
    pub fn kind(&self) -> ValueKind {
        match self {
            Value::Null => ValueKind::Null,
            Value::Unit => ValueKind::Unit,
            Value::Bool(_) => ValueKind::Bool,
            Value::Int(_) => ValueKind::Int,
            Value::Float(_) => ValueKind::Float,
            Value::FnClosure(_) | Value::FnScript(_) | Value::FnNative(_) | Value::FnBound(_) => ValueKind::Function,
            Value::Array(_) => ValueKind::Array,
            Value::String(_) => ValueKind::String,
            Value::Object(_) => ValueKind::Object,
            Value::Class(_) => ValueKind::Class,
        }
    }
    pub fn as_bool(&self) -> Result<bool, Error> {
        match self {
            Value::Bool(b) => Ok(*b),
            _ => Err(Error::new(INVALID_BOOL_CONVERSION)),
        }
    }
    pub fn as_int(&self) -> Result<i64, Error> {
        match self {
            Value::Int(i) => Ok(*i),
            _ => Err(Error::new(INVALID_INT_CONVERSION)),
        }
    }
    pub fn as_symbol(&self) -> Result<Symbol, Error> {
        match self {
            Value::String(s) => Ok(Symbol::from(&**s)),
            _ => Err(Error::new(INVALID_SYMBOL_CONVERSION)),
        }
    }
    pub fn as_object(&self) -> Result<Object, Error> {
        match self {
            Value::Object(o) => Ok(*o),
            Value::Class(c) => Ok(Object(Place::Class(c.0))),
            Value::Array(a) => Ok(Object(Place::Array(a.0))),
            _ => Err(Error::new(INVALID_OBJECT_CONVERSION)),
        }
    }
    pub fn as_class(&self) -> Result<Class, Error> {
        match self {
            Value::Class(c) => Ok(*c),
            _ => Err(Error::new(INVALID_CLASS_CONVERSION)),
        }
    }
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub struct Object(pub Place);

impl Object {
    pub fn new(class: Class) -> Self {
        Object(Place::Object(heap().new_object(class.0)))
    }
    pub fn class(&self) -> Option<Class> {
        match self.0 {
            Place::Object(o) => heap().object_class(o).map(Class),
            _ => None,
        }
    }
    pub fn fields(&self) -> Fields {
        Fields(self.0)
    }
    pub fn field(&self, name: &Symbol) -> Option<Value> {
        heap().field(self.0, &name.text())
    }
    pub fn set_field(&self, name: impl Into<Symbol>, value: Value) {
        heap().set_field(self.0, &name.into().text(), value)
    }
}

pub struct Fields(Place);

impl Fields {
    pub fn keys(&self) -> std::vec::IntoIter<Symbol> {
        heap().fields(self.0).into_iter()
    }
    pub fn get(&self, name: &Symbol) -> Option<Value> {
        heap().field(self.0, &name.text())
    }
    pub fn contains_key(&self, name: &Symbol) -> bool {
        self.get(name).is_some()
    }
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub struct Class(pub u32);

impl Class {
    /// Only the standard library creates classes without a base.
    pub fn new(name: impl Into<Symbol>) -> Self {
        let name = name.into();
        Class(heap().library_class(&name.text(), None).expect("a class of the standard library"))
    }
    pub fn with_base(name: Symbol, base: Class) -> Self {
        Class(heap().new_class(&name.text(), base.0))
    }
    /// Only the standard library derives classes like this.
    pub fn derive(&self, name: impl Into<Symbol>) -> Self {
        let name = name.into();
        let class = heap().library_class(&name.text(), Some(self.0));
        class.map_or_else(|| Class::with_base(name, *self), Class)
    }
    pub fn methods(&self) -> Vec<(Symbol, Value)> {
        heap().methods(self.0)
    }
    pub fn set_field(&self, name: impl Into<Symbol>, value: Value) {
        heap().set_field(Place::Class(self.0), &name.into().text(), value)
    }
    pub fn name(&self) -> Symbol {
        Symbol::from(&*heap().class_name(self.0))
    }
    pub fn base(&self) -> Option<Class> {
        heap().class_base(self.0).map(Class)
    }
    pub fn is_class(&self, other: &Class) -> bool {
        heap().is_class(self.0, other.0)
    }
    pub fn method(&self, name: impl Into<Symbol>) -> Option<Value> {
        heap().method(self.0, &name.into().text())
    }
    pub fn set_method(&self, name: impl Into<Symbol>, value: impl Into<Value>) {
        heap().set_method(self.0, &name.into().text(), value.into())
    }
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub struct Array(pub u32);

impl From<Vec<Value>> for Array {
    fn from(items: Vec<Value>) -> Self {
        Array(heap().new_array(items))
    }
}

impl Array {
    pub fn elements(&self) -> Vec<Value> {
        heap().items(self.0)
    }
    pub fn push(&self, value: Value) {
        let mut items = heap().items(self.0);
        if items.len() >= SIZE_LIMIT {
            stop(Stop::Size);
        }
        items.push(value);
        heap().set_items(self.0, items)
    }
    pub fn pop(&self) -> Option<Value> {
        let mut items = heap().items(self.0);
        let item = items.pop();
        heap().set_items(self.0, items);
        item
    }
    pub fn elements_mut(&self) -> Elements {
        Elements { array: self.0, items: heap().items(self.0) }
    }
}

/// The items of an array that are being changed.
pub struct Elements {
    array: u32,
    items: Vec<Value>,
}

impl Drop for Elements {
    fn drop(&mut self) {
        heap().set_items(self.array, std::mem::take(&mut self.items))
    }
}

impl Deref for Elements {
    type Target = Vec<Value>;
    fn deref(&self) -> &Vec<Value> {
        &self.items
    }
}

impl DerefMut for Elements {
    fn deref_mut(&mut self) -> &mut Vec<Value> {
        &mut self.items
    }
}

impl Index<usize> for Elements {
    type Output = Value;
    fn index(&self, i: usize) -> &Value {
        self.items.get(i).unwrap_or_else(|| stop(Stop::Index))
    }
}

impl IndexMut<usize> for Elements {
    fn index_mut(&mut self, i: usize) -> &mut Value {
        self.items.get_mut(i).unwrap_or_else(|| stop(Stop::Index))
    }
}

/// The number by which the heap of the simulation knows a function, once it does.
pub type Known = Cell<Option<u32>>;

#[derive(Clone)]
pub struct FnScript(Rc<(String, Bytecode, Known)>);

impl FnScript {
    pub fn new(name: &str, bytecode: Bytecode) -> Self {
        FnScript(Rc::new((name.to_string(), bytecode, Cell::new(None))))
    }
    pub fn name(&self) -> &str {
        &(self.0).0
    }
    pub fn bytecode(&self) -> &Bytecode {
        &(self.0).1
    }
    pub fn known(&self) -> &Known {
        &(self.0).2
    }
}

#[derive(Clone)]
pub struct FnClosure(Rc<(FnScript, Box<[Upvalue]>, Known)>);

impl FnClosure {
    pub fn new(fn_script: FnScript, upvalues: Box<[Upvalue]>) -> Self {
        FnClosure(Rc::new((fn_script, upvalues, Cell::new(None))))
    }
    pub fn fn_script(&self) -> &FnScript {
        &(self.0).0
    }
    pub fn upvalues(&self) -> &[Upvalue] {
        &(self.0).1
    }
    pub fn known(&self) -> &Known {
        &(self.0).2
    }
}

#[derive(Clone)]
pub struct FnBound(Rc<(Value, Value, Known)>);

impl FnBound {
    pub fn new(receiver: Value, function: Value) -> Self {
        FnBound(Rc::new((receiver, function, Cell::new(None))))
    }
    pub fn receiver(&self) -> Value {
        (self.0).0.clone()
    }
    pub fn function(&self) -> Value {
        (self.0).1.clone()
    }
    pub fn known(&self) -> &Known {
        &(self.0).2
    }
}

#[derive(Clone, Copy, Debug)]
pub struct FnNative(pub u32);

impl FnNative {
    pub fn call(&self, runtime: &mut dyn Runtime, args: &[Value]) -> Result<Value, Error> {
        match NATIVE.with(|n| n.borrow().get(&self.0).cloned()) {
            Some(f) => (*f)(runtime, args),
            None => runtime.call_host(self.0, args),
        }
    }
}

impl From<NativeFn> for Value {
    fn from(f: NativeFn) -> Value {
        let id = heap().new_native();
        NATIVE.with(|n| n.borrow_mut().insert(id, Rc::new(f)));
        Value::FnNative(FnNative(id))
    }
}

impl Value {
    pub fn with_string<T: ToString>(text: T) -> Value {
        let text = text.to_string();
        if text.len() >= SIZE_LIMIT {
            stop(Stop::Size);
        }
        Value::String(Rc::from(text))
    }
    pub fn with_vec(items: Vec<Value>) -> Value {
        Value::Array(items.into())
    }
    pub fn with_native_fn(f: NativeFn) -> Value {
        f.into()
    }
}

impl std::fmt::Display for Value {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        match self {
            Value::Null => f.write_str("null"),
            Value::Unit => f.write_str("Unit"),
            Value::Bool(b) => b.fmt(f),
            Value::Int(i) => i.fmt(f),
            Value::Float(x) => x.fmt(f),
            Value::String(s) => s.fmt(f),
            v => f.write_str(&heap().show(v)),
        }
    }
}

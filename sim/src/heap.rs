//! C20, C23: the real values, stack, captured variables and collector of the runtime, driven by a generated sequence of the
//! operations that instructions consist of, with the collector's work placed between them by the simulator. A model of the heap
//! says what each place holds and what can be reached.
use crate::driver::{hash_text, panic_text, Case, Outcome};
use crate::rng::Stream;
use dice_bytecode::Bytecode;
use dice_compiler::compiler::Compiler;
use dice_core::error::codes::{
    INVALID_ARRAY_CONVERSION, INVALID_BOOL_CONVERSION, INVALID_CLASS_CONVERSION, INVALID_FLOAT_CONVERSION, INVALID_INT_CONVERSION,
    INVALID_OBJECT_CONVERSION, INVALID_STRING_CONVERSION, INVALID_SYMBOL_CONVERSION, PANIC,
};
use dice_core::error::Error;
use dice_core::source::{Source, SourceKind};
use dice_runtime::sim::{
    again, Access, Array, Class, FnBound, FnClosure, FnNative, FnScript, Heap, NativeFn, Object, RuntimeContext, StackFrame, Symbol, Upvalue,
    UpvalueState, Uuid, Value, ValueKind, ValueMap,
};
use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::rc::Rc;

type Id = usize;
type Fields = BTreeMap<usize, M>;

/// A value of the model.
#[derive(Clone, Debug, PartialEq)]
enum M {
    Null,
    Unit,
    Bool(bool),
    Int(i64),
    Float(f64),
    Str(&'static str),
    Sym(usize),
    N(Id),
}

#[derive(Debug)]
enum Node {
    Obj { class: Option<Id>, fields: Fields },
    Arr { items: Vec<M>, fields: Fields },
    Class { name: usize, base: Option<Id>, methods: Fields, fields: Fields },
    Script { name: usize },
    Closure { script: Id, ups: Vec<Id> },
    /// A host function, whose end is observed.
    Native { token: usize, k: i64 },
    Bound { receiver: M, function: M },
    Up(Up),
}

#[derive(Debug, Clone)]
enum Up {
    Open(usize),
    Closed(M),
}

#[derive(Clone, Debug)]
struct Frame {
    start: usize,
    len: usize,
}

const NAMES: [&str; 10] = ["#token", "#id", "new", "a", "b", "call", "é☃", "a b", "Any", "next"];
const TOKEN: usize = 0;
const ID: usize = 1;
const NEW: usize = 2;
const TEXTS: [&str; 4] = ["", "a", "é☃😀", "the same text as a name: call"];

#[derive(Default)]
struct Model {
    nodes: Vec<Node>,
    stack: Vec<M>,
    frames: Vec<Frame>,
    open: Vec<Id>,
    globals: Fields,
    modules: Fields,
    kinds: BTreeMap<u8, Id>,
    tokens: usize,
}

impl Model {
    fn add(&mut self, n: Node) -> Id {
        self.nodes.push(n);
        self.nodes.len() - 1
    }

    fn fields(&mut self, m: &M) -> Option<&mut Fields> {
        match m {
            M::N(i) => match &mut self.nodes[*i] {
                Node::Obj { fields, .. } | Node::Arr { fields, .. } | Node::Class { fields, .. } => Some(fields),
                _ => None,
            },
            _ => None,
        }
    }

    fn reachable(&self) -> BTreeSet<Id> {
        let mut todo: Vec<Id> = Vec::new();
        let mut seen = BTreeSet::new();
        let at = |m: &M, todo: &mut Vec<Id>| {
            if let M::N(i) = m {
                todo.push(*i);
            }
        };
        self.stack.iter().chain(self.globals.values()).chain(self.modules.values()).for_each(|m| at(m, &mut todo));
        todo.extend(self.open.iter().copied());
        todo.extend(self.kinds.values().copied());
        while let Some(i) = todo.pop() {
            if !seen.insert(i) {
                continue;
            }
            match &self.nodes[i] {
                Node::Obj { class, fields } => {
                    todo.extend(class);
                    fields.values().for_each(|m| at(m, &mut todo));
                }
                Node::Arr { items, fields } => items.iter().chain(fields.values()).for_each(|m| at(m, &mut todo)),
                Node::Class { base, methods, fields, .. } => {
                    todo.extend(base);
                    methods.values().chain(fields.values()).for_each(|m| at(m, &mut todo));
                }
                Node::Closure { script, ups } => {
                    todo.push(*script);
                    todo.extend(ups);
                }
                Node::Bound { receiver, function } => {
                    at(receiver, &mut todo);
                    at(function, &mut todo);
                }
                Node::Up(Up::Closed(m)) => at(m, &mut todo),
                Node::Up(Up::Open(_)) | Node::Script { .. } | Node::Native { .. } => {}
            }
        }
        seen
    }
}

struct Token {
    n: usize,
    ended: Rc<RefCell<Vec<bool>>>,
}

impl Drop for Token {
    fn drop(&mut self) {
        self.ended.borrow_mut()[self.n] = true;
    }
}

fn native(token: Token, k: i64) -> NativeFn<'static> {
    Box::new(move |args: &[Value]| {
        let _alive = &token;
        let mut sum = k;
        for a in args {
            match a {
                Value::Int(i) => sum = sum.wrapping_mul(31).wrapping_add(*i),
                _ => return Err(Error::new(PANIC)),
            }
        }
        Ok(Value::Int(sum))
    })
}

struct Real {
    names: Vec<Symbol>,
    ended: Rc<RefCell<Vec<bool>>>,
    code: Bytecode,
}

/// The difference between a value and its model.
type Diff = Result<(), String>;

struct Look<'a> {
    m: &'a Model,
    real: &'a Real,
    seen: BTreeSet<Id>,
}

/// # Safety
/// Some accessors want a reference that lives as long as the arena; it is dropped before the step ends.
unsafe fn long<'gc, T>(x: &T) -> &'gc T {
    &*(x as *const T)
}

fn items<'gc>(a: &Array<'gc>) -> Vec<Value<'gc>> {
    unsafe { long::<Array<'gc>>(a) }.elements().iter().cloned().collect()
}

fn up_state<'gc>(u: &Upvalue<'gc>) -> Result<Value<'gc>, usize> {
    match &*unsafe { long::<Upvalue<'gc>>(u) }.state() {
        UpvalueState::Open(s) => Err(*s),
        UpvalueState::Closed(v) => Ok(v.clone()),
    }
}

/// A value can be used as what it is, and as nothing else.
fn conversions(v: &Value) -> Diff {
    let code = |e: Error| Some(e.error_code().to_string());
    let got = [
        v.as_bool().err().and_then(code),
        v.as_int().err().and_then(code),
        v.as_float().err().and_then(code),
        v.as_array().err().and_then(code),
        v.as_string().err().and_then(code),
        v.as_symbol().err().and_then(code),
        v.as_object().err().and_then(code),
        v.as_class().err().and_then(code),
    ];
    let want = [
        (matches!(v, Value::Bool(_)), INVALID_BOOL_CONVERSION),
        (matches!(v, Value::Int(_)), INVALID_INT_CONVERSION),
        (matches!(v, Value::Float(_)), INVALID_FLOAT_CONVERSION),
        (matches!(v, Value::Array(_)), INVALID_ARRAY_CONVERSION),
        (matches!(v, Value::String(_)), INVALID_STRING_CONVERSION),
        (matches!(v, Value::Symbol(_)), INVALID_SYMBOL_CONVERSION),
        (matches!(v, Value::Object(_) | Value::Class(_) | Value::Array(_)), INVALID_OBJECT_CONVERSION),
        (matches!(v, Value::Class(_)), INVALID_CLASS_CONVERSION),
    ];
    for (got, (fits, code)) in got.into_iter().zip(want) {
        let expected = (!fits).then(|| code.to_string());
        if got != expected {
            return Err(format!("{} used as something: {:?}, expected {:?}", Look::kind(v), got, expected));
        }
    }
    let same = match v {
        Value::Bool(b) => v.as_bool().ok() == Some(*b),
        Value::Int(i) => v.as_int().ok() == Some(*i),
        Value::Float(x) => v.as_float().ok().map(f64::to_bits) == Some(x.to_bits()),
        Value::Array(a) => v.as_array().ok().is_some_and(|b| a == b),
        Value::String(a) => v.as_string().ok().is_some_and(|b| a == b),
        Value::Symbol(a) => v.as_symbol().ok() == Some(*a),
        Value::Class(c) => v.as_class().ok().is_some_and(|b| b == *c),
        Value::Object(a) => v.as_object().ok().is_some_and(|b| a == b),
        _ => true,
    };
    match same {
        true => Ok(()),
        false => Err(format!("{} used as what it is is something else", Look::kind(v))),
    }
}

impl Look<'_> {
    fn kind(v: &Value) -> &'static str {
        match v {
            Value::Null => "null",
            Value::Unit => "()",
            Value::Bool(_) => "a boolean",
            Value::Int(_) => "an integer",
            Value::Float(_) => "a float",
            Value::FnScript(_) => "a function",
            Value::FnClosure(_) => "a closure",
            Value::FnNative(_) => "a host function",
            Value::FnBound(_) => "a bound method",
            Value::Array(_) => "an array",
            Value::String(_) => "a text",
            Value::Symbol(_) => "a symbol",
            Value::Object(_) => "an object",
            Value::Class(_) => "a class",
        }
    }

    fn map(&mut self, real: &ValueMap, model: &Fields, what: &str) -> Diff {
        if real.len() != model.len() {
            return Err(format!("{} has {} entries, expected {}", what, real.len(), model.len()));
        }
        for (k, m) in model {
            match real.get(&self.real.names[*k]) {
                Some(v) => self.value(v, m).map_err(|e| format!("`{}` of {}: {}", NAMES[*k], what, e))?,
                None => return Err(format!("{} has no `{}`", what, NAMES[*k])),
            }
        }
        Ok(())
    }

    fn object(&mut self, o: &Object, fields: &Fields, what: &str) -> Diff {
        self.map(&o.fields(), fields, what)
    }

    fn class(&mut self, c: &Class, i: Id) -> Diff {
        let m = self.m;
        let Node::Class { name, base, methods, fields } = &m.nodes[i] else { return Err("a class, expected something else".into()) };
        let what = format!("class {}", i);
        if c.name() != self.real.names[*name] {
            return Err(format!("{} has another name", what));
        }
        if !self.seen.insert(i) {
            return self.same(c.field(self.real.names[ID]), i);
        }
        self.object(c, fields, &what)?;
        let own: ValueMap = c.methods().into_iter().collect();
        self.map(&own, methods, &format!("the methods of {}", what))?;
        match (c.base(), base) {
            (None, None) => {}
            (Some(b), Some(j)) => {
                if !c.is_class(&b) || b.is_class(c) {
                    return Err(format!("{} is not a class derived from {}", what, j));
                }
                self.class(&b, *j).map_err(|e| format!("base of {}: {}", what, e))?;
            }
            _ => return Err(format!("{} has another base", what)),
        }
        if !c.is_class(c) {
            return Err(format!("{} is not of its own class", what));
        }
        Ok(())
    }

    /// A node that was compared already is told by the number among its fields.
    fn same(&self, id: Option<Value>, i: Id) -> Diff {
        match id {
            Some(Value::Int(k)) if k == i as i64 => Ok(()),
            Some(Value::Int(k)) => Err(format!("value {}, expected value {}", k, i)),
            _ => Err(format!("a value without its number, expected value {}", i)),
        }
    }

    fn upvalue(&mut self, u: &Upvalue, i: Id) -> Diff {
        let m = self.m;
        let Node::Up(state) = &m.nodes[i] else { return Err("a variable, expected something else".into()) };
        match (up_state(u), state) {
            (Err(a), Up::Open(b)) if a == *b => Ok(()),
            (Err(a), Up::Open(b)) => Err(format!("captured variable in slot {}, expected in slot {}", a, b)),
            (Ok(v), Up::Closed(m)) => {
                if self.seen.insert(i) {
                    self.value(&v, m).map_err(|e| format!("captured variable: {}", e))
                } else {
                    Ok(())
                }
            }
            (Err(_), _) => Err("a captured variable is still in its frame".into()),
            (Ok(_), _) => Err("a captured variable is no longer in its frame".into()),
        }
    }

    fn value(&mut self, v: &Value, m: &M) -> Diff {
        let kind = match (v, m) {
            (Value::Null, M::Null) => ValueKind::Null,
            (Value::Unit, M::Unit) => ValueKind::Unit,
            (Value::Bool(a), M::Bool(b)) if a == b => ValueKind::Bool,
            (Value::Int(a), M::Int(b)) if a == b => ValueKind::Int,
            (Value::Float(a), M::Float(b)) if a.to_bits() == b.to_bits() => ValueKind::Float,
            (Value::String(a), M::Str(b)) if &**a == *b => ValueKind::String,
            (Value::Symbol(a), M::Sym(b)) if *a == self.real.names[*b] => ValueKind::Symbol,
            (_, M::N(i)) => self.node(v, *i)?,
            _ => return Err(format!("{}, expected {:?}", Self::kind(v), m)),
        };
        if v.kind() != kind {
            return Err(format!("{} says it is of another kind", Self::kind(v)));
        }
        Ok(())
    }

    fn node(&mut self, v: &Value, i: Id) -> Result<ValueKind, String> {
        let m = self.m;
        let what = format!("value {}", i);
        match (v, &m.nodes[i]) {
            (Value::Object(o), Node::Obj { class, fields }) => {
                if !self.seen.insert(i) {
                    self.same(o.field(self.real.names[ID]), i)?;
                    return Ok(ValueKind::Object);
                }
                self.object(o, fields, &what)?;
                match (o.class(), class) {
                    (None, None) => {}
                    (Some(c), Some(j)) => {
                        if !o.is_instance_of(&c) || o.type_id() != c.instance_type_id() || o.name() != Some(c.name()) {
                            return Err(format!("{} is not an instance of its class", what));
                        }
                        self.class(&c, *j).map_err(|e| format!("class of {}: {}", what, e))?;
                        let mut base = c.base();
                        while let Some(b) = base {
                            if !o.is_instance_of(&b) {
                                return Err(format!("{} is not an instance of a base class", what));
                            }
                            base = b.base();
                        }
                    }
                    _ => return Err(format!("{} has another class", what)),
                }
                Ok(ValueKind::Object)
            }
            (Value::Array(a), Node::Arr { items: expected, fields }) => {
                if !self.seen.insert(i) {
                    self.same(a.field(self.real.names[ID]), i)?;
                    return Ok(ValueKind::Array);
                }
                self.object(a, fields, &what)?;
                let found = items(a);
                if found.len() != expected.len() {
                    return Err(format!("array {} has {} elements, expected {}", i, found.len(), expected.len()));
                }
                for (k, (v, m)) in found.iter().zip(expected).enumerate() {
                    self.value(v, m).map_err(|e| format!("element {} of array {}: {}", k, i, e))?;
                }
                Ok(ValueKind::Array)
            }
            (Value::Class(c), Node::Class { .. }) => {
                self.class(c, i)?;
                Ok(ValueKind::Class)
            }
            (Value::FnScript(f), Node::Script { name }) => {
                if f.name() != self.real.names[*name] || f.bytecode().slot_count() != self.real.code.slot_count() {
                    return Err("another function".into());
                }
                Ok(ValueKind::Function)
            }
            (Value::FnNative(f), Node::Native { k, .. }) => {
                match f.call(&[]) {
                    Ok(Value::Int(x)) if x == *k => {}
                    _ => return Err("another host function".into()),
                }
                Ok(ValueKind::Function)
            }
            (Value::FnClosure(f), Node::Closure { script, ups }) => {
                if !self.seen.insert(i) {
                    return Ok(ValueKind::Function);
                }
                let Node::Script { name } = &m.nodes[*script] else { return Err("closure of something else".into()) };
                if f.fn_script().name() != self.real.names[*name] {
                    return Err("closure of another function".into());
                }
                if f.upvalues().len() != ups.len() {
                    return Err(format!("closure {} has {} captured variables, expected {}", i, f.upvalues().len(), ups.len()));
                }
                for (u, j) in f.upvalues().iter().zip(ups) {
                    self.upvalue(u, *j).map_err(|e| format!("closure {}: {}", i, e))?;
                }
                Ok(ValueKind::Function)
            }
            (Value::FnBound(b), Node::Bound { receiver, function }) => {
                if self.seen.insert(i) {
                    self.value(&b.receiver(), receiver).map_err(|e| format!("receiver of a bound method: {}", e))?;
                    self.value(&b.function(), function).map_err(|e| format!("function of a bound method: {}", e))?;
                }
                Ok(ValueKind::Function)
            }
            _ => Err(format!("{}, expected {:?}", Self::kind(v), m.nodes[i])),
        }
    }
}

/// Compares everything that can be reached.
fn look<'gc>(acc: &mut Access<'gc>, m: &Model, real: &Real) -> Diff {
    let mut l = Look { m, real, seen: BTreeSet::new() };
    for (k, x) in m.stack.iter().enumerate() {
        let v = acc.stack()[k].clone();
        l.value(&v, x).map_err(|e| format!("stack slot {}: {}", k, e))?;
    }
    l.map(&acc.globals().clone(), &m.globals, "the table of globals")?;
    l.map(&acc.loaded_modules().clone(), &m.modules, "the table of modules")?;
    let open: Vec<Upvalue> = acc.open_upvalues().iter().cloned().collect();
    if open.len() != m.open.len() {
        return Err(format!("{} captured variables are in their frames, expected {}", open.len(), m.open.len()));
    }
    for (u, i) in open.iter().zip(&m.open) {
        l.upvalue(u, *i)?;
    }
    for (n, kind) in KINDS.iter().enumerate() {
        match (acc.class_of_kind(*kind), m.kinds.get(&(n as u8))) {
            (None, None) => {}
            (Some(c), Some(i)) => l.class(&c, *i).map_err(|e| format!("class of a kind: {}", e))?,
            _ => return Err("a kind has another class".into()),
        }
    }
    Ok(())
}

const KINDS: [ValueKind; 4] = [ValueKind::Int, ValueKind::Array, ValueKind::String, ValueKind::Function];

struct Run<'a> {
    m: Model,
    real: &'a Real,
    p: &'a mut Stream,
    show: Vec<String>,
    done: &'a mut BTreeMap<&'static str, u64>,
    ids: u128,
}

type Op = Result<(), String>;

impl Run<'_> {
    fn note(&mut self, what: &'static str, s: impl FnOnce() -> String) {
        *self.done.entry(what).or_default() += 1;
        let t = s();
        self.show.push(if t.is_empty() { what.to_string() } else { format!("{} {}", what, t) });
    }

    fn uuid(&mut self) -> Uuid {
        self.ids += 1;
        Uuid::from_u128(self.ids)
    }

    fn name(&mut self) -> usize {
        2 + self.p.below(NAMES.len() as u32 - 2) as usize
    }

    /// The number of operands on the stack above the slots of the frame.
    fn operands(&self) -> usize {
        let f = self.m.frames.last().expect("frame");
        self.m.stack.len() - (f.start + f.len)
    }

    fn top(&self, k: usize) -> Option<&M> {
        (k < self.operands()).then(|| &self.m.stack[self.m.stack.len() - 1 - k])
    }

    fn top_node(&self, k: usize) -> Option<(Id, &Node)> {
        match self.top(k) {
            Some(M::N(i)) => Some((*i, &self.m.nodes[*i])),
            _ => None,
        }
    }

    fn push<'gc>(&mut self, acc: &mut Access<'gc>, v: Value<'gc>, m: M) {
        acc.stack().push(v);
        self.m.stack.push(m);
    }

    fn pop<'gc>(&mut self, acc: &mut Access<'gc>) -> (Value<'gc>, M) {
        (acc.stack().pop(), self.m.stack.pop().expect("operand"))
    }

    fn peek<'gc>(&self, acc: &mut Access<'gc>, k: usize) -> Value<'gc> {
        let at = self.m.stack.len() - 1 - k;
        acc.stack()[at].clone()
    }

    fn expect(&self, v: &Value, m: &M, what: &str) -> Op {
        let mut look = Look { m: &self.m, real: self.real, seen: BTreeSet::new() };
        look.value(v, m).and_then(|()| conversions(v)).map_err(|e| format!("{}: {}", what, e))
    }

    /// A host function, whose end is observed.
    fn native(&mut self) -> (FnNative<'static>, Id) {
        let n = self.m.tokens;
        self.m.tokens += 1;
        self.real.ended.borrow_mut().push(false);
        let k = 1000 + n as i64;
        let f = FnNative::new(native(Token { n, ended: self.real.ended.clone() }, k));
        (f, self.m.add(Node::Native { token: n, k }))
    }

    /// Marks a new value by a host function of its own, whose end tells that of the value, and by a number.
    fn brand<'gc>(&mut self, ctx: &RuntimeContext<'gc>, o: &Object<'gc>, i: Id) {
        let (f, t) = self.native();
        o.set_field(ctx.mutation, self.real.names[TOKEN], Value::FnNative(f));
        o.set_field(ctx.mutation, self.real.names[ID], Value::Int(i as i64));
        let f = self.m.fields(&M::N(i)).expect("fields");
        f.insert(TOKEN, M::N(t));
        f.insert(ID, M::Int(i as i64));
    }

    fn immediate<'gc>(&mut self, acc: &mut Access<'gc>) {
        let (v, m) = match self.p.below(9) {
            0 => {
                let i = self.p.below(5) as i64;
                (Value::Int(i), M::Int(i))
            }
            1 => (Value::Null, M::Null),
            2 => (Value::Unit, M::Unit),
            3 => (Value::Bool(true), M::Bool(true)),
            4 => {
                let x = [0.0, -0.0, 1.5, f64::NAN][self.p.below(4) as usize];
                (Value::Float(x), M::Float(x))
            }
            5 => {
                let t = TEXTS[self.p.below(4) as usize];
                (Value::with_string(t), M::Str(t))
            }
            6 => {
                let n = self.name();
                (Value::Symbol(self.real.names[n]), M::Sym(n))
            }
            7 => {
                let n = self.name();
                let v = Value::FnScript(FnScript::new(self.real.names[n], self.real.code.clone(), self.uuid()));
                let i = self.m.add(Node::Script { name: n });
                (v, M::N(i))
            }
            _ => {
                let (f, i) = self.native();
                let v = Value::FnNative(f);
                (v, M::N(i))
            }
        };
        self.note("push", || format!("{:?}", m));
        self.push(acc, v, m);
    }

    fn find_open<'gc>(acc: &mut Access<'gc>, slot: usize) -> Option<(usize, Upvalue<'gc>)> {
        let open = acc.open_upvalues();
        for k in 0..open.len() {
            if up_state(&open[k]).err() == Some(slot) {
                return Some((k, open[k].clone()));
            }
        }
        None
    }

    fn close<'gc>(&mut self, ctx: &RuntimeContext<'gc>, acc: &mut Access<'gc>, slot: usize) {
        if let Some((k, u)) = Self::find_open(acc, slot) {
            let v = acc.stack()[slot].clone();
            acc.open_upvalues().remove(k);
            u.close(ctx, v);
        }
        let at = self.m.open.iter().position(|i| matches!(&self.m.nodes[*i], Node::Up(Up::Open(s)) if *s == slot));
        if let Some(k) = at {
            let i = self.m.open.remove(k);
            self.m.nodes[i] = Node::Up(Up::Closed(self.m.stack[slot].clone()));
        }
    }

    fn pop_all<'gc>(&mut self, acc: &mut Access<'gc>) -> Op {
        let n = self.operands();
        let got = acc.stack().pop_count(n);
        let want = self.m.stack.split_off(self.m.stack.len() - n);
        if got.len() != n {
            return Err(format!("{} values popped at once, expected {}", got.len(), n));
        }
        for (v, m) in got.iter().zip(&want) {
            self.expect(v, m, "values popped at once")?;
        }
        Ok(())
    }

    fn leave<'gc>(&mut self, ctx: &RuntimeContext<'gc>, acc: &mut Access<'gc>) -> Op {
        self.pop_all(acc)?;
        let f = self.m.frames.pop().expect("frame");
        for slot in f.start..f.start + f.len {
            self.close(ctx, acc, slot);
        }
        acc.stack().release_stack_frame(StackFrame::new(f.start, f.start + f.len));
        self.m.stack.truncate(f.start);
        Ok(())
    }

    fn enter<'gc>(&mut self, acc: &mut Access<'gc>, args: usize, slots: usize) -> Op {
        let frame = acc.stack().reserve_slots(slots).prepend(args);
        let start = self.m.stack.len() - args;
        self.m.stack.resize(self.m.stack.len() + slots, M::Null);
        self.m.frames.push(Frame { start, len: args + slots });
        if (frame.start(), frame.length(), frame.range()) != (start, args + slots, start..start + args + slots) {
            return Err(format!("a frame for {} slots and {} arguments at {} is at {:?}", slots, args, start, frame.range()));
        }
        let seen: Vec<Value> = acc.stack()[frame].to_vec();
        for (k, v) in seen.iter().enumerate() {
            let m = self.m.stack[start + k].clone();
            self.expect(v, &m, &format!("slot {} of a new frame", k))?;
        }
        Ok(())
    }

    /// Loads a value like this from the frame or the globals, if there is one.
    fn bring<'gc>(&mut self, acc: &mut Access<'gc>, wanted: fn(&Node) -> bool) {
        let m = &self.m;
        let is = |v: &M| matches!(v, M::N(i) if wanted(&m.nodes[*i]));
        let start = m.frames.last().expect("frame").start;
        let slots: Vec<usize> = (start..m.stack.len()).filter(|k| is(&m.stack[*k])).collect();
        let globals: Vec<usize> = m.globals.iter().filter(|(_, v)| is(v)).map(|(n, _)| *n).collect();
        let count = slots.len() + globals.len();
        if count == 0 || m.stack.len() > 2000 {
            return;
        }
        let k = self.p.below(count as u32) as usize;
        if k < slots.len() {
            self.note("load local", || format!("slot {}", slots[k]));
            let (v, m) = (acc.stack()[slots[k]].clone(), self.m.stack[slots[k]].clone());
            self.push(acc, v, m);
        } else {
            let n = globals[k - slots.len()];
            self.note("load global", || NAMES[n].into());
            let v = acc.globals().get(&self.real.names[n]).cloned().unwrap_or(Value::Unit);
            let m = self.m.globals[&n].clone();
            self.push(acc, v, m);
        }
    }

    /// Loads some value.
    fn any<'gc>(&mut self, acc: &mut Access<'gc>) {
        match self.p.below(2) {
            0 => self.immediate(acc),
            _ => self.bring(acc, |_| true),
        }
    }

    fn instruction<'gc>(&mut self, ctx: &RuntimeContext<'gc>, acc: &mut Access<'gc>) -> Op {
        let op = self.p.below(32);
        let (mutation, names) = (ctx.mutation, &self.real.names);
        // What the operation needs is often loaded first.
        if self.p.below(3) > 0 {
            match op {
                1 | 4 | 5 => self.bring(acc, |n| matches!(n, Node::Class { .. })),
                6..=8 => {
                    self.bring(acc, |n| matches!(n, Node::Obj { .. } | Node::Class { .. } | Node::Arr { .. }));
                    self.any(acc);
                }
                9 | 10 => self.bring(acc, |n| matches!(n, Node::Obj { .. } | Node::Class { .. } | Node::Arr { .. })),
                11 | 12 => {
                    self.bring(acc, |n| matches!(n, Node::Class { .. }));
                    self.bring(acc, |n| matches!(n, Node::Script { .. } | Node::Closure { .. } | Node::Native { .. } | Node::Bound { .. }));
                }
                13 => self.bring(acc, |n| matches!(n, Node::Obj { class: Some(_), .. } | Node::Class { .. })),
                14 => self.bring(acc, |n| matches!(n, Node::Bound { .. })),
                15 | 17 => {
                    self.bring(acc, |n| matches!(n, Node::Arr { .. }));
                    self.any(acc);
                }
                16 | 18 => self.bring(acc, |n| matches!(n, Node::Arr { .. })),
                19 => self.bring(acc, |n| matches!(n, Node::Closure { .. })),
                21 => {
                    self.bring(acc, |n| matches!(n, Node::Closure { .. }));
                    if self.p.below(2) == 1 {
                        self.any(acc);
                    }
                }
                30 => self.bring(acc, |n| matches!(n, Node::Native { .. })),
                _ => {}
            }
        }
        match op {
            1 => {
                // An object, of a class if there is one at hand.
                match (self.top_node(0).map(|(i, n)| (i, matches!(n, Node::Class { .. }))), self.peek_class(acc)) {
                    (Some((i, true)), Some(c)) => {
                        self.note("new object", || format!("of class {}", i));
                        let o = Object::new(ctx, c);
                        let id = self.m.add(Node::Obj { class: Some(i), fields: Fields::new() });
                        self.brand(ctx, &o, id);
                        self.push(acc, Value::Object(o), M::N(id));
                    }
                    _ => {
                        self.note("new object", String::new);
                        let o = Object::new(ctx, None);
                        let id = self.m.add(Node::Obj { class: None, fields: Fields::new() });
                        self.brand(ctx, &o, id);
                        self.push(acc, Value::Object(o), M::N(id));
                    }
                }
            }
            2 => {
                let n = self.operands().min(self.p.below(4) as usize);
                self.note("new array", || format!("of {}", n));
                let got = acc.stack().pop_count(n);
                let at = self.m.stack.len() - n;
                let want = self.m.stack.split_off(at);
                let a = Array::from_vec(ctx, got);
                let id = self.m.add(Node::Arr { items: want, fields: Fields::new() });
                self.brand(ctx, &a, id);
                self.push(acc, Value::Array(a), M::N(id));
            }
            3 => {
                let n = self.name();
                self.note("new class", || NAMES[n].into());
                let c = Class::new(ctx, names[n]);
                let id = self.m.add(Node::Class { name: n, base: None, methods: Fields::new(), fields: Fields::new() });
                self.brand(ctx, &c, id);
                self.push(acc, Value::Class(c), M::N(id));
            }
            4 | 5 => match (self.top_node(0), self.peek_class(acc)) {
                (Some((i, Node::Class { methods, fields, .. })), Some(c)) => {
                    let mut methods = methods.clone();
                    methods.remove(&NEW);
                    let fields = fields.clone();
                    let n = self.name();
                    self.note("derive", || format!("from {}", i));
                    let c = c.derive(ctx, names[n]);
                    let id = self.m.add(Node::Class { name: n, base: Some(i), methods, fields });
                    self.brand(ctx, &c, id);
                    self.push(acc, Value::Class(c), M::N(id));
                }
                _ => self.immediate(acc),
            },
            6..=8 => {
                // A field is written; the value stays.
                let target = self.top(1).cloned();
                match target {
                    Some(t) if self.m.fields(&t).is_some() => {
                        let f = self.name();
                        let (v, m) = self.pop(acc);
                        let (o, _) = self.pop(acc);
                        self.note("set field", || format!("{} of {:?} to {:?}", NAMES[f], t, m));
                        o.as_object().map_err(|e| format!("no object: {:?}", e))?.set_field(mutation, names[f], v.clone());
                        self.m.fields(&t).expect("fields").insert(f, m.clone());
                        if self.p.below(2) == 0 {
                            self.push(acc, o, t);
                        } else {
                            self.push(acc, v, m);
                        }
                    }
                    _ => self.immediate(acc),
                }
            }
            9 | 10 => {
                let target = self.top(0).cloned();
                match target {
                    Some(t) if self.m.fields(&t).is_some() => {
                        let f = self.name();
                        self.note("get field", || format!("{} of {:?}", NAMES[f], t));
                        let (o, _) = self.pop(acc);
                        let v = o.as_object().map_err(|e| format!("no object: {:?}", e))?.field(names[f]);
                        let m = self.m.fields(&t).expect("fields").get(&f).cloned();
                        match (v, m) {
                            (None, None) => self.push(acc, Value::Null, M::Null),
                            (Some(v), Some(m)) => {
                                self.expect(&v, &m, "field")?;
                                self.push(acc, v, m);
                            }
                            _ => return Err(format!("field `{}` of {:?} is there in one only", NAMES[f], t)),
                        }
                    }
                    _ => self.immediate(acc),
                }
            }
            11 | 12 => {
                let method = self.top_node(0).is_some_and(|(_, n)| {
                    matches!(n, Node::Script { .. } | Node::Closure { .. } | Node::Native { .. } | Node::Bound { .. })
                });
                match self.top_node(1).map(|(i, n)| (i, matches!(n, Node::Class { .. }))) {
                    Some((i, true)) if method => {
                        let f = self.name();
                        let (v, m) = self.pop(acc);
                        let (c, _) = self.pop(acc);
                        self.note("set method", || format!("{} of class {} to {:?}", NAMES[f], i, m));
                        let ctx2 = again(ctx);
                        c.as_class().map_err(|e| format!("no class: {:?}", e))?.set_method(ctx2, names[f], v);
                        if let Node::Class { methods, .. } = &mut self.m.nodes[i] {
                            methods.insert(f, m);
                        }
                        self.push(acc, c, M::N(i));
                    }
                    _ => self.immediate(acc),
                }
            }
            13 => {
                // A method of an object or class, bound to it.
                let class = match self.top_node(0) {
                    Some((_, Node::Obj { class: Some(c), .. })) => Some(*c),
                    Some((i, Node::Class { .. })) => Some(i),
                    _ => None,
                };
                match class {
                    Some(c) => {
                        let f = self.name();
                        let (o, t) = self.pop(acc);
                        let real = match &o {
                            Value::Object(o) => o.class(),
                            Value::Class(c) => Some(c.clone()),
                            _ => None,
                        };
                        let found = real.and_then(|c| c.method(names[f]));
                        let Node::Class { methods, .. } = &self.m.nodes[c] else { return Err("no class".into()) };
                        let want = methods.get(&f).cloned();
                        self.note("get method", || format!("{} of {:?}", NAMES[f], t));
                        match (found, want) {
                            (None, None) => self.push(acc, o, t),
                            (Some(v), Some(m)) => {
                                self.expect(&v, &m, "method")?;
                                let b = FnBound::new(mutation, o, v);
                                let id = self.m.add(Node::Bound { receiver: t, function: m });
                                self.push(acc, Value::FnBound(b), M::N(id));
                            }
                            _ => return Err(format!("method `{}` of {:?} is there in one only", NAMES[f], t)),
                        }
                    }
                    _ => self.immediate(acc),
                }
            }
            14 => match self.top_node(0) {
                Some((_, Node::Bound { receiver, function })) => {
                    let (r, f) = (receiver.clone(), function.clone());
                    self.note("unbind", String::new);
                    let (b, _) = self.pop(acc);
                    let Value::FnBound(b) = b else { return Err("no bound method".into()) };
                    self.push(acc, b.function(), f);
                    self.push(acc, b.receiver(), r);
                }
                _ => self.immediate(acc),
            },
            15 => match self.top_node(1).map(|(i, n)| (i, matches!(n, Node::Arr { .. }))) {
                Some((i, true)) => {
                    let (v, m) = self.pop(acc);
                    let (a, t) = self.pop(acc);
                    self.note("array push", || format!("{:?} to {}", m, i));
                    a.as_array().map_err(|e| format!("no array: {:?}", e))?.push(ctx, v);
                    if let Node::Arr { items, .. } = &mut self.m.nodes[i] {
                        items.push(m);
                    }
                    self.push(acc, a, t);
                }
                _ => self.immediate(acc),
            },
            16 => match self.top_node(0).map(|(i, n)| (i, matches!(n, Node::Arr { .. }))) {
                Some((i, true)) => {
                    let (a, t) = self.pop(acc);
                    self.note("array pop", || format!("from {}", i));
                    let v = a.as_array().map_err(|e| format!("no array: {:?}", e))?.pop(ctx);
                    let Node::Arr { items, .. } = &mut self.m.nodes[i] else { return Err("no array".into()) };
                    match (v, items.pop()) {
                        (None, None) => {}
                        (Some(v), Some(m)) => {
                            self.expect(&v, &m, "last element")?;
                            if self.p.below(2) == 0 {
                                self.push(acc, v, m);
                            }
                        }
                        _ => return Err("an array is empty in one only".into()),
                    }
                    self.push(acc, a, t);
                }
                _ => self.immediate(acc),
            },
            17 => match self.top_node(1).map(|(i, n)| (i, if let Node::Arr { items, .. } = n { items.len() } else { 0 })) {
                Some((i, n)) if n > 0 => {
                    let k = self.p.below(n as u32) as usize;
                    let (v, m) = self.pop(acc);
                    let (a, t) = self.pop(acc);
                    self.note("set element", || format!("{} of {} to {:?}", k, i, m));
                    let arr = a.as_array().map_err(|e| format!("no array: {:?}", e))?;
                    unsafe { long::<Array<'gc>>(arr) }.elements_mut(ctx)[k] = v;
                    if let Node::Arr { items, .. } = &mut self.m.nodes[i] {
                        items[k] = m;
                    }
                    self.push(acc, a, t);
                }
                _ => self.immediate(acc),
            },
            18 => match self.top_node(0).map(|(i, n)| (i, if let Node::Arr { items, .. } = n { items.len() } else { 0 })) {
                Some((i, n)) if n > 0 => {
                    let k = self.p.below(n as u32) as usize;
                    let (a, _) = self.pop(acc);
                    self.note("get element", || format!("{} of {}", k, i));
                    let arr = a.as_array().map_err(|e| format!("no array: {:?}", e))?;
                    let v = items(arr).get(k).cloned().ok_or("an element is missing")?;
                    let Node::Arr { items, .. } = &self.m.nodes[i] else { return Err("no array".into()) };
                    let m = items[k].clone();
                    self.expect(&v, &m, "element")?;
                    self.push(acc, v, m);
                }
                _ => self.immediate(acc),
            },
            19 | 20 => {
                // A closure over variables of the frame and of another closure.
                let f = self.m.frames.last().cloned().expect("frame");
                if f.len == 0 {
                    self.immediate(acc);
                    return Ok(());
                }
                let name = self.name();
                let script = FnScript::new(names[name], self.real.code.clone(), self.uuid());
                let sid = self.m.add(Node::Script { name });
                let parent = match (self.top_node(0), self.operands()) {
                    (Some((_, Node::Closure { ups, .. })), _) => ups.clone(),
                    _ => Vec::new(),
                };
                let real_parent = match parent.is_empty() {
                    true => Vec::new(),
                    false => match self.peek(acc, 0) {
                        Value::FnClosure(c) => c.upvalues().to_vec(),
                        _ => return Err("no closure".into()),
                    },
                };
                let (mut ups, mut want) = (Vec::new(), Vec::new());
                for _ in 0..1 + self.p.below(3) {
                    if !parent.is_empty() && self.p.below(2) == 1 {
                        let k = self.p.below(parent.len() as u32) as usize;
                        ups.push(real_parent.get(k).cloned().ok_or("a captured variable is missing")?);
                        want.push(parent[k]);
                        continue;
                    }
                    let slot = f.start + self.p.below(f.len as u32) as usize;
                    let known = self.m.open.iter().find(|i| matches!(&self.m.nodes[**i], Node::Up(Up::Open(s)) if *s == slot)).copied();
                    match Self::find_open(acc, slot) {
                        Some((_, u)) => ups.push(u),
                        None => {
                            let u = Upvalue::new_open(ctx, slot);
                            acc.open_upvalues().push_back(u.clone());
                            ups.push(u);
                        }
                    }
                    let id = known.unwrap_or_else(|| {
                        let id = self.m.add(Node::Up(Up::Open(slot)));
                        self.m.open.push(id);
                        id
                    });
                    want.push(id);
                }
                self.note("new closure", || format!("over {:?}", want));
                let c = FnClosure::new(mutation, script, ups.into_boxed_slice());
                let id = self.m.add(Node::Closure { script: sid, ups: want });
                self.push(acc, Value::FnClosure(c), M::N(id));
            }
            21 => {
                // A captured variable is read or written through a closure.
                let store = self.p.below(2) == 1;
                let at = store as usize;
                let ups = match self.top_node(at) {
                    Some((_, Node::Closure { ups, .. })) => ups.clone(),
                    _ => {
                        self.immediate(acc);
                        return Ok(());
                    }
                };
                let k = self.p.below(ups.len() as u32) as usize;
                let Value::FnClosure(c) = self.peek(acc, at) else { return Err("no closure".into()) };
                let u = c.upvalues().get(k).cloned().ok_or("a captured variable is missing")?;
                let Node::Up(state) = &self.m.nodes[ups[k]] else { return Err("no variable".into()) };
                let state = state.clone();
                if store {
                    let (v, m) = self.pop(acc);
                    self.note("store captured", || format!("{:?} in {}", m, ups[k]));
                    match up_state(&u) {
                        Err(s) => acc.stack()[s] = v,
                        Ok(_) => {
                            if let UpvalueState::Closed(x) = &mut *unsafe { long::<Upvalue<'gc>>(&u) }.state_mut(ctx) {
                                *x = v;
                            }
                        }
                    }
                    match state {
                        Up::Open(s) => self.m.stack[s] = m,
                        Up::Closed(_) => self.m.nodes[ups[k]] = Node::Up(Up::Closed(m)),
                    }
                } else {
                    self.note("load captured", || format!("{}", ups[k]));
                    let v = match up_state(&u) {
                        Err(s) => acc.stack()[s].clone(),
                        Ok(v) => v,
                    };
                    let m = match state {
                        Up::Open(s) => self.m.stack[s].clone(),
                        Up::Closed(m) => m,
                    };
                    self.expect(&v, &m, "captured variable")?;
                    self.push(acc, v, m);
                }
            }
            22 => {
                let f = self.m.frames.last().cloned().expect("frame");
                if f.len > 0 {
                    let slot = f.start + self.p.below(f.len as u32) as usize;
                    self.note("close variable", || format!("slot {}", slot));
                    self.close(ctx, acc, slot);
                }
            }
            23 => {
                let f = self.m.frames.last().cloned().expect("frame");
                if f.len > 0 && self.operands() > 0 {
                    let slot = f.start + self.p.below(f.len as u32) as usize;
                    let (v, m) = self.pop(acc);
                    self.note("store local", || format!("{:?} in slot {}", m, slot));
                    acc.stack()[slot] = v;
                    self.m.stack[slot] = m;
                } else {
                    self.immediate(acc);
                }
            }
            24 => {
                let f = self.m.frames.last().cloned().expect("frame");
                if f.len > 0 {
                    let slot = f.start + self.p.below(f.len as u32) as usize;
                    self.note("load local", || format!("slot {}", slot));
                    let v = acc.stack()[slot].clone();
                    let m = self.m.stack[slot].clone();
                    self.push(acc, v, m);
                }
            }
            25 => {
                if self.operands() > 0 {
                    let n = self.name();
                    let (v, m) = self.pop(acc);
                    match (self.p.below(4), &v) {
                        (0, Value::Object(_)) => {
                            self.note("register module", || format!("{} as {:?}", NAMES[n], m));
                            acc.loaded_modules().insert(names[n], v);
                            self.m.modules.insert(n, m);
                        }
                        (1, Value::Class(c)) => {
                            let k = self.p.below(KINDS.len() as u32) as usize;
                            self.note("class of a kind", || format!("{:?}", m));
                            acc.set_class_of_kind(KINDS[k], Some(c.clone()));
                            if let M::N(i) = m {
                                self.m.kinds.insert(k as u8, i);
                            }
                        }
                        _ => {
                            self.note("store global", || format!("{} as {:?}", NAMES[n], m));
                            acc.globals().insert(names[n], v);
                            self.m.globals.insert(n, m);
                        }
                    }
                } else {
                    self.immediate(acc);
                }
            }
            26 => {
                let k = self.p.below(self.m.globals.len().max(1) as u32) as usize;
                match self.m.globals.iter().nth(k).map(|(n, m)| (*n, m.clone())) {
                    Some((n, m)) => {
                        self.note("load global", || NAMES[n].into());
                        let v = acc.globals().get(&names[n]).cloned().ok_or("a global is missing")?;
                        self.push(acc, v, m);
                    }
                    None => self.immediate(acc),
                }
            }
            27 => {
                // A call: the arguments become the first slots of the frame of the callee.
                if self.m.frames.len() < 12 {
                    let args = self.operands().min(self.p.below(4) as usize);
                    let slots = self.p.below(5) as usize;
                    self.note("call", || format!("with {} arguments and {} slots", args, slots));
                    self.enter(acc, args, slots)?;
                }
            }
            28 => {
                if self.m.frames.len() > 1 {
                    self.note("return", String::new);
                    let result = (self.operands() > 0).then(|| self.pop(acc));
                    self.leave(ctx, acc)?;
                    let (v, m) = result.unwrap_or((Value::Unit, M::Unit));
                    self.push(acc, v, m);
                }
            }
            29 => {
                // Several values at once, or two of them exchanged, or one dropped.
                match self.p.below(4) {
                    0 if self.operands() >= 2 => {
                        self.note("swap", String::new);
                        acc.stack().swap();
                        let n = self.m.stack.len();
                        self.m.stack.swap(n - 1, n - 2);
                    }
                    1 if self.operands() >= 2 => {
                        let n = 2 + self.p.below(self.operands() as u32 - 1) as usize;
                        self.note("push several", || format!("{}", n));
                        let vs: Vec<Value> = (0..n).map(|k| self.peek(acc, k)).collect();
                        let ms: Vec<M> = (0..n).map(|k| self.top(k).expect("operand").clone()).collect();
                        acc.stack().push_multiple(&vs);
                        self.m.stack.extend(ms);
                    }
                    _ if self.operands() > 0 => {
                        self.note("pop", String::new);
                        let (v, m) = self.pop(acc);
                        self.expect(&v, &m, "popped value")?;
                    }
                    _ => self.immediate(acc),
                }
            }
            30 => match self.top_node(0) {
                Some((_, Node::Native { k, .. })) => {
                    let k = *k;
                    let arg = self.p.below(4) as i64;
                    self.note("call host", || format!("function {}", k));
                    let (f, _) = self.pop(acc);
                    let Value::FnNative(f) = f else { return Err("no host function".into()) };
                    let r = f.call(&[Value::Int(arg), Value::Int(2)]);
                    let want = k.wrapping_mul(31).wrapping_add(arg).wrapping_mul(31).wrapping_add(2);
                    match r {
                        Ok(Value::Int(x)) if x == want => self.push(acc, Value::Int(x), M::Int(x)),
                        _ => return Err("a host function got other arguments".into()),
                    }
                    if f.call(&[Value::Null]).is_ok() {
                        return Err("the failure of a host function is lost".into());
                    }
                }
                _ => self.immediate(acc),
            },
            31 => {
                if self.operands() >= 2 {
                    let (a, b) = (self.top(1).unwrap().clone(), self.top(0).unwrap().clone());
                    let Some(want) = self.equal(&a, &b) else { return Ok(()) };
                    self.note("compare", || format!("{:?} and {:?}", a, b));
                    let (y, _) = self.pop(acc);
                    let (x, _) = self.pop(acc);
                    if (x == y) != want || (y == x) != want {
                        return Err(format!("{:?} == {:?} is not {}", a, b, want));
                    }
                    self.push(acc, Value::Bool(want), M::Bool(want));
                }
            }
            _ => self.immediate(acc),
        }
        Ok(())
    }

    fn peek_class<'gc>(&self, acc: &mut Access<'gc>) -> Option<Class<'gc>> {
        self.top(0)?;
        self.peek(acc, 0).as_class().ok()
    }

    /// Whether two values are equal; functions other than closures are not compared.
    fn equal(&self, a: &M, b: &M) -> Option<bool> {
        let function = |m: &M| matches!(m, M::N(i) if matches!(self.m.nodes[*i], Node::Native { .. } | Node::Bound { .. }));
        match (a, b) {
            _ if function(a) || function(b) => None,
            (M::N(i), M::N(j)) => Some(i == j),
            _ => Some(a == b),
        }
    }
}

thread_local! {
    static CODE: Bytecode = Compiler::compile_source(Source::new("let a = 1 let b = 2 a", SourceKind::Script)).ok().expect("compiles");
}

pub fn scenario(case: &Case, verbose: bool) -> Outcome {
    let mut o = Outcome::default();
    let (mut p, mut h) = (case.p.open(), case.h.open());
    let ended = Rc::new(RefCell::new(Vec::new()));
    let mut show = Vec::new();
    let mut done = BTreeMap::new();
    let guard = crate::poison::guard();
    let r = catch_unwind(AssertUnwindSafe(|| run(case, &mut p, &mut h, ended, &mut show, &mut done, &mut o)));
    let r = r.unwrap_or_else(|_| Err(("panic", panic_text())));
    drop(guard);
    for (k, n) in done {
        o.stat(k, n);
    }
    if let Err((kind, detail)) = r {
        // What is lost or leaks is the matter of one property, what a place holds that of the other.
        if matches!(kind, "lost" | "leak") == (case.id == "C20") {
            o.violate(kind, detail);
        } else {
            o.discard = Some("another property fails in this run");
        }
    }
    o.p = std::mem::take(&mut p.rec);
    o.h = std::mem::take(&mut h.rec);
    o.nontrivial = o.faults.values().sum::<u64>() >= 3;
    o.sig = hash_text(show.iter().flat_map(|l| l.bytes().filter(|b| !b.is_ascii_digit()).chain(std::iter::once(b'\n'))));
    if verbose {
        o.show = show;
    }
    o
}

/// What has ended although it can be reached, and, after a complete collection, what has not although it cannot.
fn ends(m: &Model, real: &Real, complete: bool) -> Result<(), (&'static str, String)> {
    let reachable = m.reachable();
    let ended = real.ended.borrow();
    for (i, n) in m.nodes.iter().enumerate() {
        let Node::Native { token, .. } = n else { continue };
        if reachable.contains(&i) && ended[*token] {
            return Err(("lost", format!("value {} is freed although the program can reach it", i)));
        }
        if complete && !reachable.contains(&i) && !ended[*token] {
            return Err(("leak", format!("value {} cannot be reached, and a complete collection does not free it", i)));
        }
    }
    Ok(())
}

type Find = Result<(), (&'static str, String)>;

fn run(
    case: &Case,
    p: &mut Stream,
    h: &mut Stream,
    ended: Rc<RefCell<Vec<bool>>>,
    show: &mut Vec<String>,
    done: &mut BTreeMap<&'static str, u64>,
    o: &mut Outcome,
) -> Find {
    let content = |e: String| ("content", e);
    let mut heap = Heap::default();
    let names: Vec<Symbol> = NAMES.iter().map(|n| heap.intern(n)).collect();
    let real = Real { names, ended, code: CODE.with(|c| c.clone()) };
    let (pause, timing, sleep) = [(0.5, 1.0, 4096), (0.1, 0.1, 64), (0.01, 4.0, 16), (2.0, 0.02, 256)][h.below(4) as usize];
    heap.set_pacing(pause, timing, sleep);
    heap.collect_all();
    heap.collect_all();
    let empty = heap.allocation();

    let mut run = Run { m: Model::default(), real: &real, p, show: Vec::new(), done, ids: 0 };
    let slots = run.p.below(5) as usize;
    heap.step(|_, acc| run.enter(acc, 0, slots)).map_err(content)?;
    let steps = 4 + run.p.below(if case.big { 100 } else { 36 });
    for _ in 0..steps {
        let n = 1 + run.p.below(7);
        let r = heap.step(|ctx, acc| {
            for _ in 0..n {
                run.instruction(ctx, acc)?;
            }
            Ok(())
        });
        show.append(&mut run.show);
        r.map_err(content)?;
        o.sim_time += n as u64;
        if h.chance(1, 14) {
            // The activation fails: the frames up to some caller are left.
            let n = h.below(run.m.frames.len() as u32) as usize;
            o.fault("activation aborted");
            show.push(format!("abort {} frames", n));
            let r = heap.step(|ctx, acc| {
                for _ in 0..n {
                    run.leave(ctx, acc)?;
                }
                run.pop_all(acc)
            });
            r.map_err(content)?;
        }
        if h.chance(1, 10) {
            let k = h.below(NAMES.len() as u32) as usize;
            let again = heap.intern(NAMES[k]);
            if again != real.names[k] || heap.resolve(again).as_deref() != Some(NAMES[k]) {
                return Err(content(format!("`{}` is another symbol now", NAMES[k])));
            }
        }
        let action = h.weighted(&[5, 4, 3, 2, 2, 1, 2]);
        let before = heap.phase();
        match action {
            0 => {}
            1 => heap.collect_debt(1 + h.below(4000) as usize),
            2 => heap.collect_debt(1 + h.below(200_000) as usize),
            3 => heap.mark_debt(1 + h.below(4000) as usize),
            4 => heap.mark_all(h.below(2) == 1),
            5 => heap.collect_all(),
            _ => {
                heap.collect_all();
                heap.collect_all();
            }
        }
        if action > 0 {
            o.fault(match (action, heap.phase()) {
                (5, _) => "collection finished",
                (6, _) => "complete collection",
                (_, "sleeping") => "collection finished in parts",
                (_, "marking") => "collection paused while marking",
                (_, "marked") => "collection paused after marking",
                _ => "collection paused while freeing",
            });
            show.push(format!("collector: action {} from {} to {}", ["", "a little", "more", "mark", "mark all", "all", "all twice"][action], before, heap.phase()));
            ends(&run.m, &real, action == 6)?;
        }
        if action > 0 || h.below(4) == 3 {
            heap.step(|_, acc| look(acc, &run.m, &real)).map_err(content)?;
        }
    }
    // In the end nothing is left.
    let r = heap.step(|ctx, acc| {
        while !run.m.frames.is_empty() {
            run.leave(ctx, acc)?;
        }
        look(acc, &run.m, &real)?;
        acc.globals().clear();
        acc.loaded_modules().clear();
        KINDS.iter().for_each(|k| acc.set_class_of_kind(*k, None));
        Ok(())
    });
    r.map_err(content)?;
    run.m.globals.clear();
    run.m.modules.clear();
    run.m.kinds.clear();
    heap.collect_all();
    heap.collect_all();
    ends(&run.m, &real, true)?;
    if heap.allocation() != empty {
        return Err(("leak", format!("{} bytes are left when nothing can be reached", heap.allocation().wrapping_sub(empty))));
    }
    Ok(())
}

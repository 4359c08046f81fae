//! The machine whose interpreter is the real one: `dice-runtime/src/interpreter`, as it is, over the heap of the simulation.
use crate::driver::panic_text;
use crate::world::*;
use dice_bytecode::Bytecode;
use dice_interp::error::Error;
use dice_interp::module::{Module, ModuleLoader};
use dice_interp::runtime::Runtime;
use dice_interp::stop::{stop, Stop};
use dice_interp::value::{self as iv, Heap, Place, Symbol, Value};
use std::any::Any;
use std::cell::RefCell;
use std::collections::HashMap;
use std::panic::{catch_unwind, resume_unwind, AssertUnwindSafe};
use std::rc::Rc;

/// The heap; it lives as long as the engine that owns it.
#[derive(Clone, Copy)]
struct Shared(*mut World);

impl Shared {
    // The interpreter, the functions of the host and the heap take turns; none keeps a reference while another runs.
    #[allow(clippy::mut_from_ref)]
    fn w(&self) -> &mut World {
        unsafe { &mut *self.0 }
    }

    fn out(&self, v: &Value) -> V {
        match v {
            Value::Null => V::Null,
            Value::Unit => V::Unit,
            Value::Bool(b) => V::Bool(*b),
            Value::Int(i) => V::Int(*i),
            Value::Float(f) => V::Float(*f),
            Value::String(s) => V::Str(s.clone()),
            Value::Object(o) => match o.0 {
                Place::Object(o) => V::Obj(o),
                Place::Class(c) => V::Class(c),
                Place::Array(a) => V::Arr(a),
            },
            Value::Class(c) => V::Class(c.0),
            Value::Array(a) => V::Arr(a.0),
            Value::FnNative(f) => V::Fn(f.0),
            Value::FnScript(f) => self.known(f.known(), || FnData::Real(v.clone())),
            Value::FnClosure(f) => self.known(f.known(), || FnData::Real(v.clone())),
            Value::FnBound(f) => {
                let (recv, f_) = (self.out(&f.receiver()), self.out(&f.function()));
                self.known(f.known(), || FnData::Bound { recv, f: f_ })
            }
        }
    }

    fn known(&self, known: &iv::Known, new: impl FnOnce() -> FnData) -> V {
        let id = known.get().unwrap_or_else(|| match self.w().func(new()) {
            V::Fn(id) => id,
            _ => unreachable!(),
        });
        known.set(Some(id));
        V::Fn(id)
    }

    fn to(&self, v: &V) -> Value {
        match v {
            V::Null => Value::Null,
            V::Unit => Value::Unit,
            V::Bool(b) => Value::Bool(*b),
            V::Int(i) => Value::Int(*i),
            V::Float(f) => Value::Float(*f),
            V::Str(s) => Value::String(s.clone()),
            V::Obj(o) => Value::Object(iv::Object(Place::Object(*o))),
            V::Class(c) => Value::Class(iv::Class(*c)),
            V::Arr(a) => Value::Array(iv::Array(*a)),
            V::Fn(id) => match &self.w().fns[*id as usize] {
                FnData::Real(v) => v.clone(),
                FnData::Bound { recv, f } => {
                    let b = iv::FnBound::new(self.to(recv), self.to(f));
                    b.known().set(Some(*id));
                    Value::FnBound(b)
                }
                _ => Value::FnNative(iv::FnNative(*id)),
            },
        }
    }

    fn place(p: Place) -> V {
        match p {
            Place::Object(o) => V::Obj(o),
            Place::Class(c) => V::Class(c),
            Place::Array(a) => V::Arr(a),
        }
    }
}

impl Heap for Shared {
    fn new_object(&self, class: u32) -> u32 {
        match self.w().object(class) {
            V::Obj(o) => o,
            _ => unreachable!(),
        }
    }
    fn new_class(&self, name: &str, base: u32) -> u32 {
        self.w().class(name, base)
    }
    fn new_array(&self, items: Vec<Value>) -> u32 {
        let items = items.iter().map(|v| self.out(v)).collect();
        match self.w().array(items) {
            V::Arr(a) => a,
            _ => unreachable!(),
        }
    }
    fn object_class(&self, object: u32) -> Option<u32> {
        self.w().objs[object as usize].class
    }
    fn class_name(&self, class: u32) -> Rc<str> {
        self.w().classes[class as usize].name.clone()
    }
    fn class_base(&self, class: u32) -> Option<u32> {
        self.w().classes[class as usize].base
    }
    fn is_class(&self, class: u32, other: u32) -> bool {
        self.w().classes[class as usize].type_ids.contains(&other)
    }
    fn method(&self, class: u32, name: &str) -> Option<Value> {
        let m = self.w().classes[class as usize].methods.get(name).cloned();
        m.map(|v| self.to(&v))
    }
    fn set_method(&self, class: u32, name: &str, value: Value) {
        let v = self.out(&value);
        self.w().classes[class as usize].methods.insert(Rc::from(name), v);
    }
    fn field(&self, of: Place, name: &str) -> Option<Value> {
        let v = self.w().field_of(&Self::place(of), name);
        v.map(|v| self.to(&v))
    }
    fn set_field(&self, of: Place, name: &str, value: Value) {
        let v = self.out(&value);
        let _ = self.w().set_field(name, &Self::place(of), v);
    }
    fn items(&self, array: u32) -> Vec<Value> {
        let items = self.w().arrs[array as usize].items.clone();
        items.iter().map(|v| self.to(v)).collect()
    }
    fn set_items(&self, array: u32, items: Vec<Value>) {
        let items = items.iter().map(|v| self.out(v)).collect();
        self.w().arrs[array as usize].items = items;
    }
    fn fields(&self, of: Place) -> Vec<Symbol> {
        self.w().fields_of(&Self::place(of)).iter().map(|(k, _)| Symbol::from(&**k)).collect()
    }
    fn methods(&self, class: u32) -> Vec<(Symbol, Value)> {
        let methods = self.w().classes[class as usize].methods.clone();
        methods.iter().map(|(k, v)| (Symbol::from(&**k), self.to(v))).collect()
    }
    fn library_class(&self, name: &str, base: Option<u32>) -> Option<u32> {
        let class = match self.w().globals.get(name) {
            Some(V::Class(c)) => *c,
            _ => return None,
        };
        if let Some(base) = base {
            self.w().inherit_now(class, base);
        }
        Some(class)
    }
    fn new_native(&self) -> u32 {
        match self.w().native(Nat::RealLib) {
            V::Fn(id) => id,
            _ => unreachable!(),
        }
    }
    fn show(&self, value: &Value) -> String {
        let v = self.out(value);
        crate::library::text_of_object(self.w(), &v)
    }
}

thread_local! {
    /// What went wrong in the host, while errors that stand for it pass through the interpreter.
    static FAILS: RefCell<Vec<Fail>> = const { RefCell::new(Vec::new()) };
    /// The codes of such errors.
    static CODES: RefCell<Vec<&'static str>> = const { RefCell::new(Vec::new()) };
}

fn stash(f: Fail) -> Error {
    let at = FAILS.with(|s| {
        let mut s = s.borrow_mut();
        s.push(f);
        s.len() - 1
    });
    CODES.with(|c| {
        let mut c = c.borrow_mut();
        while c.len() <= at {
            let code = format!("HOST {}", c.len());
            c.push(Box::leak(code.into_boxed_str()));
        }
        Error::new(c[at])
    })
}

/// What an error stands for.
fn failure(e: &Error) -> Fail {
    let code = e.error_code();
    match code.strip_prefix("HOST ").and_then(|n| n.parse::<usize>().ok()) {
        Some(at) => FAILS.with(|f| f.borrow()[at].clone()),
        None => Fail::Code(code.to_string()),
    }
}

pub struct Loader {
    heap: Shared,
    modules: HashMap<String, dice_interp::Bytecode>,
}

impl ModuleLoader for Loader {
    fn load_module(&mut self, name: Symbol) -> Result<Module, Error> {
        let text = name.as_string();
        let w = self.heap.w();
        w.log.push(format!("load {}", text));
        if let Some(f) = w.module_fault(&text) {
            return Err(stash(f));
        }
        match self.modules.get(&text) {
            Some(b) => Ok(Module { id: name, bytecode: b.clone() }),
            None => Err(stash(Fail::Code("NOMODULE".into()))),
        }
    }

    fn failed(error: Error) -> Error {
        match failure(&error) {
            Fail::Code(_) => error,
            f => {
                let at = FAILS.with(|s| {
                    let mut s = s.borrow_mut();
                    s.push(f);
                    s.len() - 1
                });
                stop(Stop::Host(at))
            }
        }
    }

    fn stopped(panic: Box<dyn Any + Send>) -> Error {
        match panic.downcast_ref::<Stop>() {
            Some(Stop::Depth) => stash(Fail::Code("DEPTH".into())),
            Some(Stop::Index) => stash(Fail::Code("INDEX".into())),
            _ => resume_unwind(panic),
        }
    }

    fn call_native(runtime: &mut Runtime<Loader>, function: u32, args: &[Value]) -> Result<Value, Error> {
        let heap = runtime.module_loader.heap;
        let (this, args) = match args.split_first() {
            Some((t, a)) => (heap.out(t), a.iter().map(|v| heap.out(v)).collect::<Vec<_>>()),
            None => return Err(stash(Fail::Mon("a function is called without its receiver".into()))),
        };
        let n = match &heap.w().fns[function as usize] {
            FnData::Native(n) => n.clone(),
            _ => return Err(stash(Fail::Mon("not a function of the host".into()))),
        };
        let mut eng = RealEngine { rt: runtime, heap };
        eng.share_globals();
        match native(&mut eng, &n, this, &args) {
            Ok(v) => Ok(heap.to(&v)),
            Err(f) => Err(stash(f)),
        }
    }
}

pub struct RealEngine<'a> {
    rt: &'a mut Runtime<Loader>,
    heap: Shared,
}

/// The parts that stay while nothing runs.
pub struct Machine {
    world: Box<World>,
    rt: Runtime<Loader>,
}

impl Machine {
    pub fn new(world: World, budget: u64) -> Machine {
        let mut world = Box::new(world);
        let heap = Shared(&mut *world);
        iv::set_heap(Some(Rc::new(heap)));
        dice_interp::bytecode::count_steps(budget);
        FAILS.with(|f| f.borrow_mut().clear());
        let rt = Runtime::new(Loader { heap, modules: HashMap::new() });
        // The simulation's own classes are derived from one of the library.
        let (host, any) = (world.host_class, world.any);
        world.inherit_now(host, any);
        Machine { world, rt }
    }

    pub fn add_module(&mut self, name: &str, code: &Bytecode) {
        self.rt.module_loader.modules.insert(name.to_string(), code.clone().into());
    }

    pub fn engine(&mut self) -> RealEngine<'_> {
        let heap = self.rt.module_loader.heap;
        RealEngine { rt: &mut self.rt, heap }
    }

    pub fn into_world(self) -> World {
        iv::set_heap(None);
        let Machine { mut world, rt } = self;
        world.steps = dice_interp::bytecode::steps();
        world.started = rt.stack.started;
        // Code refers to functions, which refer to code.
        drop(rt);
        *world
    }
}

impl RealEngine<'_> {
    /// What one side defined, the other sees.
    fn share_globals(&mut self) {
        let w = self.heap.w();
        if w.globals.len() != self.rt.globals.len() {
            for (k, v) in &self.rt.globals {
                let name: Name = k.text();
                if !w.globals.contains_key(&name) {
                    let v = self.heap.out(v);
                    self.heap.w().globals.insert(name, v);
                }
            }
            for (k, v) in &self.heap.w().globals {
                let k = Symbol::from(&**k);
                if !self.rt.globals.contains_key(&k) {
                    self.rt.globals.insert(k, self.heap.to(v));
                }
            }
        }
        if self.heap.w().modules.len() != self.rt.loaded_modules.len() {
            for (k, v) in &self.rt.loaded_modules {
                let v = self.heap.out(v);
                self.heap.w().modules.insert(k.as_string(), v);
            }
        }
    }

    /// Runs the interpreter.
    fn enter(&mut self, f: impl FnOnce(&mut Runtime<Loader>) -> Result<Value, Error>) -> R {
        self.share_globals();
        let r = catch_unwind(AssertUnwindSafe(|| f(self.rt)));
        self.share_globals();
        let r = match r {
            Ok(Ok(v)) => return Ok(self.heap.out(&v)),
            Ok(Err(e)) => failure(&e),
            Err(p) => match p.downcast_ref::<Stop>() {
                Some(Stop::Depth) => Fail::Code("DEPTH".into()),
                Some(Stop::Host(at)) => FAILS.with(|f| f.borrow()[*at].clone()),
                Some(Stop::Size) => Fail::Mon("a value grows where it should not".into()),
                Some(Stop::Index) => Fail::Code("INDEX".into()),
                Some(Stop::Steps) => Fail::Mon("the program does not come to an end".into()),
                None => Fail::Mon(format!("the interpreter panics: {}", panic_text())),
            },
        };
        Err(r)
    }

    fn save(&self) -> (usize, u32) {
        (self.rt.stack.len(), self.rt.stack.depth)
    }

    /// After a failure the embedder drops the frames of the activation; captured variables in them survive.
    fn restore(&mut self, (len, depth): (usize, u32), failed: bool) {
        self.rt.stack.depth = depth;
        if failed {
            self.rt.unwind(len, depth);
        }
    }

    pub fn run_main(&mut self, code: &Bytecode) -> R {
        let saved = self.save();
        let code: dice_interp::Bytecode = code.clone().into();
        let r = self.enter(|rt| rt.run(code));
        self.restore(saved, r.is_err());
        r
    }
}

impl Engine for RealEngine<'_> {
    fn w(&mut self) -> &mut World {
        self.heap.w()
    }
    fn idle(&mut self) -> Option<String> {
        let n = self.rt.stack.len();
        if n > 0 {
            return Some(format!("{} values are left on the stack when nothing runs", n));
        }
        let n = self.rt.open_upvalues.len();
        (n > 0).then(|| format!("{} captured variables are still open when nothing runs", n))
    }
    fn call(&mut self, f: &V, args: &[V]) -> R {
        let f = self.heap.to(f);
        let args: Vec<Value> = args.iter().map(|v| self.heap.to(v)).collect();
        let before = self.rt.stack.len();
        let v = self.enter(|rt| rt.call_from_outside(f, &args))?;
        if self.rt.stack.len() != before {
            return Err(Fail::Mon("a call left operands behind".into()));
        }
        Ok(v)
    }
    fn guarded(&mut self, f: &V, args: &[V]) -> R {
        let saved = self.save();
        let r = self.call(f, args);
        self.restore(saved, r.is_err());
        r
    }
    fn run_module(&mut self, name: &str, export: V) -> R {
        let code = match self.rt.module_loader.modules.get(name) {
            Some(c) => c.clone(),
            None => return Err(Fail::Code("NOMODULE".into())),
        };
        let export = self.heap.to(&export);
        self.enter(|rt| rt.run_module(code, export))
    }
}

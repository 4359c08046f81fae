//! Values, heap and the simulated host. Both engines (the stub virtual machine that executes compiled code, and the reference
//! evaluator) own one `World` each; given the same choices of the host stream they must produce the same log.
use crate::ast::FnDef;
use crate::rng::Stream;
use crate::vm::VmFn;
use std::cell::RefCell;
use std::collections::{BTreeMap, HashMap};
use std::rc::Rc;

pub type Id = u32;
pub type Name = Rc<str>;

#[derive(Clone, Debug)]
pub enum V {
    Null,
    Unit,
    Bool(bool),
    Int(i64),
    Float(f64),
    Str(Name),
    Obj(Id),
    Class(Id),
    Arr(Id),
    Fn(Id),
}

impl V {
    pub fn str(s: &str) -> V {
        V::Str(Rc::from(s))
    }
    pub fn is_null(&self) -> bool {
        matches!(self, V::Null)
    }
}

#[derive(Clone, Debug, PartialEq)]
pub enum Fail {
    /// An error with a code: an error of the runtime (`E....`) or a failure raised by the host (`HOST#n`).
    Code(String),
    /// The embedder stops the activation; nothing inside of it can catch this.
    Abort,
    /// The step budget ran out.
    Budget,
    /// A frame monitor found a violation, or the code under test panicked.
    Mon(String),
}

pub type R = Result<V, Fail>;

pub fn code<T>(c: &str) -> Result<T, Fail> {
    Err(Fail::Code(c.to_string()))
}

pub type Cell = Rc<RefCell<V>>;

pub enum FnData {
    Vm(Rc<VmFn>),
    /// Compiled code, as the real interpreter holds it.
    #[cfg(feature = "interp")]
    Real(dice_interp::value::Value),
    Ref { def: Rc<FnDef>, env: Rc<Vec<(u32, Cell)>> },
    Native(Nat),
    Bound { recv: V, f: V },
}

#[derive(Clone, Debug)]
pub enum Nat {
    // Host calls. Every call is recorded and can be chosen to fail.
    Log,
    Hi,
    Hb,
    Hs,
    Hf,
    Hn,
    Hr,
    Ho,
    Hx,
    Iter,
    IterIter(usize),
    Next(usize),
    On,
    After,
    Call,
    Wrap,
    Wrapped(i64, V),
    Keep,
    Fetch,
    HostGet,
    HostMe,
    HostOpt,
    HostRes,
    HostResMe,
    HostFn(i64),
    HostOp(&'static str),
    // The pure parts of the runtime's library.
    Identity(bool),
    StrEq(bool),
    ArrNext(Id, Rc<std::cell::Cell<usize>>),
    /// A method of the standard library, as the model has it.
    Lib(&'static str, &'static str),
    /// One of the real standard library.
    #[cfg(feature = "interp")]
    RealLib,
}

pub struct ObjD {
    pub class: Option<Id>,
    pub fields: Id,
}

pub struct ClassD {
    pub name: Name,
    pub base: Option<Id>,
    pub methods: BTreeMap<Name, V>,
    pub fields: Id,
    pub type_ids: Vec<Id>,
}

pub struct ArrD {
    pub items: Vec<V>,
    pub fields: Id,
}

pub struct Event {
    pub time: u64,
    pub seq: u64,
    pub name: String,
    pub f: V,
    pub args: Vec<V>,
    pub generation: u32,
}

/// What the host does wrong in this run, in percent of the host calls.
#[derive(Clone, Debug, Default)]
pub struct HostCfg {
    pub raise: u32,
    pub null: u32,
    pub wrong: u32,
    pub err: u32,
    pub stop: u32,
    pub reent: u32,
    pub abort: u32,
    pub modfail: u32,
    pub dup: u32,
    pub drop: u32,
    pub delay: u32,
    pub reorder: u32,
    pub yes: u32,
    pub ints: u32,
}

/// Multipliers of the fault probabilities, chosen per property.
#[derive(Clone, Debug)]
pub struct FaultMix {
    pub raise: u32,
    pub null: u32,
    pub wrong: u32,
    pub err: u32,
    pub reent: u32,
    pub sched: u32,
    pub modfail: u32,
}

impl Default for FaultMix {
    fn default() -> Self {
        FaultMix { raise: 1, null: 1, wrong: 1, err: 1, reent: 1, sched: 1, modfail: 1 }
    }
}

impl HostCfg {
    pub fn draw(h: &mut Stream, mix: &FaultMix) -> HostCfg {
        let mut lvl = |mul: u32| -> u32 {
            // Swarm: most runs have only a few of the fault kinds.
            match h.below(8) {
                0..=3 => 0,
                4 | 5 => 2 * mul,
                6 => 6 * mul,
                _ => 15 * mul,
            }
            .min(40)
        };
        HostCfg {
            raise: lvl(mix.raise),
            null: lvl(mix.null),
            wrong: lvl(mix.wrong),
            err: lvl(mix.err),
            stop: lvl(2),
            reent: lvl(mix.reent),
            abort: lvl(mix.raise) / 3,
            modfail: lvl(mix.modfail),
            dup: lvl(mix.sched * 2),
            drop: lvl(mix.sched),
            delay: lvl(mix.sched * 2),
            reorder: lvl(mix.sched * 2),
            yes: [0, 25, 40, 60][h.below(4) as usize],
            ints: [3, 2, 5, 12][h.below(4) as usize],
        }
    }
}

pub const DEPTH_LIMIT: u32 = 40;
const HOST_CALL_LIMIT: u32 = 400;
const ACTIVATION_LIMIT: u32 = 14;

pub struct World {
    pub objs: Vec<ObjD>,
    pub classes: Vec<ClassD>,
    pub arrs: Vec<ArrD>,
    pub fns: Vec<FnData>,
    pub maps: Vec<BTreeMap<Name, V>>,
    pub globals: HashMap<Name, V>,
    pub modules: HashMap<String, V>,
    pub any: Id,
    pub module_class: Id,
    pub host_class: Id,
    pub kind_classes: [Id; 7],
    pub h: Stream,
    pub cfg: HostCfg,
    pub log: Vec<String>,
    ident: HashMap<(u8, Id), usize>,
    pub events: Vec<Event>,
    pub now: u64,
    pub end_time: u64,
    seq: u64,
    pub registered: Vec<V>,
    pub kept: Vec<V>,
    iters: Vec<(u32, u32)>,
    pub host_calls: u32,
    raised: u32,
    pub activations: u32,
    pub depth: u32,
    pub reent_depth: u32,
    pub steps: u64,
    pub faults: BTreeMap<&'static str, u64>,
    /// Names of functions started by either engine; used as a measure of what a run reached.
    pub started: u64,
}

pub trait Engine {
    fn w(&mut self) -> &mut World;
    /// Calls a value. A failure leaves the engine's frames as they are; use `guarded` to go on after a failure.
    fn call(&mut self, f: &V, args: &[V]) -> R;
    /// Calls a value and cleans up if the call fails.
    fn guarded(&mut self, f: &V, args: &[V]) -> R;
    fn run_module(&mut self, name: &str, export: V) -> R;
    /// What is wrong with the engine when no activation runs.
    fn idle(&mut self) -> Option<String> {
        None
    }
}

const K_UNIT: usize = 0;
const K_BOOL: usize = 1;
const K_INT: usize = 2;
const K_FLOAT: usize = 3;
const K_FN: usize = 4;
const K_ARR: usize = 5;
const K_STR: usize = 6;

impl World {
    pub fn new(h: Stream) -> World {
        World::with(h, true)
    }

    /// A world whose classes of the library are empty, or those of the model.
    pub fn with(h: Stream, library: bool) -> World {
        let mut w = World {
            objs: Vec::new(),
            classes: Vec::new(),
            arrs: Vec::new(),
            fns: Vec::new(),
            maps: Vec::new(),
            globals: HashMap::new(),
            modules: HashMap::new(),
            any: 0,
            module_class: 0,
            host_class: 0,
            kind_classes: [0; 7],
            h,
            cfg: HostCfg::default(),
            log: Vec::new(),
            ident: HashMap::new(),
            events: Vec::new(),
            now: 0,
            end_time: 0,
            seq: 0,
            registered: Vec::new(),
            kept: Vec::new(),
            iters: Vec::new(),
            host_calls: 0,
            raised: 0,
            activations: 0,
            depth: 0,
            reent_depth: 0,
            steps: 0,
            faults: BTreeMap::new(),
            started: 0,
        };
        let m = w.map();
        w.classes.push(ClassD { name: Rc::from("Any"), base: None, methods: BTreeMap::new(), fields: m, type_ids: vec![0] });
        w.method(0, "#eq", Nat::Identity(true));
        w.method(0, "#neq", Nat::Identity(false));
        w.globals.insert(Rc::from("Any"), V::Class(0));
        if library {
            w.library(0);
        }
        for (i, n) in ["Unit", "Bool", "Int", "Float", "Function", "Array", "String"].iter().enumerate() {
            let c = w.class(n, 0);
            w.kind_classes[i] = c;
            w.globals.insert(Rc::from(*n), V::Class(c));
            if library {
                w.library(c);
            }
        }
        let class_class = w.class("Class", 0);
        w.globals.insert(Rc::from("Class"), V::Class(class_class));
        if library {
            w.library(class_class);
        }
        w.module_class = w.class("Module", 0);
        w.globals.insert(Rc::from("Module"), V::Class(w.module_class));
        w.host_class = w.class("Host", 0);
        w.globals.insert(Rc::from("Host"), V::Class(w.host_class));
        let s = w.kind_classes[K_STR];
        w.method(s, "#eq", Nat::StrEq(true));
        w.method(s, "#neq", Nat::StrEq(false));
        let h = w.host_class;
        w.method(h, "get", Nat::HostGet);
        w.method(h, "me", Nat::HostMe);
        w.method(h, "opt", Nat::HostOpt);
        w.method(h, "res", Nat::HostRes);
        w.method(h, "rme", Nat::HostResMe);
        for op in ["#add", "#sub", "#mul", "#lt", "#gte"] {
            w.method(h, op, Nat::HostOp(op));
        }
        for (n, f) in [
            ("log", Nat::Log),
            ("hi", Nat::Hi),
            ("hb", Nat::Hb),
            ("hs", Nat::Hs),
            ("hf", Nat::Hf),
            ("hn", Nat::Hn),
            ("hr", Nat::Hr),
            ("ho", Nat::Ho),
            ("hx", Nat::Hx),
            ("items", Nat::Iter),
            ("on", Nat::On),
            ("after", Nat::After),
            ("invoke", Nat::Call),
            ("wrap", Nat::Wrap),
            ("keep", Nat::Keep),
            ("fetch", Nat::Fetch),
        ] {
            let f = w.native(f);
            w.globals.insert(Rc::from(n), f);
        }
        w
    }

    /// Fills a class with what the model of the library has.
    fn library(&mut self, class: Id) {
        let name = self.classes[class as usize].name.clone();
        for (c, methods) in crate::library::METHODS {
            if **c == *name {
                for m in *methods {
                    self.method(class, m, Nat::Lib(c, m));
                }
            }
        }
        let fields = self.classes[class as usize].fields;
        for (k, v) in crate::library::constants(&name) {
            self.maps[fields as usize].insert(Rc::from(k), v);
        }
    }

    /// Copies what a class has and another one derived from it has not.
    #[cfg(feature = "interp")]
    pub fn inherit_now(&mut self, class: Id, base: Id) {
        for (k, v) in self.classes[base as usize].methods.clone() {
            if &*k != "new" {
                self.classes[class as usize].methods.entry(k).or_insert(v);
            }
        }
        let (to, from) = (self.classes[class as usize].fields, self.classes[base as usize].fields);
        for (k, v) in self.maps[from as usize].clone() {
            self.maps[to as usize].entry(k).or_insert(v);
        }
    }

    fn map(&mut self) -> Id {
        self.maps.push(BTreeMap::new());
        self.maps.len() as Id - 1
    }

    pub fn func(&mut self, f: FnData) -> V {
        self.fns.push(f);
        V::Fn(self.fns.len() as Id - 1)
    }

    pub fn native(&mut self, n: Nat) -> V {
        self.func(FnData::Native(n))
    }

    fn method(&mut self, c: Id, name: &str, n: Nat) {
        let f = self.native(n);
        self.classes[c as usize].methods.insert(Rc::from(name), f);
    }

    pub fn object(&mut self, class: Id) -> V {
        let fields = self.map();
        self.objs.push(ObjD { class: Some(class), fields });
        V::Obj(self.objs.len() as Id - 1)
    }

    pub fn array(&mut self, items: Vec<V>) -> V {
        let fields = self.map();
        self.arrs.push(ArrD { items, fields });
        V::Arr(self.arrs.len() as Id - 1)
    }

    /// Creates a class. A class starts with the methods of its base (except for the constructor) and a copy of its fields.
    pub fn class(&mut self, name: &str, base: Id) -> Id {
        let id = self.classes.len() as Id;
        let b = &self.classes[base as usize];
        let methods = b.methods.iter().filter(|(n, _)| &***n != "new").map(|(n, v)| (n.clone(), v.clone())).collect();
        let mut type_ids = b.type_ids.clone();
        type_ids.push(id);
        let inherited = self.maps[b.fields as usize].clone();
        let fields = self.map();
        self.maps[fields as usize] = inherited;
        self.classes.push(ClassD { name: Rc::from(name), base: Some(base), methods, fields, type_ids });
        id
    }

    pub fn inherit(&mut self, name: &str, base: &V) -> R {
        let base = self.as_class(base)?;
        if base != self.any && (self.kind_classes.contains(&base) || &*self.classes[base as usize].name == "Class" && base < 12) {
            return code("E3402");
        }
        Ok(V::Class(self.class(name, base)))
    }

    pub fn as_class(&self, v: &V) -> Result<Id, Fail> {
        match v {
            V::Class(c) => Ok(*c),
            _ => code("E3007"),
        }
    }

    pub fn as_bool(&self, v: &V) -> Result<bool, Fail> {
        match v {
            V::Bool(b) => Ok(*b),
            _ => code("E3000"),
        }
    }

    fn field_map(&self, v: &V) -> Option<Id> {
        match v {
            V::Obj(o) => Some(self.objs[*o as usize].fields),
            V::Class(c) => Some(self.classes[*c as usize].fields),
            V::Arr(a) => Some(self.arrs[*a as usize].fields),
            _ => None,
        }
    }

    pub fn fields_of(&self, v: &V) -> Vec<(Name, V)> {
        self.field_map(v).map_or(Vec::new(), |m| self.maps[m as usize].iter().map(|(k, v)| (k.clone(), v.clone())).collect())
    }

    #[cfg(feature = "interp")]
    pub fn field_of(&self, v: &V, name: &str) -> Option<V> {
        self.field_map(v).and_then(|m| self.maps[m as usize].get(name).cloned())
    }

    pub fn class_of(&self, v: &V) -> Option<Id> {
        Some(match v {
            V::Null => return None,
            V::Obj(o) => return self.objs[*o as usize].class,
            V::Unit => self.kind_classes[K_UNIT],
            V::Bool(_) => self.kind_classes[K_BOOL],
            V::Int(_) => self.kind_classes[K_INT],
            V::Float(_) => self.kind_classes[K_FLOAT],
            V::Str(_) => self.kind_classes[K_STR],
            V::Fn(_) => self.kind_classes[K_FN],
            V::Arr(_) => self.kind_classes[K_ARR],
            V::Class(_) => match self.globals.get("Class") {
                Some(V::Class(c)) => *c,
                _ => return None,
            },
        })
    }

    pub fn is_type(&self, v: &V, class: Id) -> bool {
        self.class_of(v).map_or(false, |c| self.classes[c as usize].type_ids.contains(&class))
    }

    /// The check of an annotation; `nullable` admits null.
    pub fn assert_type(&self, v: &V, class: &V, nullable: bool) -> Result<(), Fail> {
        let class = self.as_class(class)?;
        if v.is_null() {
            return if nullable { Ok(()) } else { code("E3101") };
        }
        if self.is_type(v, class) {
            Ok(())
        } else {
            code("E3100")
        }
    }

    pub fn method_of(&mut self, class: Option<Id>, key: &str, recv: &V) -> V {
        match class.and_then(|c| self.classes[c as usize].methods.get(key)) {
            Some(f) => {
                let f = f.clone();
                self.func(FnData::Bound { recv: recv.clone(), f })
            }
            None => V::Null,
        }
    }

    pub fn get_field(&mut self, key: &str, v: &V) -> R {
        if let Some(f) = self.field_map(v).and_then(|m| self.maps[m as usize].get(key)) {
            return Ok(f.clone());
        }
        if key == "new" {
            return code("E3400");
        }
        let c = self.class_of(v);
        Ok(self.method_of(c, key, v))
    }

    pub fn set_field(&mut self, key: &str, target: &V, v: V) -> Result<(), Fail> {
        match self.field_map(target) {
            Some(m) => {
                self.maps[m as usize].insert(Rc::from(key), v);
                Ok(())
            }
            None => code("E3006"),
        }
    }

    pub fn load_method(&mut self, class: &V, key: &str, recv: &V) -> R {
        let class = self.as_class(class)?;
        if !self.is_type(recv, class) {
            return code("E3105");
        }
        Ok(self.method_of(Some(class), key, recv))
    }

    pub fn load_index(&mut self, target: &V, index: &V) -> R {
        match (target, index) {
            (V::Arr(a), V::Int(i)) => {
                Ok(usize::try_from(*i).ok().and_then(|i| self.arrs[*a as usize].items.get(i).cloned()).unwrap_or(V::Null))
            }
            (t, V::Str(s)) => self.get_field(s, t),
            _ => code("E3005"),
        }
    }

    pub fn store_index(&mut self, target: &V, index: &V, v: V) -> Result<(), Fail> {
        match (target, index) {
            (V::Arr(a), V::Int(i)) => {
                match usize::try_from(*i).ok().and_then(|i| self.arrs[*a as usize].items.get_mut(i)) {
                    Some(slot) => {
                        *slot = v;
                        Ok(())
                    }
                    None => code("INDEX"),
                }
            }
            (t, i) => {
                if self.field_map(t).is_none() {
                    return code("E3006");
                }
                match i {
                    V::Str(s) => self.set_field(s, t, v),
                    _ => code("E3005"),
                }
            }
        }
    }

    pub fn global(&self, name: &str) -> R {
        self.globals.get(name).cloned().map_or_else(|| code("E3301"), Ok)
    }

    pub fn define_global(&mut self, name: &str, v: V) -> Result<(), Fail> {
        if self.globals.contains_key(name) {
            return code("E3300");
        }
        self.globals.insert(Rc::from(name), v);
        Ok(())
    }

    pub fn negate(&self, v: &V) -> R {
        match v {
            V::Int(i) => Ok(V::Int(i.wrapping_neg())),
            V::Float(f) => Ok(V::Float(-f)),
            _ => code("E3103"),
        }
    }

    pub fn not(&self, v: &V) -> R {
        match v {
            V::Bool(b) => Ok(V::Bool(!b)),
            _ => code("E3102"),
        }
    }

    /// The built-in part of an operator, or `None` if it has to be dispatched.
    pub fn binary(&self, op: &str, l: &V, r: &V) -> Option<R> {
        use V::*;
        Some(match (op, l, r) {
            ("#mul", Int(a), Int(b)) => Ok(Int(a.wrapping_mul(*b))),
            ("#add", Int(a), Int(b)) => Ok(Int(a.wrapping_add(*b))),
            ("#sub", Int(a), Int(b)) => Ok(Int(a.wrapping_sub(*b))),
            ("#div", Int(_), Int(0)) | ("#rem", Int(_), Int(0)) => code("E3200"),
            ("#div", Int(a), Int(b)) => Ok(Int(a.wrapping_div(*b))),
            ("#rem", Int(a), Int(b)) => Ok(Int(a.wrapping_rem(*b))),
            ("#mul", Float(a), Float(b)) => Ok(Float(a * b)),
            ("#add", Float(a), Float(b)) => Ok(Float(a + b)),
            ("#sub", Float(a), Float(b)) => Ok(Float(a - b)),
            ("#div", Float(a), Float(b)) => Ok(Float(a / b)),
            ("#rem", Float(a), Float(b)) => Ok(Float(a % b)),
            ("#gt", Bool(a), Bool(b)) => Ok(Bool(a > b)),
            ("#gte", Bool(a), Bool(b)) => Ok(Bool(a >= b)),
            ("#lt", Bool(a), Bool(b)) => Ok(Bool(a < b)),
            ("#lte", Bool(a), Bool(b)) => Ok(Bool(a <= b)),
            ("#gt", Int(a), Int(b)) => Ok(Bool(a > b)),
            ("#gte", Int(a), Int(b)) => Ok(Bool(a >= b)),
            ("#lt", Int(a), Int(b)) => Ok(Bool(a < b)),
            ("#lte", Int(a), Int(b)) => Ok(Bool(a <= b)),
            ("#gt", Float(a), Float(b)) => Ok(Bool(a > b)),
            ("#gte", Float(a), Float(b)) => Ok(Bool(a >= b)),
            ("#lt", Float(a), Float(b)) => Ok(Bool(a < b)),
            ("#lte", Float(a), Float(b)) => Ok(Bool(a <= b)),
            ("#eq", _, _) => Ok(Bool(match (l, r) {
                (Null, Null) | (Unit, Unit) => true,
                (Null, _) | (_, Null) | (Unit, _) | (_, Unit) => false,
                (Bool(a), Bool(b)) => a == b,
                (Int(a), Int(b)) => a == b,
                (Float(a), Float(b)) => a == b,
                _ => return None,
            })),
            ("#neq", _, _) => Ok(Bool(match (l, r) {
                (Null, Null) | (Unit, Unit) => false,
                (Null, _) | (_, Null) | (Unit, _) | (_, Unit) => true,
                (Bool(a), Bool(b)) => a != b,
                (Int(a), Int(b)) => a != b,
                (Float(a), Float(b)) => a != b,
                _ => return None,
            })),
            _ => return None,
        })
    }

    // ---- log -------------------------------------------------------------------------------------------------------

    fn number(&mut self, kind: u8, id: Id) -> (usize, bool) {
        let n = self.ident.len() + 1;
        match self.ident.entry((kind, id)) {
            std::collections::hash_map::Entry::Occupied(e) => (*e.get(), false),
            std::collections::hash_map::Entry::Vacant(e) => {
                e.insert(n);
                (n, true)
            }
        }
    }

    /// A canonical form of a value; objects are numbered in the order of their first appearance in the log.
    pub fn show(&mut self, v: &V) -> String {
        let mut out = String::new();
        self.show_to(v, 2, &mut out);
        out
    }

    fn show_to(&mut self, v: &V, depth: u32, out: &mut String) {
        match v {
            V::Null => out.push_str("null"),
            V::Unit => out.push_str("()"),
            V::Bool(b) => out.push_str(if *b { "true" } else { "false" }),
            V::Int(i) => out.push_str(&i.to_string()),
            V::Float(f) => out.push_str(&if f.is_nan() { "NaN".to_string() } else { format!("{:?}f", f) }),
            V::Str(s) => out.push_str(&format!("{:?}", s)),
            V::Fn(_) => out.push_str("fn"),
            V::Class(c) => {
                let (n, _) = self.number(2, *c);
                out.push_str(&format!("class#{} {}", n, self.classes[*c as usize].name));
            }
            V::Obj(o) => {
                let (n, _) = self.number(0, *o);
                let class = self.objs[*o as usize].class;
                let name = class.map_or(Rc::from("?"), |c| self.classes[c as usize].name.clone());
                out.push_str(&format!("{}#{}", name, n));
                if depth > 0 {
                    out.push('{');
                    let m = self.maps[self.objs[*o as usize].fields as usize].clone();
                    for (i, (k, v)) in m.iter().enumerate() {
                        if i > 0 {
                            out.push_str(", ");
                        }
                        out.push_str(k);
                        out.push_str(": ");
                        self.show_to(v, depth - 1, out);
                    }
                    out.push('}');
                }
            }
            V::Arr(a) => {
                let (n, _) = self.number(1, *a);
                out.push_str(&format!("#{}", n));
                if depth > 0 {
                    out.push('[');
                    let items = self.arrs[*a as usize].items.clone();
                    for (i, v) in items.iter().enumerate() {
                        if i > 0 {
                            out.push_str(", ");
                        }
                        self.show_to(v, depth - 1, out);
                    }
                    out.push(']');
                }
            }
        }
    }

    pub fn outcome(&mut self, r: &R) -> String {
        match r {
            Ok(v) => self.show(v),
            Err(Fail::Code(c)) => format!("error {}", c),
            Err(Fail::Abort) => "aborted".into(),
            Err(Fail::Budget) => "budget".into(),
            Err(Fail::Mon(m)) => format!("MONITOR {}", m),
        }
    }

    fn fault(&mut self, kind: &'static str) {
        *self.faults.entry(kind).or_default() += 1;
    }

    // ---- host ------------------------------------------------------------------------------------------------------

    fn pick_int(&mut self) -> i64 {
        let n = self.cfg.ints;
        self.h.below(n.max(2)) as i64
    }

    fn wrong_value(&mut self) -> V {
        match self.h.below(8) {
            0 => V::str("wrong"),
            1 => V::Int(7),
            2 => V::Bool(true),
            3 => V::Unit,
            4 => V::Float(0.5),
            5 => self.array(vec![V::Int(1)]),
            6 => {
                let any = self.any;
                self.object(any)
            }
            _ => V::Class(self.any),
        }
    }

    pub fn result(&mut self, ok: bool, v: V) -> V {
        let class = match self.globals.get(if ok { "Ok" } else { "Err" }) {
            Some(V::Class(c)) => *c,
            _ => self.any,
        };
        let o = self.object(class);
        let _ = self.set_field("is_ok", &o, V::Bool(ok));
        let _ = self.set_field("result", &o, v);
        o
    }

    fn host_object(&mut self, depth: u32) -> V {
        let c = self.host_class;
        let o = self.object(c);
        let n = self.pick_int();
        let _ = self.set_field("n", &o, V::Int(n));
        let _ = self.set_field("s", &o, V::str("host"));
        let f = self.native(Nat::HostFn(n));
        let _ = self.set_field("f", &o, f);
        let inner = if depth > 0 && self.h.below(3) > 0 { self.host_object(depth - 1) } else { V::Null };
        let _ = self.set_field("o", &o, inner);
        o
    }

    fn push_event(&mut self, delay: u64, name: String, f: V, generation: u32) {
        let mut copies = 1;
        if self.chance(self.cfg.drop) {
            self.fault("callback dropped");
            return;
        }
        if self.chance(self.cfg.dup) {
            self.fault("callback duplicated");
            copies = 2;
        }
        for _ in 0..copies {
            let mut time = self.now + delay;
            if self.chance(self.cfg.delay) {
                self.fault("callback delayed");
                time += 1 + self.h.below(50) as u64;
            }
            self.seq += 1;
            let mut args = vec![V::Int(self.pick_int()), V::Int(self.pick_int())];
            if self.chance(self.cfg.null) {
                self.fault("callback argument missing");
                args.pop();
            } else if self.chance(self.cfg.wrong) {
                self.fault("callback argument of another type");
                args[0] = self.wrong_value();
            }
            let seq = self.seq;
            self.events.push(Event { time, seq, name: name.clone(), f: f.clone(), args, generation });
        }
    }

    /// Whether loading a module fails.
    pub fn module_fault(&mut self, name: &str) -> Option<Fail> {
        if !self.chance(self.cfg.modfail) {
            return None;
        }
        self.fault("module load failed");
        self.raised += 1;
        let e = format!("HOST#{}", self.raised);
        self.log.push(format!("load {} !{}", name, e));
        Some(Fail::Code(e))
    }

    fn chance(&mut self, p: u32) -> bool {
        self.h.chance(p, 100)
    }
}

/// Runs the callbacks that the program registered, in the order the schedule decides.
pub fn deliver(eng: &mut dyn Engine) {
    loop {
        let w = eng.w();
        if w.events.is_empty() || w.activations >= ACTIVATION_LIMIT {
            break;
        }
        let first = (0..w.events.len()).min_by_key(|i| (w.events[*i].time, w.events[*i].seq)).unwrap();
        let at = if w.events.len() > 1 && w.chance(w.cfg.reorder) {
            w.fault("callback reordered");
            w.h.below(w.events.len() as u32) as usize
        } else {
            first
        };
        let ev = w.events.remove(at);
        w.now = w.now.max(ev.time) + 1;
        w.activations += 1;
        let n = w.activations;
        let shown: Vec<String> = ev.args.iter().map(|a| w.show(a)).collect();
        let line = format!("@{} activation {} of {} ({})", w.now, n, ev.name, shown.join(", "));
        w.log.push(line);
        let mut r = eng.guarded(&ev.f, &ev.args);
        if let Some(m) = eng.idle() {
            r = Err(Fail::Mon(m));
        }
        let w = eng.w();
        let o = w.outcome(&r);
        w.log.push(format!("activation {} -> {}", n, o));
        if matches!(r, Err(Fail::Mon(_)) | Err(Fail::Budget)) {
            break;
        }
        if ev.generation < 2 && w.chance(w.cfg.dup) {
            w.fault("callback repeated");
            let d = 1 + w.h.below(5) as u64;
            w.push_event(d, ev.name, ev.f, ev.generation + 1);
        }
        w.end_time = w.now;
    }
}

/// Writes down what the run left behind: the exports of every module that was loaded, and the globals it defined.
pub fn epilogue(w: &mut World, before: &std::collections::HashSet<Name>) {
    w.end_time = w.now;
    let mut names: Vec<String> = w.modules.keys().cloned().collect();
    names.sort();
    for n in names {
        let m = w.modules[&n].clone();
        let s = w.show(&m);
        w.log.push(format!("module {} = {}", n, s));
    }
    let mut names: Vec<Name> = w.globals.keys().filter(|k| !before.contains(*k)).cloned().collect();
    names.sort();
    w.log.push(format!("globals {:?}", names));
}

/// A native function. `this` is the receiver (or the function itself).
pub fn native(eng: &mut dyn Engine, n: &Nat, this: V, args: &[V]) -> R {
    // The pure functions of the library first.
    match n {
        Nat::Identity(eq) => {
            let same = match (&this, args.first()) {
                (V::Obj(a), Some(V::Obj(b))) | (V::Class(a), Some(V::Class(b))) | (V::Arr(a), Some(V::Arr(b))) => a == b,
                _ => false,
            };
            return Ok(V::Bool(same == *eq));
        }
        Nat::StrEq(eq) => {
            let same = match (&this, args.first()) {
                (V::Str(a), Some(V::Str(b))) => a == b,
                _ => false,
            };
            return Ok(V::Bool(same == *eq));
        }
        Nat::Lib(class, name) => return crate::library::call(eng, class, name, this, args),
        #[cfg(feature = "interp")]
        Nat::RealLib => return Err(Fail::Mon("a function of the real library is called by the simulation".into())),
        Nat::ArrNext(a, pos) => {
            let w = eng.w();
            let any = w.any;
            let o = w.object(any);
            let i = pos.get();
            match w.arrs[*a as usize].items.get(i).cloned() {
                Some(v) => {
                    w.set_field("value", &o, v)?;
                    w.set_field("is_done", &o, V::Bool(false))?;
                    pos.set(i + 1);
                }
                None => w.set_field("is_done", &o, V::Bool(true))?,
            }
            return Ok(o);
        }
        _ => {}
    }

    // A host call: it is recorded, and may fail.
    let w = eng.w();
    w.host_calls += 1;
    w.now += 1;
    let mut name = match n {
        Nat::IterIter(i) => format!("items#{}.iter", i),
        Nat::Next(i) => format!("items#{}.next", i),
        Nat::HostFn(i) => format!("hostfn#{}", i),
        Nat::HostOp(op) => format!("Host.{}", op),
        Nat::Wrapped(t, _) => format!("wrapped#{}", t),
        n => format!("{:?}", n).to_lowercase(),
    };
    if matches!(n, Nat::HostGet | Nat::HostMe | Nat::HostOpt | Nat::HostRes | Nat::HostResMe | Nat::HostOp(_)) {
        name = format!("{} on {}", name, w.show(&this));
    }
    let shown: Vec<String> = args.iter().map(|a| w.show(a)).collect();
    let call = format!("{}({})", name, shown.join(", "));
    let at = w.log.len();
    w.log.push(call);
    if w.host_calls > HOST_CALL_LIMIT {
        w.log[at].push_str(" !limit");
        return code("HOSTLIMIT");
    }
    if w.chance(w.cfg.raise) {
        w.raised += 1;
        let e = format!("HOST#{}", w.raised);
        w.log[at].push_str(&format!(" !{}", e));
        w.fault("host call failed");
        return Err(Fail::Code(e));
    }
    if w.chance(w.cfg.abort) {
        w.log[at].push_str(" !abort");
        w.fault("activation aborted");
        return Err(Fail::Abort);
    }
    // The host may call back into the program before it returns.
    if w.chance(w.cfg.reent) && !w.registered.is_empty() && w.reent_depth < 2 {
        w.fault("re-entrant callback");
        let k = w.h.below(w.registered.len() as u32) as usize;
        let f = w.registered[k].clone();
        let args = [V::Int(w.pick_int()), V::Int(w.pick_int())];
        w.log[at].push_str(&format!(" re-enters callback {}", k));
        w.reent_depth += 1;
        let r = eng.guarded(&f, &args);
        let w = eng.w();
        w.reent_depth -= 1;
        let o = w.outcome(&r);
        w.log.push(format!("re-entrant callback -> {}", o));
        if let Err(e @ (Fail::Abort | Fail::Budget | Fail::Mon(_))) = r {
            return Err(e);
        }
    }
    let w = eng.w();
    let tag = match args.first() {
        Some(V::Int(i)) => *i,
        _ => -1,
    };
    let arg = |i: usize| args.get(i).cloned().unwrap_or(V::Null);
    let typed = matches!(
        n,
        Nat::Hi | Nat::Hb | Nat::Hs | Nat::Hf | Nat::Hr | Nat::Ho | Nat::HostGet | Nat::HostMe | Nat::HostRes | Nat::HostResMe | Nat::HostFn(_) | Nat::HostOp(_)
    );
    if typed {
        if w.chance(w.cfg.null) {
            w.fault("null instead of a value");
            w.log[at].push_str(" = null");
            return Ok(V::Null);
        }
        if w.chance(w.cfg.wrong) {
            w.fault("value of another type");
            let v = w.wrong_value();
            let s = w.show(&v);
            w.log[at].push_str(&format!(" = {}", s));
            return Ok(v);
        }
    }
    let v = match n {
        Nat::Log => V::Unit,
        Nat::Hi | Nat::HostGet | Nat::HostFn(_) => V::Int(w.pick_int()),
        Nat::Hb => {
            let p = w.cfg.yes;
            V::Bool(w.chance(p))
        }
        Nat::HostOp(op) => match *op {
            "#lt" | "#gte" => V::Bool(w.h.below(2) == 1),
            _ => V::Int(w.pick_int()),
        },
        Nat::Hs => V::str(["h", "host", "x y", "é☃"][w.h.below(4) as usize]),
        Nat::Hf => V::Float([0.0, 1.5, -2.25, 1e10][w.h.below(4) as usize]),
        Nat::Hn => {
            if w.h.below(3) == 0 {
                V::Null
            } else {
                V::Int(w.pick_int())
            }
        }
        Nat::Hr | Nat::HostRes | Nat::HostResMe => {
            let e = w.cfg.err;
            let failed = w.chance(20 + e);
            let payload = match n {
                Nat::HostResMe if !failed => this.clone(),
                _ => V::Int(w.pick_int()),
            };
            if failed {
                w.fault("failed result");
            }
            let r = w.result(!failed, payload);
            if w.chance(e / 4) {
                w.fault("malformed result");
                if w.h.below(2) == 0 {
                    w.set_field("is_ok", &r, V::Null)?;
                } else {
                    w.set_field("result", &r, V::Null)?;
                }
            }
            r
        }
        Nat::Ho => {
            if w.h.below(3) == 2 {
                V::Null
            } else {
                w.host_object(2)
            }
        }
        Nat::HostMe => this.clone(),
        Nat::HostOpt => {
            if w.h.below(2) == 0 {
                V::Null
            } else {
                this.clone()
            }
        }
        Nat::Hx => match w.h.below(10) {
            0 => V::Null,
            1 => V::Int(w.pick_int()),
            2 => V::Bool(w.h.below(2) == 1),
            3 => w.host_object(0),
            4 => w.result(true, V::Int(1)),
            5 => w.result(false, V::Int(1)),
            _ => w.wrong_value(),
        },
        Nat::Iter => {
            let i = w.iters.len();
            let len = match arg(1) {
                V::Int(n) => n.clamp(0, 6) as u32,
                _ => w.h.below(4),
            };
            w.iters.push((0, len));
            let class = w.host_class;
            let o = w.object(class);
            let f = w.native(Nat::IterIter(i));
            w.set_field("iter", &o, f)?;
            o
        }
        Nat::IterIter(i) => {
            let class = w.host_class;
            let o = w.object(class);
            let f = w.native(Nat::Next(*i));
            w.set_field("next", &o, f)?;
            o
        }
        Nat::Next(i) => {
            let (pos, len) = w.iters[*i];
            let stop = w.chance(w.cfg.stop);
            if stop {
                w.fault("iteration ended early");
            }
            let any = w.any;
            let o = w.object(any);
            if pos < len && !stop {
                let v = V::Int(w.pick_int() + 10 * pos as i64);
                let v = if w.chance(w.cfg.null) {
                    w.fault("null item");
                    V::Null
                } else {
                    v
                };
                w.set_field("value", &o, v)?;
                w.set_field("is_done", &o, V::Bool(false))?;
                w.iters[*i].0 += 1;
            } else {
                w.set_field("is_done", &o, V::Bool(true))?;
                w.iters[*i].0 = len;
            }
            if w.chance(w.cfg.wrong / 3) {
                w.fault("malformed item");
                w.set_field("is_done", &o, V::Null)?;
            }
            o
        }
        Nat::On => {
            let f = arg(1);
            w.registered.push(f.clone());
            w.push_event(1, format!("on {}", tag), f, 0);
            V::Unit
        }
        Nat::After => {
            let delay = match arg(1) {
                V::Int(i) => i.clamp(0, 100) as u64,
                _ => 1,
            };
            w.push_event(delay, format!("after {}", tag), arg(2), 0);
            V::Unit
        }
        Nat::Call => {
            let f = arg(1);
            let rest: Vec<V> = args.iter().skip(2).cloned().collect();
            // An embedder either passes a failure on or goes on without the result.
            let swallow = w.h.below(3) == 1;
            if swallow {
                let r = eng.guarded(&f, &rest);
                let w = eng.w();
                let o = w.outcome(&r);
                w.log.push(format!("invoked {} -> {}", tag, o));
                match r {
                    Err(Fail::Code(_)) => V::Null,
                    r => r?,
                }
            } else {
                eng.call(&f, &rest)?
            }
        }
        Nat::Wrap => w.native(Nat::Wrapped(tag, arg(1))),
        Nat::Wrapped(_, f) => {
            let f = f.clone();
            eng.call(&f, args)?
        }
        Nat::Keep => {
            w.kept.push(arg(1));
            V::Unit
        }
        Nat::Fetch => {
            let k = w.kept.len() as u32;
            if k == 0 {
                V::Null
            } else {
                let i = w.h.below(k);
                w.kept[i as usize].clone()
            }
        }
        _ => V::Null,
    };
    let w = eng.w();
    let s = w.show(&v);
    w.log[at].push_str(&format!(" = {}", s));
    Ok(v)
}

/// Loads a module, or finds it if it was loaded before.
pub fn load_module(eng: &mut dyn Engine, name: &str) -> R {
    let w = eng.w();
    if let Some(m) = w.modules.get(name) {
        return Ok(m.clone());
    }
    let class = w.module_class;
    let export = w.object(class);
    w.modules.insert(name.to_string(), export.clone());
    w.log.push(format!("load {}", name));
    if let Some(f) = w.module_fault(name) {
        return Err(f);
    }
    eng.run_module(name, export)
}

//! The stub virtual machine. It executes the real compiled code through the real `BytecodeCursor`, following the instruction
//! semantics of `dice-runtime/src/interpreter`, and monitors the well-formedness of every frame while it does.
use crate::world::*;
use dice_bytecode::{Bytecode, BytecodeCursor, ConstantValue, Instruction};
use std::cell::RefCell;
use std::collections::{HashMap, HashSet};
use std::rc::Rc;

pub enum UpState {
    Open { abs: usize, serial: u64 },
    Closed(V),
}
pub type Up = Rc<RefCell<UpState>>;

pub struct VmFn {
    code: Rc<Code>,
    upvalues: Vec<Up>,
}

/// Compiled code with the places where its instructions start.
pub struct Code {
    name: String,
    bc: Bytecode,
    starts: HashSet<u64>,
    len: u64,
    subs: Vec<Option<Rc<Code>>>,
    bad: Option<String>,
}

impl Code {
    pub fn new(name: &str, bc: Bytecode) -> Rc<Code> {
        let subs = bc
            .constants()
            .iter()
            .map(|c| match c {
                ConstantValue::Function(f) => Some(Code::new(&f.name, f.bytecode.clone())),
                _ => None,
            })
            .collect();
        let mut code = Code { name: name.to_string(), bc: bc.clone(), starts: HashSet::new(), len: 0, subs, bad: None };
        code.decode();
        Rc::new(code)
    }

    #[cfg(feature = "interp")]
    pub fn bytecode(&self) -> &Bytecode {
        &self.bc
    }

    fn decode(&mut self) {
        use Instruction::*;
        let bc = self.bc.clone();
        let mut c = bc.cursor();
        loop {
            let at = c.position();
            let ins = match c.read_instruction() {
                Some(i) => i,
                None => {
                    self.len = at;
                    return;
                }
            };
            self.starts.insert(at);
            let operands = match ins {
                PushConst | Dup | LoadModule | LoadGlobal | LoadLocal | LoadField | LoadMethod | LoadUpvalue | StoreGlobal
                | StoreLocal | StoreField | StoreMethod | StoreUpvalue | AssignLocal | AssignField | AssignUpvalue
                | CloseUpvalue | Call | CallSuper | CreateArray | InheritClass | AssertTypeForLocal
                | AssertTypeOrNullForLocal => 1,
                Jump | JumpIfFalse | JumpIfTrue | LoadFieldToLocal => 2,
                CreateClosure => {
                    if c.remaining() < 1 {
                        self.bad = Some(format!("truncated instruction at {}", at));
                        return;
                    }
                    let k = c.read_u8() as usize;
                    match bc.constants().get(k) {
                        Some(ConstantValue::Function(f)) => 2 * f.bytecode.upvalue_count() as u64,
                        _ => {
                            self.bad = Some(format!("instruction at {} creates a closure of constant {}, which is not a function", at, k));
                            return;
                        }
                    }
                }
                _ => 0,
            };
            if c.remaining() < operands {
                self.bad = Some(format!("truncated instruction at {}", at));
                return;
            }
            for _ in 0..operands {
                c.read_u8();
            }
        }
    }
}

#[derive(Clone, Copy)]
struct Frame {
    start: usize,
    end: usize,
    serial: u64,
}

pub struct VmEngine {
    pub world: World,
    stack: Vec<V>,
    base: usize,
    open: Vec<Up>,
    live: HashSet<u64>,
    serial: u64,
    pub budget: u64,
    modules: HashMap<String, Rc<Code>>,
    /// Modules that are compiled when they are loaded.
    pub sources: HashMap<String, String>,
}

fn mon<T>(m: impl Into<String>) -> Result<T, Fail> {
    Err(Fail::Mon(m.into()))
}

type Cur<'a> = BytecodeCursor<'a>;

impl VmEngine {
    pub fn new(world: World, budget: u64) -> Self {
        VmEngine {
            world,
            stack: Vec::with_capacity(256),
            base: 0,
            open: Vec::new(),
            live: HashSet::new(),
            serial: 0,
            budget,
            modules: HashMap::new(),
            sources: HashMap::new(),
        }
    }

    pub fn add_module(&mut self, name: &str, code: Rc<Code>) {
        self.modules.insert(name.to_string(), code);
    }

    /// Number of operands left when nothing is running; it has to be 0.
    pub fn idle_depth(&self) -> usize {
        self.stack.len()
    }

    pub fn open_upvalues(&self) -> usize {
        self.open.len()
    }

    pub fn run_main(&mut self, code: &Rc<Code>) -> R {
        let saved = self.save();
        let r = self.run(code, None);
        self.restore(saved, r.is_err());
        r
    }

    fn run(&mut self, code: &Rc<Code>, export: Option<V>) -> R {
        let start = self.stack.len();
        let slots = code.bc.slot_count();
        self.stack.resize(start + slots, V::Null);
        let frame = self.new_frame(start, start + slots);
        if let Some(e) = export {
            if slots == 0 {
                return mon(format!("module {} declares no slot for its exports", code.name));
            }
            self.stack[start] = e;
        }
        let r = self.execute(code, frame, &[])?;
        self.release(frame);
        Ok(r)
    }

    fn new_frame(&mut self, start: usize, end: usize) -> Frame {
        self.serial += 1;
        self.live.insert(self.serial);
        Frame { start, end, serial: self.serial }
    }

    fn release(&mut self, f: Frame) {
        self.live.remove(&f.serial);
        self.stack.truncate(f.start);
    }

    fn save(&self) -> (usize, usize, u32, u64) {
        (self.stack.len(), self.base, self.world.depth, self.serial)
    }

    /// After a failure the embedder drops the frames of the activation; captured variables in them survive.
    fn restore(&mut self, (sp, base, depth, serial): (usize, usize, u32, u64), failed: bool) {
        self.base = base;
        self.world.depth = depth;
        if !failed {
            return;
        }
        let mut keep = Vec::new();
        for up in std::mem::take(&mut self.open) {
            let abs = match &*up.borrow() {
                UpState::Open { abs, .. } => *abs,
                UpState::Closed(_) => continue,
            };
            if abs >= sp {
                let v = self.stack.get(abs).cloned().unwrap_or(V::Null);
                let alive = matches!(&*up.borrow(), UpState::Open { serial, .. } if self.live.contains(serial));
                if alive {
                    *up.borrow_mut() = UpState::Closed(v);
                } else {
                    keep.push(up);
                }
            } else {
                keep.push(up);
            }
        }
        self.open = keep;
        self.live.retain(|s| *s <= serial);
        self.stack.truncate(sp);
    }

    fn pop(&mut self) -> R {
        if self.stack.len() <= self.base {
            return mon("operand stack underflow");
        }
        Ok(self.stack.pop().unwrap())
    }

    fn need(&self, n: usize) -> Result<(), Fail> {
        if self.stack.len() < self.base + n {
            return mon("operand stack underflow");
        }
        Ok(())
    }

    fn push(&mut self, v: V) {
        self.stack.push(v);
    }

    fn top(&mut self, n: usize) -> Result<&mut V, Fail> {
        self.need(n + 1)?;
        let at = self.stack.len() - 1 - n;
        Ok(&mut self.stack[at])
    }

    fn slot(&self, code: &Code, f: Frame, slot: usize) -> Result<usize, Fail> {
        if slot >= code.bc.slot_count() || f.start + slot >= f.end {
            return mon(format!("{}: slot {} is beyond the {} declared slots", code.name, slot, code.bc.slot_count()));
        }
        Ok(f.start + slot)
    }

    fn symbol(&self, code: &Code, k: usize) -> Result<Name, Fail> {
        match code.bc.constants().get(k) {
            Some(ConstantValue::Symbol(s)) => Ok(Rc::from(s.as_str())),
            Some(ConstantValue::String(s)) => Ok(Rc::from(s.as_str())),
            Some(_) => mon(format!("{}: constant {} is not a name", code.name, k)),
            None => mon(format!("{}: constant {} does not exist", code.name, k)),
        }
    }

    fn constant(&mut self, code: &Code, k: usize) -> R {
        Ok(match code.bc.constants().get(k) {
            Some(ConstantValue::Int(i)) => V::Int(*i),
            Some(ConstantValue::Float(f)) => V::Float(*f),
            Some(ConstantValue::String(s)) | Some(ConstantValue::Symbol(s)) => V::str(s),
            Some(ConstantValue::Function(_)) => {
                let sub = code.subs[k].clone().unwrap();
                if sub.bc.upvalue_count() > 0 {
                    return mon(format!("{}: function {} is used without its captured variables", code.name, sub.name));
                }
                self.world.func(FnData::Vm(Rc::new(VmFn { code: sub, upvalues: Vec::new() })))
            }
            None => return mon(format!("{}: constant {} does not exist", code.name, k)),
        })
    }

    fn find_open(&self, abs: usize) -> Option<usize> {
        self.open.iter().rposition(|u| matches!(&*u.borrow(), UpState::Open { abs: a, .. } if *a == abs))
    }

    fn up_check(&self, code: &Code, ups: &[Up], i: usize) -> Result<Up, Fail> {
        let up = match ups.get(i) {
            Some(u) => u.clone(),
            None => return mon(format!("{}: captured variable {} does not exist", code.name, i)),
        };
        if let UpState::Open { abs, serial } = &*up.borrow() {
            if *abs >= self.stack.len() || !self.live.contains(serial) {
                return mon(format!("{}: captured variable {} outlived its frame without being closed", code.name, i));
            }
        }
        Ok(up)
    }

    fn jump(&self, code: &Code, c: &mut Cur, offset: i16, heads: &mut HashMap<u64, usize>) -> Result<(), Fail> {
        let from = c.position();
        c.offset_position(offset);
        let to = c.position();
        if !(code.starts.contains(&to) || to == code.len) {
            return mon(format!("{}: jump from {} to {}, where no instruction starts", code.name, from, to));
        }
        if to < from {
            let depth = self.stack.len() - self.base;
            let before = *heads.entry(to).or_insert(depth);
            if before != depth {
                return mon(format!("{}: operand stack depth changes from {} to {} between turns of the loop at {}", code.name, before, depth, to));
            }
        }
        Ok(())
    }

    fn execute(&mut self, code: &Rc<Code>, frame: Frame, ups: &[Up]) -> R {
        let saved = self.base;
        self.base = self.stack.len();
        let bc = code.bc.clone();
        let mut c = bc.cursor();
        let r = self.steps(code, frame, ups, &mut c);
        match r {
            Ok(()) => {}
            Err(Fail::Mon(m)) if !m.contains(" [in ") => {
                return mon(format!("{} [in {} at {}]", m, code.name, c.last_instruction_offset()))
            }
            Err(e) => return Err(e),
        }
        if self.stack.len() != self.base + 1 {
            return mon(format!(
                "{} ends with {} operands on its stack instead of its value [in {} at {}]",
                code.name,
                self.stack.len() as i64 - self.base as i64,
                code.name,
                c.last_instruction_offset()
            ));
        }
        self.base = saved;
        Ok(self.stack.pop().unwrap())
    }

    fn binary(&mut self, op: &'static str) -> Result<(), Fail> {
        let r = self.pop()?;
        let l = self.pop()?;
        if let Some(v) = self.world.binary(op, &l, &r) {
            self.push(v?);
            return Ok(());
        }
        let m = self.world.get_field(op, &l)?;
        if !m.is_null() {
            self.push(m);
            self.push(r);
            self.call_fn(1)
        } else {
            let f = match self.world.globals.get(op).cloned() {
                Some(f) => f,
                None => return code_err("E3302"),
            };
            self.push(f);
            self.push(l);
            self.push(r);
            self.call_fn(2)
        }
    }

    fn steps(&mut self, code: &Rc<Code>, frame: Frame, ups: &[Up], c: &mut Cur) -> Result<(), Fail> {
        use Instruction::*;
        if let Some(b) = &code.bad {
            return mon(b.clone());
        }
        let mut heads: HashMap<u64, usize> = HashMap::new();
        while let Some(ins) = c.read_instruction() {
            self.world.steps += 1;
            if self.world.steps > self.budget {
                return mon("the program does not come to an end");
            }
            match ins {
                PushNull => self.push(V::Null),
                PushUnit => self.push(V::Unit),
                PushFalse => self.push(V::Bool(false)),
                PushTrue => self.push(V::Bool(true)),
                PushI0 => self.push(V::Int(0)),
                PushI1 => self.push(V::Int(1)),
                PushF0 => self.push(V::Float(0.0)),
                PushF1 => self.push(V::Float(1.0)),
                PushConst => {
                    let v = self.constant(code, c.read_u8() as usize)?;
                    self.push(v);
                }
                Pop => {
                    self.pop()?;
                }
                Swap => {
                    self.need(2)?;
                    let n = self.stack.len();
                    self.stack.swap(n - 1, n - 2);
                }
                Dup => {
                    let v = self.top(c.read_u8() as usize)?.clone();
                    self.push(v);
                }
                CreateArray => {
                    let n = c.read_u8() as usize;
                    self.need(n)?;
                    let items = self.stack.split_off(self.stack.len() - n);
                    let a = self.world.array(items);
                    self.push(a);
                }
                CreateObject => {
                    let any = self.world.any;
                    let o = self.world.object(any);
                    self.push(o);
                }
                InheritClass => {
                    let name = self.symbol(code, c.read_u8() as usize)?;
                    let base = self.pop()?;
                    let class = self.world.inherit(&name, &base)?;
                    self.push(class);
                }
                CreateClosure => self.create_closure(code, frame, ups, c)?,
                Negate => {
                    let v = self.top(0)?.clone();
                    *self.top(0)? = self.world.negate(&v)?;
                }
                Not => {
                    let v = self.top(0)?.clone();
                    *self.top(0)? = self.world.not(&v)?;
                }
                Multiply => self.binary("#mul")?,
                Divide => self.binary("#div")?,
                Remainder => self.binary("#rem")?,
                Add => self.binary("#add")?,
                Subtract => self.binary("#sub")?,
                GreaterThan => self.binary("#gt")?,
                GreaterThanOrEqual => self.binary("#gte")?,
                LessThan => self.binary("#lt")?,
                LessThanOrEqual => self.binary("#lte")?,
                Equal => self.binary("#eq")?,
                NotEqual => self.binary("#neq")?,
                RangeExclusive => self.binary("#range_exclusive")?,
                RangeInclusive => self.binary("#range_inclusive")?,
                Is => {
                    let class = self.pop()?;
                    let class = self.world.as_class(&class)?;
                    let v = self.top(0)?.clone();
                    let is = self.world.is_type(&v, class);
                    *self.top(0)? = V::Bool(is);
                }
                Jump => {
                    let o = c.read_offset();
                    self.jump(code, c, o, &mut heads)?;
                }
                JumpIfFalse | JumpIfTrue => {
                    let o = c.read_offset();
                    let v = self.pop()?;
                    let v = self.world.as_bool(&v)?;
                    if v == matches!(ins, JumpIfTrue) {
                        self.jump(code, c, o, &mut heads)?;
                    }
                }
                LoadLocal => {
                    let at = self.slot(code, frame, c.read_u8() as usize)?;
                    let v = self.stack[at].clone();
                    self.push(v);
                }
                StoreLocal => {
                    let at = self.slot(code, frame, c.read_u8() as usize)?;
                    let v = self.top(0)?.clone();
                    self.stack[at] = v;
                }
                AssignLocal => {
                    let at = self.slot(code, frame, c.read_u8() as usize)?;
                    let v = self.pop()?;
                    self.stack[at] = v;
                    self.push(V::Unit);
                }
                LoadUpvalue => {
                    let up = self.up_check(code, ups, c.read_u8() as usize)?;
                    let v = match &*up.borrow() {
                        UpState::Open { abs, .. } => self.stack[*abs].clone(),
                        UpState::Closed(v) => v.clone(),
                    };
                    self.push(v);
                }
                StoreUpvalue | AssignUpvalue => {
                    let up = self.up_check(code, ups, c.read_u8() as usize)?;
                    let v = self.pop()?;
                    let result = if matches!(ins, StoreUpvalue) { v.clone() } else { V::Unit };
                    match &mut *up.borrow_mut() {
                        UpState::Open { abs, .. } => self.stack[*abs] = v,
                        UpState::Closed(x) => *x = v,
                    }
                    self.push(result);
                }
                CloseUpvalue => {
                    let at = self.slot(code, frame, c.read_u8() as usize)?;
                    let v = std::mem::replace(&mut self.stack[at], V::Null);
                    if let Some(i) = self.find_open(at) {
                        let up = self.open.remove(i);
                        *up.borrow_mut() = UpState::Closed(v);
                    }
                }
                LoadGlobal => {
                    let name = self.symbol(code, c.read_u8() as usize)?;
                    let v = self.world.global(&name)?;
                    self.push(v);
                }
                StoreGlobal => {
                    let name = self.symbol(code, c.read_u8() as usize)?;
                    let v = self.pop()?;
                    self.world.define_global(&name, v)?;
                }
                LoadField => {
                    let name = self.symbol(code, c.read_u8() as usize)?;
                    let v = self.pop()?;
                    let v = self.world.get_field(&name, &v)?;
                    self.push(v);
                }
                StoreField | AssignField => {
                    let name = self.symbol(code, c.read_u8() as usize)?;
                    let v = self.pop()?;
                    let o = self.pop()?;
                    self.world.set_field(&name, &o, v.clone())?;
                    self.push(if matches!(ins, StoreField) { v } else { V::Unit });
                }
                LoadIndex => {
                    let i = self.pop()?;
                    let t = self.pop()?;
                    let v = self.world.load_index(&t, &i)?;
                    self.push(v);
                }
                StoreIndex | AssignIndex => {
                    let v = self.pop()?;
                    let i = self.pop()?;
                    let t = self.pop()?;
                    self.world.store_index(&t, &i, v.clone())?;
                    self.push(if matches!(ins, StoreIndex) { v } else { V::Unit });
                }
                LoadMethod => {
                    let name = self.symbol(code, c.read_u8() as usize)?;
                    let recv = self.pop()?;
                    let class = self.pop()?;
                    let m = self.world.load_method(&class, &name, &recv)?;
                    self.push(m);
                }
                StoreMethod => {
                    let name = self.symbol(code, c.read_u8() as usize)?;
                    let v = self.pop()?;
                    let class = self.pop()?;
                    let class = self.world.as_class(&class)?;
                    self.world.classes[class as usize].methods.insert(name, v);
                }
                LoadFieldToLocal => {
                    let name = self.symbol(code, c.read_u8() as usize)?;
                    let at = self.slot(code, frame, c.read_u8() as usize)?;
                    let v = self.pop()?;
                    let v = self.world.get_field(&name, &v)?;
                    self.stack[at] = v.clone();
                    self.push(v);
                }
                Call => {
                    let n = c.read_u8() as usize;
                    self.need(n + 1)?;
                    self.call_fn(n)?;
                }
                CallSuper => {
                    let n = c.read_u8() as usize;
                    let class = self.pop()?;
                    let class = self.world.as_class(&class)?;
                    let recv = self.top(n)?.clone();
                    let v = self.construct(n, class, recv)?;
                    self.push(v);
                }
                LoadModule => {
                    let name = self.symbol(code, c.read_u8() as usize)?;
                    let m = load_module(self, &name)?;
                    self.push(m);
                }
                AssertBool => {
                    if !matches!(self.top(0)?, V::Bool(_)) {
                        return code_err("E3102");
                    }
                }
                AssertTypeForLocal | AssertTypeOrNullForLocal => {
                    let class = self.pop()?;
                    let at = self.slot(code, frame, c.read_u8() as usize)?;
                    self.world.assert_type(&self.stack[at], &class, matches!(ins, AssertTypeOrNullForLocal))?;
                }
                AssertTypeAndReturn | AssertTypeOrNullAndReturn => {
                    let class = self.pop()?;
                    let v = self.top(0)?.clone();
                    self.world.assert_type(&v, &class, matches!(ins, AssertTypeOrNullAndReturn))?;
                    return Ok(());
                }
                Return => return Ok(()),
                #[allow(unreachable_patterns)]
                _ => return mon("unknown instruction"),
            }
        }
        Ok(())
    }

    fn create_closure(&mut self, code: &Rc<Code>, frame: Frame, ups: &[Up], c: &mut Cur) -> Result<(), Fail> {
        let k = c.read_u8() as usize;
        let sub = match code.subs.get(k) {
            Some(Some(s)) => s.clone(),
            _ => return mon(format!("{}: constant {} is not a function", code.name, k)),
        };
        let mut captured = Vec::new();
        for _ in 0..sub.bc.upvalue_count() {
            let local = c.read_u8() == 1;
            let i = c.read_u8() as usize;
            if local {
                let abs = self.slot(code, frame, i)?;
                let up = match self.find_open(abs) {
                    Some(j) => {
                        let up = self.open[j].clone();
                        *up.borrow_mut() = UpState::Open { abs, serial: frame.serial };
                        up
                    }
                    None => {
                        let up = Rc::new(RefCell::new(UpState::Open { abs, serial: frame.serial }));
                        self.open.push(up.clone());
                        up
                    }
                };
                captured.push(up);
            } else {
                match ups.get(i) {
                    Some(u) => captured.push(u.clone()),
                    None => return mon(format!("{}: captured variable {} does not exist", code.name, i)),
                }
            }
        }
        let f = self.world.func(FnData::Vm(Rc::new(VmFn { code: sub, upvalues: captured })));
        self.push(f);
        Ok(())
    }

    /// The callee lies below its arguments; both are replaced by the result.
    fn call_fn(&mut self, argc: usize) -> Result<(), Fail> {
        let at = self.stack.len() - 1 - argc;
        let mut recv = None;
        let mut callee = self.stack[at].clone();
        if let V::Fn(id) = &callee {
            if let FnData::Bound { recv: r, f } = &self.world.fns[*id as usize] {
                recv = Some(r.clone());
                callee = f.clone();
            }
        }
        let v = match &callee {
            V::Class(class) => {
                let o = self.world.object(*class);
                self.construct(argc, *class, o)?
            }
            V::Fn(id) => match &self.world.fns[*id as usize] {
                FnData::Vm(f) => {
                    let f = f.clone();
                    self.call_script(argc, recv, &f)?
                }
                FnData::Native(n) => {
                    let n = n.clone();
                    let args = self.stack.split_off(at + 1);
                    let this = recv.unwrap_or_else(|| callee.clone());
                    self.stack.truncate(at);
                    native(self, &n, this, &args)?
                }
                FnData::Bound { .. } => return code_err("E3104"),
                FnData::Ref { .. } => return mon("reference function in the machine"),
                #[cfg(feature = "interp")]
                FnData::Real(_) => return mon("another machine's function"),
            },
            _ => return code_err("E3104"),
        };
        self.push(v);
        Ok(())
    }

    fn construct(&mut self, argc: usize, class: Id, mut object: V) -> R {
        if let Some(new) = self.world.classes[class as usize].methods.get("new").cloned() {
            let bound = self.world.func(FnData::Bound { recv: object, f: new });
            let at = self.stack.len() - 1 - argc;
            self.stack[at] = bound;
            self.call_fn(argc)?;
            object = self.stack.last().unwrap().clone();
        } else if argc > 0 {
            let n = self.stack.len() - argc;
            self.stack.truncate(n);
        } else if let Some(b) = self.world.classes[class as usize].base {
            if self.world.classes[b as usize].methods.contains_key("new") {
                return code_err("E3401");
            }
        }
        self.stack.pop();
        Ok(object)
    }

    fn call_script(&mut self, argc: usize, recv: Option<V>, f: &Rc<VmFn>) -> R {
        if self.world.depth >= DEPTH_LIMIT {
            return code_err("DEPTH");
        }
        self.world.depth += 1;
        self.world.started += 1;
        let slots = f.code.bc.slot_count();
        let reserved = if argc < slots { slots - argc } else { slots };
        let start = self.stack.len() - argc - 1;
        self.stack.resize(self.stack.len() + reserved, V::Null);
        let frame = self.new_frame(start, self.stack.len());
        if let Some(r) = recv {
            self.stack[start] = r;
        }
        if f.upvalues.len() != f.code.bc.upvalue_count() {
            return mon(format!("{} was created with the wrong number of captured variables", f.code.name));
        }
        let v = self.execute(&f.code, frame, &f.upvalues)?;
        self.release(frame);
        self.world.depth -= 1;
        Ok(v)
    }
}

fn code_err<T>(c: &str) -> Result<T, Fail> {
    code(c)
}

impl Engine for VmEngine {
    fn idle(&mut self) -> Option<String> {
        (!self.stack.is_empty() || self.base != 0)
            .then(|| format!("{} values are left on the stack when nothing runs", self.stack.len()))
    }
    fn w(&mut self) -> &mut World {
        &mut self.world
    }
    fn call(&mut self, f: &V, args: &[V]) -> R {
        // A native caller: its own operands start here.
        let base = self.base;
        self.base = self.stack.len();
        self.push(f.clone());
        for a in args {
            self.push(a.clone());
        }
        self.call_fn(args.len())?;
        let v = self.pop()?;
        if self.stack.len() != self.base {
            return mon("a call left operands behind");
        }
        self.base = base;
        Ok(v)
    }
    fn guarded(&mut self, f: &V, args: &[V]) -> R {
        let saved = self.save();
        let r = self.call(f, args);
        self.restore(saved, r.is_err());
        r
    }
    fn run_module(&mut self, name: &str, export: V) -> R {
        if let Some(text) = self.sources.get(name) {
            match crate::script::compile(text, dice_core::source::SourceKind::Module) {
                Ok(Ok(b)) => {
                    let code = Code::new(name, b);
                    self.sources.remove(name);
                    self.modules.insert(name.to_string(), code);
                }
                Ok(Err((c, _))) => return Err(Fail::Code(c)),
                Err(p) => return mon(format!("compiling {} panics: {}", name, p)),
            }
        }
        match self.modules.get(name).cloned() {
            Some(code) => {
                self.run(&code, Some(export.clone()))?;
                Ok(export)
            }
            None => code_err("NOMODULE"),
        }
    }
}

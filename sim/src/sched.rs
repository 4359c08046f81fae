//! The thread seam: threads of the code under test run one at a time, and a seeded schedule decides which one and for how long.
//! Every branch, memory access and allocation of the code under test is a point where the running thread may be stopped
//! (`tools/rustc-cov` makes the compiler call us there), and waiting on a futex hands over to another thread.
use libc::{c_int, c_long, sem_t};
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::{Cell, UnsafeCell};

/// For how many points the thread runs (`None`: until it blocks or ends), which thread is next.
#[derive(Clone, Copy, Debug)]
pub struct Turn {
    pub gap: Option<u32>,
    pub next: u32,
    /// A thread that waits may be woken for nothing.
    pub spurious: bool,
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum State {
    Ready,
    /// Waits on a futex.
    Waits(usize),
    Done,
}

pub struct Sched {
    sems: Vec<Box<UnsafeCell<sem_t>>>,
    done: UnsafeCell<sem_t>,
    states: Vec<State>,
    running: usize,
    turns: std::vec::IntoIter<Turn>,
    turn: Turn,
    left: u64,
    /// Only points at and shortly after an access to static memory count.
    focus: bool,
    hot: u32,
    pub hot_points: u64,
    pub points: u64,
    pub switches: u64,
    pub waits: u64,
    pub spurious: u64,
    pub timeouts: u64,
    pub deadlock: bool,
    pub livelock: bool,
    /// The thread that gave up the processor, and after how many points.
    pub log: Vec<(u8, u64, u8)>,
}

/// A thread that passes so many points without a switch makes room for others: it may wait for them in a loop.
const LONG: u64 = 20_000_000;
const TOO_LONG: u64 = 400_000_000;

static mut SCHED: *mut Sched = std::ptr::null_mut();

thread_local! {
    static ME: Cell<usize> = const { Cell::new(usize::MAX) };
}

/// # Safety
/// Only the running thread calls it.
#[allow(static_mut_refs)]
unsafe fn sched() -> &'static mut Sched {
    &mut *SCHED
}

/// Runs the functions as threads under the schedule and gives the scheduler's record. The threads never end: they stop for good
/// when their function is done.
pub fn run(turns: Vec<Turn>, focus: bool, threads: Vec<Box<dyn FnOnce() + Send>>) -> &'static Sched {
    let n = threads.len();
    let sem = || {
        // SAFETY: a semaphore is plain memory until it is initialised, which happens right here.
        let s = UnsafeCell::new(unsafe { std::mem::zeroed::<sem_t>() });
        s
    };
    let mut turns = turns.into_iter();
    let turn = turns.next().unwrap_or(Turn { gap: None, next: 0, spurious: false });
    let s = Box::leak(Box::new(Sched {
        sems: (0..n).map(|_| Box::new(sem())).collect(),
        done: sem(),
        states: vec![State::Ready; n],
        running: 0,
        left: turn.gap.map_or(LONG, |g| g as u64),
        turns,
        turn,
        focus,
        hot: 0,
        hot_points: 0,
        points: 0,
        switches: 0,
        waits: 0,
        spurious: 0,
        timeouts: 0,
        deadlock: false,
        livelock: false,
        log: Vec::with_capacity(4096),
    }));
    // SAFETY: the semaphores stay where they are; the scheduler is set before any thread runs.
    unsafe {
        libc::sem_init(s.done.get(), 0, 0);
        for x in &s.sems {
            libc::sem_init(x.get(), 0, 0);
        }
        SCHED = s;
        for (i, f) in threads.into_iter().enumerate() {
            std::thread::Builder::new()
                .stack_size(64 << 20)
                .spawn(move || {
                    wait(sched().sems[i].get());
                    ME.with(|m| m.set(i));
                    f();
                    ME.with(|m| m.set(usize::MAX));
                    let s = sched();
                    s.states[i] = State::Done;
                    s.leave(i);
                    loop {
                        libc::pause();
                    }
                })
                .expect("thread");
        }
        libc::sem_post(sched().sems[0].get());
        wait(sched().done.get());
        sched()
    }
}

unsafe fn wait(s: *mut sem_t) {
    while libc::sem_wait(s) != 0 {}
}

impl Sched {
    fn next_turn(&mut self) {
        self.turn = self.turns.next().unwrap_or(Turn { gap: None, next: 0, spurious: false });
        self.left = self.turn.gap.map_or(LONG, |g| g as u64);
    }

    /// Another thread to run, if there is one.
    fn pick(&mut self, me: usize) -> Option<usize> {
        let n = self.states.len();
        if self.turn.spurious {
            let waiting: Vec<usize> = (0..n).filter(|i| *i != me && matches!(self.states[*i], State::Waits(_))).collect();
            if !waiting.is_empty() {
                let i = waiting[self.turn.next as usize % waiting.len()];
                self.states[i] = State::Ready;
                self.spurious += 1;
                return Some(i);
            }
        }
        let ready: Vec<usize> = (1..n).map(|d| (me + d) % n).filter(|i| self.states[*i] == State::Ready).collect();
        (!ready.is_empty()).then(|| ready[self.turn.next as usize % ready.len()])
    }

    fn hand_over(&mut self, me: usize, to: usize) {
        if self.log.len() < self.log.capacity() {
            self.log.push((me as u8, self.points, to as u8));
        }
        self.switches += 1;
        self.running = to;
        // SAFETY: the semaphore belongs to the thread that runs next.
        unsafe { libc::sem_post(self.sems[to].get()) };
    }

    /// The calling thread ends or blocks: another one runs, or the run is over.
    fn leave(&mut self, me: usize) {
        match self.pick(me) {
            Some(to) => {
                self.next_turn();
                self.hand_over(me, to)
            }
            None => {
                self.deadlock = self.states.iter().any(|s| *s != State::Done);
                // SAFETY: wakes the thread that waits for the run.
                unsafe { libc::sem_post(self.done.get()) };
            }
        }
    }

    #[cold]
    fn turn_over(&mut self, me: usize) {
        if self.points > TOO_LONG {
            self.livelock = true;
            // SAFETY: wakes the thread that waits for the run; this one stops for good.
            unsafe {
                libc::sem_post(self.done.get());
                loop {
                    libc::pause();
                }
            }
        }
        let to = self.pick(me);
        self.next_turn();
        if let Some(to) = to {
            self.hand_over(me, to);
            // SAFETY: waits for its own turn.
            unsafe { wait(self.sems[me].get()) };
        }
    }
}

#[inline(always)]
fn point() {
    let me = ME.get();
    if me != usize::MAX {
        // SAFETY: a thread with a number is the one that runs.
        let s = unsafe { sched() };
        s.points += 1;
        if s.focus && s.points < TOO_LONG {
            if s.hot == 0 {
                return;
            }
            s.hot -= 1;
        }
        s.hot_points += 1;
        if s.left > 0 {
            s.left -= 1;
        } else {
            // Nothing in here is a point.
            ME.set(usize::MAX);
            s.turn_over(me);
            ME.set(me);
        }
    }
}

extern "C" {
    static data_start: u8;
    static _end: u8;
}

/// For how many points after an access to static memory threads are switched there.
const HOT: u32 = 12;

/// An access to memory.
#[inline(always)]
fn access(addr: usize) {
    let me = ME.get();
    if me != usize::MAX {
        // SAFETY: only the addresses are used.
        let (a, b) = unsafe { (&raw const data_start as usize, &raw const _end as usize) };
        if addr >= a && addr < b {
            // SAFETY: a thread with a number is the one that runs.
            unsafe { sched().hot = HOT };
        }
        point();
    }
}

#[no_mangle]
pub extern "C" fn __sanitizer_cov_trace_pc() {
    point()
}

macro_rules! accesses {
    ($($name:ident)*) => { $(
        #[no_mangle]
        pub extern "C" fn $name(addr: usize) {
            access(addr)
        }
    )* };
}
accesses! {
    __sanitizer_cov_load1 __sanitizer_cov_load2 __sanitizer_cov_load4 __sanitizer_cov_load8 __sanitizer_cov_load16
    __sanitizer_cov_store1 __sanitizer_cov_store2 __sanitizer_cov_store4 __sanitizer_cov_store8 __sanitizer_cov_store16
}

struct Alloc;
#[global_allocator]
static ALLOC: Alloc = Alloc;

// SAFETY: passes everything on to the system's allocator.
unsafe impl GlobalAlloc for Alloc {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        point();
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        point();
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        point();
        System.realloc(p, l, n)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        point();
        System.alloc_zeroed(l)
    }
}

/// # Safety
/// As for the function of the C library.
#[no_mangle]
pub unsafe extern "C" fn sched_yield() -> c_int {
    let me = ME.get();
    if me != usize::MAX {
        ME.set(usize::MAX);
        sched().turn_over(me);
        ME.set(me);
    }
    0
}

type Syscall = unsafe extern "C" fn(c_long, c_long, c_long, c_long, c_long, c_long, c_long) -> c_long;

/// # Safety
/// As for the function of the C library.
#[no_mangle]
pub unsafe extern "C" fn syscall(n: c_long, a: c_long, b: c_long, c: c_long, d: c_long, e: c_long, f: c_long) -> c_long {
    let me = ME.get();
    if n == libc::SYS_futex && me != usize::MAX {
        ME.set(usize::MAX);
        let r = futex(me, a as usize, b as c_int, c as u32, d != 0);
        ME.set(me);
        return r;
    }
    static mut REAL: Option<Syscall> = None;
    if REAL.is_none() {
        let p = libc::dlsym(libc::RTLD_NEXT, c"syscall".as_ptr());
        REAL = Some(std::mem::transmute::<*mut libc::c_void, Syscall>(p));
    }
    REAL.unwrap()(n, a, b, c, d, e, f)
}

unsafe fn futex(me: usize, addr: usize, op: c_int, val: u32, timed: bool) -> c_long {
    let s = sched();
    match op & !(libc::FUTEX_PRIVATE_FLAG | libc::FUTEX_CLOCK_REALTIME) {
        libc::FUTEX_WAIT | libc::FUTEX_WAIT_BITSET => {
            if (*(addr as *const std::sync::atomic::AtomicU32)).load(std::sync::atomic::Ordering::SeqCst) != val {
                *libc::__errno_location() = libc::EAGAIN;
                return -1;
            }
            s.waits += 1;
            s.states[me] = State::Waits(addr);
            match s.pick(me) {
                Some(to) => {
                    s.next_turn();
                    s.hand_over(me, to);
                    wait(s.sems[me].get());
                    0
                }
                None if timed => {
                    s.states[me] = State::Ready;
                    s.timeouts += 1;
                    *libc::__errno_location() = libc::ETIMEDOUT;
                    -1
                }
                None => {
                    s.deadlock = true;
                    libc::sem_post(s.done.get());
                    loop {
                        libc::pause();
                    }
                }
            }
        }
        libc::FUTEX_WAKE | libc::FUTEX_WAKE_BITSET => {
            let mut n = 0;
            for x in s.states.iter_mut() {
                if n < val as c_long && *x == State::Waits(addr) {
                    *x = State::Ready;
                    n += 1;
                }
            }
            n
        }
        _ => {
            *libc::__errno_location() = libc::ENOSYS;
            -1
        }
    }
}

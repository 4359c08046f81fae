//! The file-system seam: calls that the code under test makes to the C library are served here first. Without a simulation in
//! the calling thread they go on to the C library.
use crate::rng::Stream;
use libc::{c_char, c_int, c_uint, c_void, off64_t, size_t, ssize_t};
use std::cell::Cell;
use std::ffi::CStr;
use std::sync::atomic::{AtomicUsize, Ordering::Relaxed};

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Call {
    Realpath,
    Getcwd,
    Open,
    Stat,
    Seek,
    Read,
}

/// What happens to the calls of one load.
pub struct FsSim {
    pub choices: Stream,
    /// EINTR, short reads and wrong sizes are met.
    pub soft: bool,
    /// The call that fails for good, and how.
    pub hard: Option<(u32, c_int)>,
    /// The call before which the world changes.
    pub event: Option<(u32, Box<dyn FnOnce()>)>,
    pub calls: u32,
    pub hit: Option<(Call, c_int)>,
    pub happened: bool,
    pub interrupts: u32,
    pub shorts: u32,
    pub lies: u32,
    /// Paths opened, as given.
    pub opened: Vec<Vec<u8>>,
    pub fds: Vec<c_int>,
    /// What reads delivered from the file opened last.
    pub delivered: Vec<u8>,
    pub log: Vec<String>,
}

impl FsSim {
    pub fn new(choices: Stream) -> Self {
        FsSim {
            choices,
            soft: false,
            hard: None,
            event: None,
            calls: 0,
            hit: None,
            happened: false,
            interrupts: 0,
            shorts: 0,
            lies: 0,
            opened: Vec::new(),
            fds: Vec::new(),
            delivered: Vec::new(),
            log: Vec::new(),
        }
    }

    /// Counts a call; an error if the call is to fail.
    fn enter(&mut self, call: Call, can_retry: bool) -> Result<(), c_int> {
        let n = self.calls;
        self.calls += 1;
        if self.event.as_ref().is_some_and(|e| e.0 == n) {
            let (_, f) = self.event.take().unwrap();
            f();
            self.happened = true;
            self.log.push("the world changes".into());
        }
        if let Some((k, e)) = self.hard {
            if n == k {
                self.hit = Some((call, e));
                self.log.push(format!("{:?} fails with errno {}", call, e));
                return Err(e);
            }
        }
        if self.soft && can_retry && self.interrupts < 6 && self.choices.below(4) == 3 {
            self.interrupts += 1;
            self.log.push(format!("{:?} is interrupted", call));
            return Err(libc::EINTR);
        }
        self.log.push(format!("{:?}", call));
        Ok(())
    }
}

thread_local! {
    static SIM: Cell<*mut FsSim> = const { Cell::new(std::ptr::null_mut()) };
}

/// Runs `f` with its file-system calls simulated.
pub fn with_fs<T>(sim: &mut FsSim, f: impl FnOnce() -> T) -> T {
    struct Reset;
    impl Drop for Reset {
        fn drop(&mut self) {
            SIM.with(|s| s.set(std::ptr::null_mut()));
        }
    }
    let reset = Reset;
    SIM.with(|s| s.set(sim));
    let r = f();
    drop(reset);
    r
}

/// Gives the simulation of the calling thread, if there is one, with the seam open while it is used.
fn sim<T>(f: impl FnOnce(&mut FsSim) -> T) -> Option<T> {
    let p = SIM.try_with(|s| s.replace(std::ptr::null_mut())).unwrap_or(std::ptr::null_mut());
    if p.is_null() {
        return None;
    }
    // SAFETY: the pointer is set for the time of `with_fs`, which this call is inside of; it is taken out for the time of use.
    let r = f(unsafe { &mut *p });
    SIM.with(|s| s.set(p));
    Some(r)
}

fn fail(errno: c_int) {
    // SAFETY: the location of errno is valid.
    unsafe { *libc::__errno_location() = errno }
}

fn next(slot: &AtomicUsize, name: &CStr) -> usize {
    let mut p = slot.load(Relaxed);
    if p == 0 {
        // SAFETY: looks up a symbol by name.
        p = unsafe { libc::dlsym(libc::RTLD_NEXT, name.as_ptr()) } as usize;
        if p == 0 {
            std::process::abort();
        }
        slot.store(p, Relaxed);
    }
    p
}

macro_rules! original {
    ($name:literal, $t:ty) => {{
        static SLOT: AtomicUsize = AtomicUsize::new(0);
        // SAFETY: the symbol has this type.
        unsafe { std::mem::transmute::<usize, $t>(next(&SLOT, $name)) }
    }};
}

fn open_file(path: *const c_char, go: impl FnOnce() -> c_int) -> c_int {
    // SAFETY: the caller passes a C string.
    let p = unsafe { CStr::from_ptr(path) }.to_bytes().to_vec();
    match sim(|s| s.enter(Call::Open, true)) {
        Some(Err(e)) => {
            fail(e);
            -1
        }
        Some(Ok(())) => {
            let fd = go();
            sim(|s| {
                s.opened.push(p);
                if fd >= 0 {
                    s.fds.push(fd);
                    s.delivered.clear();
                }
            });
            fd
        }
        None => go(),
    }
}

#[no_mangle]
pub extern "C" fn open64(path: *const c_char, flags: c_int, mode: c_uint) -> c_int {
    open_file(path, || original!(c"open64", extern "C" fn(*const c_char, c_int, c_uint) -> c_int)(path, flags, mode))
}

#[no_mangle]
pub extern "C" fn close(fd: c_int) -> c_int {
    sim(|s| s.fds.retain(|f| *f != fd));
    original!(c"close", extern "C" fn(c_int) -> c_int)(fd)
}

#[no_mangle]
pub extern "C" fn read(fd: c_int, buf: *mut c_void, n: size_t) -> ssize_t {
    let go = |n| original!(c"read", extern "C" fn(c_int, *mut c_void, size_t) -> ssize_t)(fd, buf, n);
    let plan = sim(|s| {
        if !s.fds.contains(&fd) {
            return Ok(n);
        }
        s.enter(Call::Read, true)?;
        if s.soft && n > 1 && s.shorts < 40 && s.choices.below(2) == 1 {
            s.shorts += 1;
            return Ok(1 + s.choices.below((n as u32 - 1).min(64)) as usize);
        }
        Ok(n)
    });
    match plan {
        None => go(n),
        Some(Err(e)) => {
            fail(e);
            -1
        }
        Some(Ok(n)) => {
            let r = go(n);
            if r > 0 {
                // SAFETY: the call wrote that many bytes.
                let b = unsafe { std::slice::from_raw_parts(buf as *const u8, r as usize) };
                sim(|s| {
                    if s.fds.last() == Some(&fd) {
                        s.delivered.extend_from_slice(b);
                    }
                });
            }
            r
        }
    }
}

/// A reported size that is not the size: 0 as special files have, smaller or larger as a file that changes has.
fn lie(size: i64) -> i64 {
    sim(|s| {
        if !s.soft || s.choices.below(3) != 2 {
            return size;
        }
        s.lies += 1;
        match s.choices.below(4) {
            0 => 0,
            1 => size / 2,
            2 => size + 1,
            _ => size + 100,
        }
    })
    .unwrap_or(size)
}

fn stat_call(go: impl FnOnce() -> c_int) -> c_int {
    match sim(|s| s.enter(Call::Stat, false)) {
        Some(Err(e)) => {
            fail(e);
            -1
        }
        _ => go(),
    }
}

#[no_mangle]
pub extern "C" fn fstat64(fd: c_int, st: *mut libc::stat64) -> c_int {
    let r = stat_call(|| original!(c"fstat64", extern "C" fn(c_int, *mut libc::stat64) -> c_int)(fd, st));
    if r == 0 {
        // SAFETY: a successful call filled the structure in.
        unsafe { (*st).st_size = lie((*st).st_size) }
    }
    r
}

#[no_mangle]
pub extern "C" fn stat64(path: *const c_char, st: *mut libc::stat64) -> c_int {
    stat_call(|| original!(c"stat64", extern "C" fn(*const c_char, *mut libc::stat64) -> c_int)(path, st))
}

#[no_mangle]
pub extern "C" fn lstat64(path: *const c_char, st: *mut libc::stat64) -> c_int {
    stat_call(|| original!(c"lstat64", extern "C" fn(*const c_char, *mut libc::stat64) -> c_int)(path, st))
}

#[no_mangle]
pub extern "C" fn statx(dir: c_int, path: *const c_char, flags: c_int, mask: c_uint, st: *mut libc::statx) -> c_int {
    let r = stat_call(|| {
        original!(c"statx", extern "C" fn(c_int, *const c_char, c_int, c_uint, *mut libc::statx) -> c_int)(dir, path, flags, mask, st)
    });
    // Only a size asked of an open file is wrong; that a path is a file or directory is never.
    if r == 0 && !st.is_null() && flags & libc::AT_EMPTY_PATH != 0 {
        // SAFETY: a successful call filled the structure in.
        unsafe { (*st).stx_size = lie((*st).stx_size as i64) as u64 }
    }
    r
}

#[no_mangle]
pub extern "C" fn lseek64(fd: c_int, offset: off64_t, whence: c_int) -> off64_t {
    match sim(|s| if s.fds.contains(&fd) { s.enter(Call::Seek, false) } else { Ok(()) }) {
        Some(Err(e)) => {
            fail(e);
            -1
        }
        _ => original!(c"lseek64", extern "C" fn(c_int, off64_t, c_int) -> off64_t)(fd, offset, whence),
    }
}

#[no_mangle]
pub extern "C" fn realpath(path: *const c_char, out: *mut c_char) -> *mut c_char {
    match sim(|s| s.enter(Call::Realpath, false)) {
        Some(Err(e)) => {
            fail(e);
            std::ptr::null_mut()
        }
        _ => original!(c"realpath", extern "C" fn(*const c_char, *mut c_char) -> *mut c_char)(path, out),
    }
}

#[no_mangle]
pub extern "C" fn getcwd(buf: *mut c_char, n: size_t) -> *mut c_char {
    match sim(|s| s.enter(Call::Getcwd, false)) {
        Some(Err(e)) => {
            fail(e);
            std::ptr::null_mut()
        }
        _ => original!(c"getcwd", extern "C" fn(*mut c_char, size_t) -> *mut c_char)(buf, n),
    }
}

//! The entropy seam: random bytes that the code under test asks the operating system for are served here, if the thread has a
//! simulation, and by the C library otherwise.
use crate::rng::Rng;
use libc::{c_uint, c_void, size_t, ssize_t};
use std::cell::RefCell;

pub struct Entropy {
    rng: Rng,
    /// Bytes that are all equal but for a counter, instead of random ones.
    plain: Option<u8>,
    counter: u32,
    /// One in this many calls is interrupted, and one in this many is short; 0 for none.
    faults: u64,
    pub calls: u64,
    pub interrupted: u64,
    pub short: u64,
}

impl Entropy {
    pub fn new(seed: u64, plain: Option<u8>, faults: u64) -> Self {
        Entropy { rng: Rng::new(seed), plain, counter: 0, faults, calls: 0, interrupted: 0, short: 0 }
    }

    fn serve(&mut self, buf: &mut [u8]) -> ssize_t {
        self.calls += 1;
        let mut n = buf.len();
        if self.faults > 0 && self.rng.chance(1, self.faults) {
            self.interrupted += 1;
            // SAFETY: sets this thread's errno.
            unsafe { *libc::__errno_location() = libc::EINTR };
            return -1;
        }
        if self.faults > 0 && n > 1 && self.rng.chance(1, self.faults) {
            self.short += 1;
            n = 1 + self.rng.below(n as u64 - 1) as usize;
        }
        for block in buf[..n].chunks_mut(16) {
            self.counter += 1;
            let c = self.counter.to_be_bytes();
            for (i, b) in block.iter_mut().enumerate() {
                *b = match self.plain {
                    Some(p) if i < 12 => p,
                    Some(_) => c[i - 12],
                    None => self.rng.next() as u8,
                };
            }
        }
        n as ssize_t
    }
}

thread_local! {
    static SIM: RefCell<Option<Entropy>> = const { RefCell::new(None) };
}

/// From now on this thread's entropy comes from `e`.
pub fn install(e: Entropy) {
    SIM.with(|s| *s.borrow_mut() = Some(e));
}

pub fn take() -> Option<Entropy> {
    SIM.with(|s| s.borrow_mut().take())
}

/// # Safety
/// As for the function of the C library.
#[no_mangle]
pub unsafe extern "C" fn getrandom(buf: *mut c_void, len: size_t, flags: c_uint) -> ssize_t {
    let served = SIM.try_with(|s| match s.try_borrow_mut() {
        Ok(mut s) => s.as_mut().map(|e| if len == 0 { 0 } else { e.serve(std::slice::from_raw_parts_mut(buf.cast(), len)) }),
        Err(_) => None,
    });
    match served {
        Ok(Some(n)) => n,
        _ => libc::syscall(libc::SYS_getrandom, buf, len, flags) as ssize_t,
    }
}

//! Runs code in a process of its own, forked from this one. The code under test never runs in the parent, so that each child
//! meets it as a program does at its start: nothing initialised, nothing cached.
use std::io::Read;
use std::os::fd::FromRawFd;

pub enum End {
    Done(Vec<u8>),
    Signal(i32),
    Code(i32),
}

/// Exit code of a child whose run hangs.
pub const HANG: i32 = 97;

pub fn in_fork(f: impl FnOnce() -> Vec<u8>) -> End {
    let mut fds = [0; 2];
    // SAFETY: the array has room for both descriptors.
    assert_eq!(unsafe { libc::pipe2(fds.as_mut_ptr(), libc::O_CLOEXEC) }, 0, "pipe");
    // SAFETY: the child runs `f` alone; the C library makes its allocator usable after fork.
    let pid = unsafe { libc::fork() };
    assert!(pid >= 0, "fork");
    if pid == 0 {
        // SAFETY: plain system calls; the child never returns from here.
        unsafe {
            libc::close(fds[0]);
            libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
            let bytes = f();
            let mut at = 0;
            while at < bytes.len() {
                let n = libc::write(fds[1], bytes[at..].as_ptr().cast(), bytes.len() - at);
                if n <= 0 {
                    break;
                }
                at += n as usize;
            }
            libc::_exit(0)
        }
    }
    // SAFETY: the descriptors are this function's own.
    let mut read = unsafe {
        libc::close(fds[1]);
        std::fs::File::from_raw_fd(fds[0])
    };
    let mut bytes = Vec::new();
    let _ = read.read_to_end(&mut bytes);
    let mut status = 0;
    // SAFETY: waits for the child.
    while unsafe { libc::waitpid(pid, &mut status, 0) } < 0 {}
    if libc::WIFSIGNALED(status) {
        End::Signal(libc::WTERMSIG(status))
    } else if libc::WEXITSTATUS(status) != 0 {
        End::Code(libc::WEXITSTATUS(status))
    } else {
        End::Done(bytes)
    }
}

/// Texts as bytes and back.
pub fn pack(v: &[String]) -> Vec<u8> {
    let mut out = Vec::new();
    for s in v {
        out.extend_from_slice(&(s.len() as u32).to_le_bytes());
        out.extend_from_slice(s.as_bytes());
    }
    out
}

pub fn unpack(mut b: &[u8]) -> Vec<String> {
    let mut out = Vec::new();
    while b.len() >= 4 {
        let n = u32::from_le_bytes(b[..4].try_into().unwrap()) as usize;
        out.push(String::from_utf8_lossy(&b[4..4 + n]).into_owned());
        b = &b[4 + n..];
    }
    out
}

//! The few system calls the engine needs.
use std::ffi::c_void;
use std::io::{Read, Write};
use std::os::fd::{AsRawFd, FromRawFd};
use std::os::unix::process::CommandExt;
use std::path::Path;
use std::process::Command;
use std::sync::atomic::{AtomicU64, Ordering};

extern "C" {
    fn mmap(a: *mut c_void, n: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut c_void;
    fn setrlimit(r: i32, l: *const [u64; 2]) -> i32;
    fn prctl(o: i32, a: u64, b: u64, c: u64, d: u64) -> i32;
    fn fork() -> i32;
    fn pipe(p: *mut i32) -> i32;
    fn waitpid(p: i32, s: *mut i32, o: i32) -> i32;
    fn kill(p: i32, s: i32) -> i32;
    fn _exit(c: i32) -> !;
    fn close(fd: i32) -> i32;
    fn poll(p: *mut [i32; 2], n: u64, ms: i32) -> i32;
}
const SIZE: usize = 1 << 16;

/// A shared page that says which case a worker is on, readable after the worker has died.
pub struct Slot {
    p: *mut u8,
}
impl Slot {
    pub fn create(path: &str) -> Slot {
        let f = std::fs::OpenOptions::new().read(true).write(true).create(true).truncate(true).open(path).expect("slot");
        f.set_len(SIZE as u64).expect("slot size");
        let p = unsafe { mmap(std::ptr::null_mut(), SIZE, 3, 1, f.as_raw_fd(), 0) };
        assert!(p as isize != -1, "mmap");
        Slot { p: p as *mut u8 }
    }
    pub fn set(&mut self, s: &str) {
        let n = s.len().min(SIZE - 16);
        unsafe {
            std::ptr::copy_nonoverlapping(s.as_ptr(), self.p.add(16), n);
            (self.p.add(8) as *mut u64).write(n as u64);
        }
        self.beat();
    }
    pub fn beat(&mut self) {
        unsafe { (*(self.p as *const AtomicU64)).fetch_add(1, Ordering::SeqCst) };
    }
    pub fn read(path: &Path) -> Option<(u64, String)> {
        let b = std::fs::read(path).ok()?;
        if b.len() < SIZE {
            return None;
        }
        let seq = u64::from_ne_bytes(b[0..8].try_into().unwrap());
        let n = (u64::from_ne_bytes(b[8..16].try_into().unwrap()) as usize).min(SIZE - 16);
        Some((seq, String::from_utf8_lossy(&b[16..16 + n]).into_owned()))
    }
}

pub fn limit_memory(c: &mut Command, bytes: u64) {
    unsafe {
        c.pre_exec(move || {
            let l = [bytes, bytes];
            setrlimit(9, &l); // RLIMIT_AS
            let z = [0u64, 0u64];
            setrlimit(4, &z); // RLIMIT_CORE
            prctl(1, 9, 0, 0, 0); // die with the supervisor
            Ok(())
        });
    }
}

/// Runs `f` in a forked copy of this process and returns what it said, or how it died.
/// Only for single-threaded callers.
pub fn in_child(f: impl FnOnce() -> String) -> Result<String, String> {
    in_child_limit(f, 0).unwrap_or_else(|| Err("no answer".into()))
}

/// The same with a time limit in seconds (0: none); `None` when the time ran out.
pub fn in_child_limit(f: impl FnOnce() -> String, secs: u64) -> Option<Result<String, String>> {
    let mut p = [0i32; 2];
    unsafe {
        assert_eq!(pipe(p.as_mut_ptr()), 0, "pipe");
        let k = fork();
        assert!(k >= 0, "fork");
        if k == 0 {
            prctl(1, 9, 0, 0, 0);
            close(p[0]);
            let s = f();
            let mut w = std::fs::File::from_raw_fd(p[1]);
            let _ = w.write_all(format!("={s}").as_bytes());
            drop(w);
            _exit(0)
        }
        close(p[1]);
        let mut r = std::fs::File::from_raw_fd(p[0]);
        let mut st = 0;
        if secs > 0 {
            let mut fd = [p[0], 1]; // POLLIN
            if poll(&mut fd, 1, (secs * 1000) as i32) == 0 {
                kill(k, 9);
                waitpid(k, &mut st, 0);
                return None;
            }
        }
        let mut s = String::new();
        let read = r.read_to_string(&mut s);
        waitpid(k, &mut st, 0);
        Some(match (read, s.strip_prefix('=')) {
            (Ok(_), Some(s)) if st == 0 => Ok(s.to_string()),
            _ => Err(format!("the process died with status {st}")),
        })
    }
}

//! The few operating-system facilities the engine needs, declared by hand (no dependencies).

#![allow(non_camel_case_types)]

use std::ffi::{c_int, c_long, c_void};
use std::sync::atomic::{AtomicPtr, Ordering};

unsafe extern "C" {
  pub fn fork() -> c_int;
  pub fn waitpid(pid: c_int, status: *mut c_int, options: c_int) -> c_int;
  pub fn _exit(code: c_int) -> !;
  pub fn kill(pid: c_int, sig: c_int) -> c_int;
  fn mmap(addr: *mut c_void, len: usize, prot: c_int, flags: c_int, fd: c_int, off: c_long) -> *mut c_void;
  fn setitimer(which: c_int, new: *const itimerval, old: *mut itimerval) -> c_int;
  fn setrlimit(res: c_int, lim: *const rlimit) -> c_int;
  fn sched_setaffinity(pid: c_int, size: usize, mask: *const u64) -> c_int;
  fn sched_getaffinity(pid: c_int, size: usize, mask: *mut u64) -> c_int;
  pub fn dup2(a: c_int, b: c_int) -> c_int;
  fn prctl(op: c_int, a: usize, b: usize, c: usize, d: usize) -> c_int;
}

#[repr(C)]
struct timeval {
  sec: c_long,
  usec: c_long,
}
#[repr(C)]
struct itimerval {
  interval: timeval,
  value: timeval,
}
#[repr(C)]
struct rlimit {
  cur: u64,
  max: u64,
}

pub const WNOHANG: c_int = 1;
pub const SIGKILL: c_int = 9;
pub const SIGPROF: c_int = 27;

/// What a shard shares with its parent while running.
#[repr(C)]
pub struct Shm {
  pub seed: u64,
  pub runs: u64,
  pub in_run: u64,
  pub tape_len: u64,
  pub result: u64,
  pub class_len: u64,
  pub span_len: u64,
  pub class: [u8; 256],
  pub tape: [u32; crate::MAX_TAPE],
  pub spans: [(u32, u32); 1 << 15],
}

static SHM: AtomicPtr<Shm> = AtomicPtr::new(std::ptr::null_mut());

/// A zeroed mapping shared across `fork`.
pub fn new_shm() -> *mut Shm {
  // SAFETY: anonymous mapping of a plain-old-data struct.
  let p = unsafe { mmap(std::ptr::null_mut(), size_of::<Shm>(), 3, 0x21, -1, 0) };
  assert!(p as isize != -1, "mmap failed");
  p.cast()
}

pub fn set_shm(p: *mut Shm) {
  SHM.store(p, Ordering::Relaxed);
}

pub fn shm_tape(pos: usize, v: u32) {
  let p = SHM.load(Ordering::Relaxed);
  if !p.is_null() && pos < crate::MAX_TAPE {
    // SAFETY: the mapping lives as long as the process; only this process writes it.
    unsafe {
      (&raw mut (*p).tape[pos]).write_volatile(v);
      (&raw mut (*p).tape_len).write_volatile(pos as u64 + 1);
    }
  }
}

/// (Re-)arms the CPU-time limit of the current run; its expiry kills the process with SIGPROF.
pub fn arm_cpu_limit(secs: i64) {
  let it = itimerval { interval: timeval { sec: 0, usec: 0 }, value: timeval { sec: secs, usec: 0 } };
  // SAFETY: valid pointers.
  unsafe { setitimer(2, &raw const it, std::ptr::null_mut()) };
}

pub fn limit_memory(bytes: u64) {
  let l = rlimit { cur: bytes, max: bytes };
  // SAFETY: valid pointer. 9 = RLIMIT_AS
  unsafe { setrlimit(9, &raw const l) };
  let z = rlimit { cur: 0, max: 0 };
  // SAFETY: valid pointer. 4 = RLIMIT_CORE
  unsafe { setrlimit(4, &raw const z) };
}

/// Pins the process to the `k`-th of the CPUs it may use: hand-overs between simulated threads are
/// then cheap. Affects speed only.
pub fn pin(k: usize) {
  let mut mask = [0u64; 16];
  // SAFETY: the buffer is 128 bytes.
  let n = unsafe { sched_getaffinity(0, 128, mask.as_mut_ptr()) };
  if n <= 0 {
    return;
  }
  let cpus: Vec<usize> = (0..1024).filter(|&i| mask[i / 64] >> (i % 64) & 1 == 1).collect();
  if cpus.is_empty() {
    return;
  }
  let c = cpus[k % cpus.len()];
  let mut m = [0u64; 16];
  m[c / 64] |= 1 << (c % 64);
  // SAFETY: the buffer is 128 bytes.
  unsafe { sched_setaffinity(0, 128, m.as_ptr()) };
}

pub fn die_with_parent() {
  // SAFETY: PR_SET_PDEATHSIG takes a signal number.
  unsafe { prctl(1, SIGKILL as usize, 0, 0, 0) };
}

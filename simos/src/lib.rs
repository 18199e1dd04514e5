//! A simulated operating-system layer below the Rust standard library.
//!
//! A binary that links this crate defines the libc entry points the standard library uses for
//! files, directories, clocks and random bytes. Calls on paths below [`PREFIX`] and on descriptors
//! made from them go to an in-memory disk with seeded faults; everything else is passed to the
//! kernel unchanged. The decision is made from the path or descriptor alone.
//!
//! The code under test and the standard library above libc are the real ones.

#![allow(clippy::missing_safety_doc)]
#![allow(non_camel_case_types)]
#![allow(invalid_runtime_symbol_definitions)]

use std::arch::asm;
use std::cell::Cell;
use std::collections::BTreeMap;
use std::ffi::{CStr, c_char, c_int, c_long, c_void};
use std::sync::atomic::{AtomicBool, Ordering};
use std::sync::{Arc, Mutex, MutexGuard};

/// Paths at or below this one are simulated.
pub const PREFIX: &[u8] = b"/simfs";
const FD_BASE: c_int = 1 << 28;

// --- the disk --------------------------------------------------------------------------------

pub type Inode = Arc<Mutex<Vec<u8>>>;

#[derive(Clone, Debug)]
pub enum Node {
  File { data: Inode, readable: bool, writable: bool },
  Dir,
  Fifo,
  Link(String),
}

impl Node {
  pub fn file(data: &[u8]) -> Node {
    Node::File { data: Arc::new(Mutex::new(data.to_vec())), readable: true, writable: true }
  }
}

#[derive(Default, Clone, Debug)]
pub struct Disk {
  pub nodes: BTreeMap<String, Node>,
}

impl Disk {
  pub fn content(&self, path: &str) -> Option<Vec<u8>> {
    match self.nodes.get(path) {
      Some(Node::File { data, .. }) => Some(data.lock().unwrap().clone()),
      _ => None,
    }
  }
  /// Replaces the name with a fresh file, as a rename over it does.
  pub fn replace(&mut self, path: &str, data: &[u8]) {
    self.nodes.insert(path.to_owned(), Node::file(data));
  }
  /// Where a path leads. Links before the last component are followed, a link at the last one
  /// only if `follow`. The last component need not exist.
  pub fn walk(&self, path: &str, follow: bool) -> Result<String, c_int> {
    let mut todo: Vec<String> =
      path.split('/').rev().filter(|c| !c.is_empty()).map(str::to_owned).collect();
    let mut at = String::new();
    let mut links = 0;
    while let Some(c) = todo.pop() {
      match c.as_str() {
        "." => {}
        ".." => at.truncate(at.rfind('/').unwrap_or(0)),
        c => {
          let next = format!("{at}/{c}");
          match self.nodes.get(&next) {
            Some(Node::Link(to)) if follow || !todo.is_empty() => {
              links += 1;
              if links > 40 {
                return Err(ELOOP);
              }
              if to.starts_with('/') {
                at.clear();
              }
              todo.extend(to.split('/').rev().filter(|c| !c.is_empty()).map(str::to_owned));
            }
            Some(Node::Dir) => at = next,
            _ if todo.is_empty() => return Ok(next),
            Some(_) => return Err(ENOTDIR),
            None => return Err(ENOENT),
          }
        }
      }
    }
    Ok(at)
  }
  pub fn children(&self, dir: &str) -> Vec<String> {
    let pre = format!("{dir}/");
    self
      .nodes
      .keys()
      .filter_map(|k| k.strip_prefix(&pre))
      .filter(|k| !k.contains('/'))
      .map(str::to_owned)
      .collect()
  }
}

struct Open {
  data: Option<Inode>,
  pos: u64,
  append: bool,
  can_read: bool,
  can_write: bool,
}

struct DirStream {
  names: Vec<(String, u8)>,
  at: usize,
  dir: String,
  /// names already handed out
  given: Vec<String>,
  buf: Box<[u64; 64]>,
}

/// Rates are out of 256, drawn at each call.
#[derive(Clone, Debug, Default)]
pub struct Faults {
  pub eintr: u64,
  pub short: u64,
  pub io_error: u64,
  pub open_error: u64,
  pub stat_error: u64,
  pub size_lie: u64,
  pub no_space: u64,
  pub readdir_error: u64,
  pub unknown_type: u64,
  /// Every call from this one on fails and nothing is written any more.
  pub crash_at: Option<u64>,
  /// The environment gets to act before a call with this rate.
  pub env: u64,
  /// At most this many hard faults.
  pub max_hard: u64,
}

pub type EnvFn = Box<dyn FnMut(&mut Disk) + Send>;

pub struct World {
  pub disk: Disk,
  pub faults: Faults,
  pub env: Option<EnvFn>,
  pub calls: u64,
  pub hard: u64,
  pub soft: u64,
  pub stats_ok: u64,
  pub stats_failed: u64,
  /// Whether files whose status is asked for by path may have any size at all.
  pub any_size: bool,
  pub crashed: bool,
  pub cwd: Result<Vec<u8>, c_int>,
  open: BTreeMap<c_int, Open>,
  dirs: BTreeMap<usize, DirStream>,
  next_fd: c_int,
  next_dir: usize,
}

static WORLD: Mutex<Option<Box<World>>> = Mutex::new(None);
static CWD: AtomicBool = AtomicBool::new(false);

fn lock() -> MutexGuard<'static, Option<Box<World>>> {
  WORLD.lock().unwrap_or_else(std::sync::PoisonError::into_inner)
}

/// Starts a fresh world with a disk.
pub fn boot(disk: Disk, faults: Faults) {
  let w = World {
    disk,
    faults,
    env: None,
    calls: 0,
    hard: 0,
    soft: 0,
    stats_ok: 0,
    stats_failed: 0,
    any_size: false,
    crashed: false,
    cwd: Ok(b"/simfs".to_vec()),
    open: BTreeMap::new(),
    dirs: BTreeMap::new(),
    next_fd: FD_BASE,
    next_dir: 1,
  };
  *lock() = Some(Box::new(w));
}

pub fn with<R>(f: impl FnOnce(&mut World) -> R) -> R {
  f(lock().as_mut().expect("no simulated world"))
}

/// Ends the world and returns its disk and the number of descriptors left open.
pub fn halt() -> (Disk, usize) {
  CWD.store(false, Ordering::Relaxed);
  let w = lock().take().expect("no simulated world");
  (w.disk, w.open.len())
}

/// Whether `getcwd` is simulated.
pub fn simulate_cwd(on: bool) {
  CWD.store(on, Ordering::Relaxed);
}

impl World {
  /// Counts one call; lets the environment act; decides about a crash.
  fn enter(&mut self, what: &str) -> Result<(), c_int> {
    self.calls += 1;
    if self.crashed {
      return Err(EIO);
    }
    if self.faults.crash_at.is_some_and(|c| self.calls >= c) {
      self.crashed = true;
      vsim::fault("crash");
      return Err(EIO);
    }
    if self.env.is_some() && vsim::chance(self.faults.env, 256) {
      let mut e = self.env.take().unwrap();
      e(&mut self.disk);
      self.env = Some(e);
    }
    vsim::ev!("os {what}");
    Ok(())
  }
  fn hard(&mut self, rate: u64, kind: &'static str) -> bool {
    if self.hard < self.faults.max_hard && vsim::chance(rate, 256) {
      self.hard += 1;
      vsim::fault(kind);
      true
    } else {
      false
    }
  }
  fn soft(&mut self, rate: u64, kind: &'static str) -> bool {
    if vsim::chance(rate, 256) {
      self.soft += 1;
      vsim::fault(kind);
      true
    } else {
      false
    }
  }

  fn open(&mut self, path: &str, flags: c_int) -> Result<c_int, c_int> {
    self.enter(&format!("open {path} {flags:#o}"))?;
    if self.soft(self.faults.eintr, "EINTR on open") {
      return Err(EINTR);
    }
    if self.hard(self.faults.open_error, "open failed") {
      return Err(vsim::pick(&OPEN_ERRORS));
    }
    let acc = flags & 3;
    let p = self.disk.walk(path, true)?;
    if path.ends_with('/') {
      match self.disk.nodes.get(&p) {
        Some(Node::Dir) => {}
        Some(_) => return Err(ENOTDIR),
        None => return Err(if flags & O_CREAT == 0 { ENOENT } else { EISDIR }),
      }
    }
    let exists = self.disk.nodes.contains_key(&p);
    if !exists {
      if flags & O_CREAT == 0 {
        return Err(ENOENT);
      }
      if self.hard(self.faults.no_space, "ENOSPC on create") {
        return Err(ENOSPC);
      }
      self.disk.nodes.insert(p.clone(), Node::file(b""));
    } else if flags & O_CREAT != 0 && flags & O_EXCL != 0 {
      return Err(EEXIST);
    }
    let data = match self.disk.nodes.get(&p) {
      Some(Node::File { data, readable, writable }) => {
        if (acc != 1 && !readable) || (acc != 0 && !writable) {
          return Err(EACCES);
        }
        if flags & O_TRUNC != 0 && acc != 0 {
          data.lock().unwrap().clear();
        }
        Some(data.clone())
      }
      Some(Node::Dir) => {
        if acc != 0 {
          return Err(EISDIR);
        }
        None
      }
      _ => return Err(ENXIO),
    };
    if flags & O_DIRECTORY != 0 && data.is_some() {
      return Err(ENOTDIR);
    }
    let fd = self.next_fd;
    self.next_fd += 1;
    self.open.insert(
      fd,
      Open { data, pos: 0, append: flags & O_APPEND != 0, can_read: acc != 1, can_write: acc != 0 },
    );
    Ok(fd)
  }

  fn read(&mut self, fd: c_int, n: usize, at: Option<u64>) -> Result<Vec<u8>, c_int> {
    self.enter(&format!("read {} of at most {n}", fd - FD_BASE))?;
    let f = self.open.get(&fd).ok_or(EBADF)?;
    if !f.can_read {
      return Err(EBADF);
    }
    let data = f.data.clone().ok_or(EISDIR)?;
    let pos = at.unwrap_or(f.pos);
    let size = data.lock().unwrap().len();
    let start = (pos as usize).min(size);
    let mut len = n.min(size - start);
    if self.soft(self.faults.eintr, "EINTR on read") {
      return Err(EINTR);
    }
    if self.hard(self.faults.io_error, "I/O error on read") {
      return Err(vsim::pick(&READ_ERRORS));
    }
    if len > 1 && self.soft(self.faults.short, "short read") {
      len = vsim::range(1, len as u64 - 1) as usize;
    }
    if at.is_none() {
      self.open.get_mut(&fd).unwrap().pos = pos + len as u64;
    }
    let ret = data.lock().unwrap()[start..start + len].to_vec();
    Ok(ret)
  }

  fn write(&mut self, fd: c_int, buf: &[u8], at: Option<u64>) -> Result<usize, c_int> {
    self.enter(&format!("write {} of {}", fd - FD_BASE, buf.len()))?;
    let f = self.open.get(&fd).ok_or(EBADF)?;
    if !f.can_write {
      return Err(EBADF);
    }
    let data = f.data.clone().ok_or(EBADF)?;
    let append = f.append;
    let mut pos = at.unwrap_or(f.pos) as usize;
    if self.soft(self.faults.eintr, "EINTR on write") {
      return Err(EINTR);
    }
    if self.hard(self.faults.io_error, "I/O error on write") {
      return Err(vsim::pick(&WRITE_ERRORS));
    }
    if self.hard(self.faults.no_space, "ENOSPC on write") {
      // a full disk first takes what fits
      return Err(vsim::pick(&[ENOSPC, ENOSPC, EDQUOT]));
    }
    let mut len = buf.len();
    if len > 1 && self.soft(self.faults.short, "short write") {
      len = vsim::range(1, len as u64 - 1) as usize;
    }
    let mut d = data.lock().unwrap();
    if append {
      pos = d.len();
    }
    if d.len() < pos + len {
      d.resize(pos + len, 0);
    }
    d[pos..pos + len].copy_from_slice(&buf[..len]);
    drop(d);
    if at.is_none() {
      self.open.get_mut(&fd).unwrap().pos = (pos + len) as u64;
    }
    Ok(len)
  }

  /// (mode, size, inode number)
  fn stat_node(&mut self, node: &Node, fd_based: bool) -> (u32, u64) {
    match node {
      Node::File { data, .. } => {
        let mut n = data.lock().unwrap().len() as u64;
        if fd_based && self.soft(self.faults.size_lie, "wrong size reported") {
          n = vsim::range(0, 2 * n + 16);
        }
        (0o100_644, n)
      }
      Node::Dir => (0o040_755, 4096),
      Node::Fifo => (0o010_644, 0),
      Node::Link(t) => (0o120_777, t.len() as u64),
    }
  }

  fn stat_fd(&mut self, fd: c_int) -> Result<(u32, u64), c_int> {
    self.enter(&format!("fstat {}", fd - FD_BASE))?;
    if self.hard(self.faults.stat_error, "fstat failed") {
      self.stats_failed += 1;
      return Err(vsim::pick(&STAT_ERRORS));
    }
    let f = self.open.get(&fd).ok_or(EBADF)?;
    let node = match &f.data {
      Some(d) => Node::File { data: d.clone(), readable: true, writable: true },
      None => Node::Dir,
    };
    self.stats_ok += 1;
    Ok(self.stat_node(&node, true))
  }

  fn stat_path(&mut self, path: &str, follow: bool) -> Result<(u32, u64), c_int> {
    self.enter(&format!("stat {path}"))?;
    if self.hard(self.faults.stat_error, "stat failed") {
      self.stats_failed += 1;
      return Err(vsim::pick(&STAT_ERRORS));
    }
    let p = self.disk.walk(path, follow || path.ends_with('/'))?;
    let node = self.disk.nodes.get(&p).cloned().ok_or(ENOENT)?;
    if path.ends_with('/') && !matches!(node, Node::Dir) {
      return Err(ENOTDIR);
    }
    self.stats_ok += 1;
    let (mode, mut size) = self.stat_node(&node, false);
    if self.any_size && vsim::chance(1, 8) {
      size = vsim::pick(&[0, 1 << 31, 1 << 32, 1 << 53, i64::MAX as u64]);
      vsim::fault("a file of any size");
    }
    Ok((mode, size))
  }

  fn opendir(&mut self, path: &str) -> Result<usize, c_int> {
    self.enter(&format!("opendir {path}"))?;
    if self.hard(self.faults.open_error, "opendir failed") {
      return Err(vsim::pick(&OPEN_ERRORS));
    }
    let p = self.disk.walk(path, true)?;
    match self.disk.nodes.get(&p) {
      Some(Node::Dir) => {}
      Some(_) => return Err(ENOTDIR),
      None => return Err(ENOENT),
    }
    let mut names: Vec<(String, u8)> = vec![(".".into(), 4), ("..".into(), 4)];
    for c in self.disk.children(&p) {
      names.push((c, 0));
    }
    // the order is arbitrary
    for i in (1..names.len()).rev() {
      let j = i - vsim::choose(i + 1);
      names.swap(i, j);
    }
    let id = self.next_dir;
    self.next_dir += 1;
    self.dirs.insert(
      id,
      DirStream { names, at: 0, dir: p, given: Vec::new(), buf: Box::new([0; 64]) },
    );
    Ok(id)
  }

  /// The next entry, `Ok(None)` at the end.
  fn readdir(&mut self, id: usize) -> Result<Option<*mut c_void>, c_int> {
    self.enter("readdir")?;
    if self.hard(self.faults.readdir_error, "readdir failed") {
      return Err(vsim::pick(&READDIR_ERRORS));
    }
    let unknown = self.soft(self.faults.unknown_type, "entry of unknown type");
    let World { dirs, disk, .. } = self;
    let d = dirs.get_mut(&id).ok_or(EBADF)?;
    loop {
      if d.at >= d.names.len() {
        // entries added since may or may not show up; here they do
        let new: Vec<String> = disk
          .children(&d.dir)
          .into_iter()
          .filter(|c| !d.names.iter().any(|n| n.0 == *c) && !d.given.contains(c))
          .collect();
        if new.is_empty() || !vsim::chance(1, 2) {
          return Ok(None);
        }
        d.names.extend(new.into_iter().map(|c| (c, 0)));
      }
      let (name, _) = d.names[d.at].clone();
      d.at += 1;
      let full = format!("{}/{name}", d.dir);
      let dots = name == "." || name == "..";
      let ty = match disk.nodes.get(&full) {
        _ if dots => 4,
        Some(Node::File { .. }) => 8,
        Some(Node::Dir) => 4,
        Some(Node::Fifo) => 1,
        Some(Node::Link(_)) => 10,
        // removed meanwhile: it may still be listed, or not
        None => {
          if vsim::chance(1, 2) {
            continue;
          }
          0
        }
      };
      d.given.push(name.clone());
      let name = raw(&name);
      let bytes: &mut [u8] =
        // SAFETY: a buffer of 512 plain bytes.
        unsafe { std::slice::from_raw_parts_mut(d.buf.as_mut_ptr().cast(), 512) };
      bytes.fill(0);
      bytes[0..8].copy_from_slice(&7u64.to_le_bytes());
      bytes[8..16].copy_from_slice(&(d.at as u64).to_le_bytes());
      bytes[16..18].copy_from_slice(&((19 + name.len() + 1) as u16).to_le_bytes());
      bytes[18] = if unknown { 0 } else { ty };
      bytes[19..19 + name.len()].copy_from_slice(&name);
      return Ok(Some(bytes.as_mut_ptr().cast()));
    }
  }
}

// --- errno and raw system calls --------------------------------------------------------------

pub const ENOENT: c_int = 2;
pub const EINTR: c_int = 4;
pub const EIO: c_int = 5;
pub const ENXIO: c_int = 6;
pub const EBADF: c_int = 9;
pub const ENOMEM: c_int = 12;
pub const EACCES: c_int = 13;
pub const EEXIST: c_int = 17;
pub const ENOTDIR: c_int = 20;
pub const EISDIR: c_int = 21;
pub const EINVAL: c_int = 22;
pub const EMFILE: c_int = 24;
pub const ENOSPC: c_int = 28;
pub const ERANGE: c_int = 34;
pub const ENOSYS: c_int = 38;
pub const ENOTEMPTY: c_int = 39;
pub const ELOOP: c_int = 40;
pub const EXDEV: c_int = 18;
pub const EPERM: c_int = 1;
pub const EAGAIN: c_int = 11;
pub const EBUSY: c_int = 16;
pub const ENODEV: c_int = 19;
pub const ENFILE: c_int = 23;
pub const EFBIG: c_int = 27;
pub const EROFS: c_int = 30;
pub const EPIPE: c_int = 32;
pub const ENAMETOOLONG: c_int = 36;
pub const ENODATA: c_int = 61;
pub const EOVERFLOW: c_int = 75;
pub const ENOBUFS: c_int = 105;
pub const ETIMEDOUT: c_int = 110;
pub const ESTALE: c_int = 116;
pub const EUCLEAN: c_int = 117;
pub const EDQUOT: c_int = 122;
/// What a call may fail with, on one kind of file system or another.
const OPEN_ERRORS: [c_int; 18] = [
  EACCES, EMFILE, EIO, ENOENT, EPERM, ENOTDIR, ELOOP, ENOMEM, ENFILE, EBUSY, ENODEV, ENAMETOOLONG, EOVERFLOW, EAGAIN,
  ETIMEDOUT, ESTALE, EROFS, EUCLEAN,
];
const READ_ERRORS: [c_int; 9] =
  [EIO, EIO, EAGAIN, ETIMEDOUT, ESTALE, ENOMEM, ENODATA, EUCLEAN, ENOBUFS];
const WRITE_ERRORS: [c_int; 9] =
  [EIO, EIO, EAGAIN, ETIMEDOUT, ESTALE, ENOMEM, EFBIG, EPIPE, EROFS];
const STAT_ERRORS: [c_int; 10] =
  [EACCES, EIO, ENOMEM, ENOENT, ENOTDIR, ELOOP, EOVERFLOW, ETIMEDOUT, ESTALE, ENAMETOOLONG];
const READDIR_ERRORS: [c_int; 7] = [EIO, EIO, EOVERFLOW, ENOENT, ESTALE, ETIMEDOUT, ENOMEM];
const O_CREAT: c_int = 0o100;
const O_EXCL: c_int = 0o200;
const O_TRUNC: c_int = 0o1000;
const O_APPEND: c_int = 0o2000;
const O_DIRECTORY: c_int = 0o200_000;

unsafe extern "C" {
  fn __errno_location() -> *mut c_int;
  fn dlsym(h: *mut c_void, name: *const c_char) -> *mut c_void;
  fn malloc(n: usize) -> *mut c_void;
}

fn fail(e: c_int) -> c_int {
  // SAFETY: thread-local errno.
  unsafe { *__errno_location() = e };
  -1
}

unsafe fn sys6(n: c_long, a: usize, b: usize, c: usize, d: usize, e: usize, f: usize) -> isize {
  let r: isize;
  unsafe {
    asm!("syscall", inlateout("rax") n as isize => r, in("rdi") a, in("rsi") b, in("rdx") c,
         in("r10") d, in("r8") e, in("r9") f, lateout("rcx") _, lateout("r11") _);
  }
  r
}
fn ret(r: isize) -> isize {
  if r < 0 && r > -4096 {
    fail(-r as c_int);
    -1
  } else {
    r
  }
}
unsafe fn sys(n: c_long, a: usize, b: usize, c: usize, d: usize) -> isize {
  ret(unsafe { sys6(n, a, b, c, d, 0, 0) })
}

/// Names on the simulated disk are strings; U+F780..=U+F7FF in them stand for the bytes 0x80..=0xff
/// that are not part of valid UTF-8.
pub fn raw(s: &str) -> Vec<u8> {
  let mut ret = Vec::with_capacity(s.len());
  for c in s.chars() {
    match u32::from(c) {
      x @ 0xf780..=0xf7ff => ret.push((x - 0xf700) as u8),
      _ => ret.extend_from_slice(c.encode_utf8(&mut [0; 4]).as_bytes()),
    }
  }
  ret
}

static COOKED: Mutex<BTreeMap<Vec<u8>, &'static str>> = Mutex::new(BTreeMap::new());

/// The inverse of `raw`. There are few ill-formed names; they are kept for good.
fn cooked<'a>(b: &'a [u8]) -> &'a str {
  if let Ok(s) = std::str::from_utf8(b) {
    return s;
  }
  let mut g = COOKED.lock().unwrap_or_else(std::sync::PoisonError::into_inner);
  if let Some(s) = g.get(b) {
    return s;
  }
  let mut s = String::new();
  for c in b.utf8_chunks() {
    s.push_str(c.valid());
    s.extend(c.invalid().iter().map(|&x| char::from_u32(0xf700 + u32::from(x)).expect("private use")));
  }
  let s: &'static str = s.leak();
  g.insert(b.to_vec(), s);
  s
}

unsafe fn virt<'a>(p: *const c_char) -> Option<&'a str> {
  if p.is_null() {
    return None;
  }
  let b = unsafe { CStr::from_ptr(p) }.to_bytes();
  if b.starts_with(PREFIX) && (b.len() == PREFIX.len() || b[PREFIX.len()] == b'/') {
    Some(cooked(b))
  } else {
    None
  }
}
fn virt_fd(fd: c_int) -> bool {
  fd >= FD_BASE
}
fn live<R>(f: impl FnOnce(&mut World) -> Result<R, c_int>) -> Result<R, c_int> {
  match lock().as_mut() {
    Some(w) => f(w),
    None => Err(EIO),
  }
}
fn out(r: Result<isize, c_int>) -> isize {
  match r {
    Ok(x) => x,
    Err(e) => fail(e) as isize,
  }
}

unsafe fn next(name: &CStr) -> *mut c_void {
  // -1 = RTLD_NEXT
  unsafe { dlsym(usize::MAX as *mut c_void, name.as_ptr()) }
}

// --- files -----------------------------------------------------------------------------------

#[unsafe(no_mangle)]
pub unsafe extern "C" fn open64(p: *const c_char, flags: c_int, mode: u32) -> c_int {
  unsafe {
    match virt(p) {
      Some(s) => out(live(|w| w.open(s, flags)).map(|x| x as isize)) as c_int,
      None => sys(257, -100isize as usize, p as usize, flags as usize, mode as usize) as c_int,
    }
  }
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn open(p: *const c_char, flags: c_int, mode: u32) -> c_int {
  unsafe { open64(p, flags, mode) }
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn openat64(d: c_int, p: *const c_char, flags: c_int, mode: u32) -> c_int {
  unsafe {
    match virt(p) {
      Some(_) => open64(p, flags, mode),
      None => sys(257, d as isize as usize, p as usize, flags as usize, mode as usize) as c_int,
    }
  }
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn openat(d: c_int, p: *const c_char, flags: c_int, mode: u32) -> c_int {
  unsafe { openat64(d, p, flags, mode) }
}

unsafe fn do_read(fd: c_int, buf: *mut u8, n: usize, at: Option<u64>) -> isize {
  out(live(|w| w.read(fd, n, at)).map(|v| {
    unsafe { std::ptr::copy_nonoverlapping(v.as_ptr(), buf, v.len()) };
    v.len() as isize
  }))
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn read(fd: c_int, buf: *mut c_void, n: usize) -> isize {
  unsafe {
    if virt_fd(fd) { do_read(fd, buf.cast(), n, None) } else { sys(0, fd as usize, buf as usize, n, 0) }
  }
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn pread64(fd: c_int, buf: *mut c_void, n: usize, off: i64) -> isize {
  unsafe {
    if virt_fd(fd) {
      do_read(fd, buf.cast(), n, Some(off as u64))
    } else {
      sys(17, fd as usize, buf as usize, n, off as usize)
    }
  }
}
#[repr(C)]
pub struct iovec {
  base: *mut c_void,
  len: usize,
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn readv(fd: c_int, iov: *const iovec, n: c_int) -> isize {
  unsafe {
    if virt_fd(fd) {
      for i in 0..n as usize {
        let v = &*iov.add(i);
        if v.len > 0 {
          return do_read(fd, v.base.cast(), v.len, None);
        }
      }
      0
    } else {
      sys(19, fd as usize, iov as usize, n as usize, 0)
    }
  }
}
unsafe fn do_write(fd: c_int, buf: *const u8, n: usize, at: Option<u64>) -> isize {
  let b = unsafe { std::slice::from_raw_parts(buf, n) };
  out(live(|w| w.write(fd, b, at)).map(|x| x as isize))
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn write(fd: c_int, buf: *const c_void, n: usize) -> isize {
  unsafe {
    if virt_fd(fd) { do_write(fd, buf.cast(), n, None) } else { sys(1, fd as usize, buf as usize, n, 0) }
  }
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn pwrite64(fd: c_int, buf: *const c_void, n: usize, off: i64) -> isize {
  unsafe {
    if virt_fd(fd) {
      do_write(fd, buf.cast(), n, Some(off as u64))
    } else {
      sys(18, fd as usize, buf as usize, n, off as usize)
    }
  }
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn writev(fd: c_int, iov: *const iovec, n: c_int) -> isize {
  unsafe {
    if virt_fd(fd) {
      for i in 0..n as usize {
        let v = &*iov.add(i);
        if v.len > 0 {
          return do_write(fd, v.base.cast(), v.len, None);
        }
      }
      0
    } else {
      sys(20, fd as usize, iov as usize, n as usize, 0)
    }
  }
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn close(fd: c_int) -> c_int {
  unsafe {
    if virt_fd(fd) {
      out(live(|w| {
        let _ = w.enter(&format!("close {}", fd - FD_BASE));
        w.open.remove(&fd).map(|_| 0).ok_or(EBADF)
      })) as c_int
    } else {
      sys(3, fd as usize, 0, 0, 0) as c_int
    }
  }
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn lseek64(fd: c_int, off: i64, whence: c_int) -> i64 {
  unsafe {
    if virt_fd(fd) {
      out(live(|w| {
        w.enter(&format!("lseek {}", fd - FD_BASE))?;
        let f = w.open.get_mut(&fd).ok_or(EBADF)?;
        let len = f.data.as_ref().map_or(0, |d| d.lock().unwrap().len()) as i64;
        let base = match whence {
          0 => 0,
          1 => f.pos as i64,
          _ => len,
        };
        let p = base + off;
        if p < 0 {
          return Err(EINVAL);
        }
        f.pos = p as u64;
        Ok(p as isize)
      })) as i64
    } else {
      sys(8, fd as usize, off as usize, whence as usize, 0) as i64
    }
  }
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn lseek(fd: c_int, off: i64, whence: c_int) -> i64 {
  unsafe { lseek64(fd, off, whence) }
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn ftruncate64(fd: c_int, len: i64) -> c_int {
  unsafe {
    if virt_fd(fd) {
      out(live(|w| {
        w.enter(&format!("ftruncate {} to {len}", fd - FD_BASE))?;
        if w.hard(w.faults.io_error, "EIO on truncate") {
          return Err(EIO);
        }
        let f = w.open.get(&fd).ok_or(EBADF)?;
        if !f.can_write {
          return Err(EINVAL);
        }
        f.data.as_ref().ok_or(EINVAL)?.lock().unwrap().resize(len as usize, 0);
        Ok(0)
      })) as c_int
    } else {
      sys(77, fd as usize, len as usize, 0, 0) as c_int
    }
  }
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn ftruncate(fd: c_int, len: i64) -> c_int {
  unsafe { ftruncate64(fd, len) }
}
unsafe fn sync(fd: c_int, n: c_long) -> c_int {
  unsafe {
    if virt_fd(fd) {
      out(live(|w| {
        w.enter(&format!("fsync {}", fd - FD_BASE))?;
        if w.soft(w.faults.eintr, "EINTR on fsync") {
          return Err(EINTR);
        }
        if w.hard(w.faults.io_error, "EIO on fsync") {
          return Err(EIO);
        }
        w.open.get(&fd).map(|_| 0).ok_or(EBADF)
      })) as c_int
    } else {
      sys(n, fd as usize, 0, 0, 0) as c_int
    }
  }
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn fsync(fd: c_int) -> c_int {
  unsafe { sync(fd, 74) }
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn fdatasync(fd: c_int) -> c_int {
  unsafe { sync(fd, 75) }
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn fcntl(fd: c_int, cmd: c_int, arg: usize) -> c_int {
  unsafe {
    if virt_fd(fd) {
      match cmd {
        // F_DUPFD, F_DUPFD_CLOEXEC
        0 | 1030 => out(live(|w| {
          w.enter("dup")?;
          let f = w.open.get(&fd).ok_or(EBADF)?;
          let (data, pos, append, r, wr) =
            (f.data.clone(), f.pos, f.append, f.can_read, f.can_write);
          let n = w.next_fd;
          w.next_fd += 1;
          w.open.insert(n, Open { data, pos, append, can_read: r, can_write: wr });
          Ok(n as isize)
        })) as c_int,
        _ => 0,
      }
    } else {
      sys(72, fd as usize, cmd as usize, arg, 0) as c_int
    }
  }
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn fcntl64(fd: c_int, cmd: c_int, arg: usize) -> c_int {
  unsafe { fcntl(fd, cmd, arg) }
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn copy_file_range(
  a: c_int, ao: *mut i64, b: c_int, bo: *mut i64, n: usize, fl: u32,
) -> isize {
  if virt_fd(a) || virt_fd(b) {
    return fail(EXDEV) as isize;
  }
  ret(unsafe { sys6(326, a as usize, ao as usize, b as usize, bo as usize, n, fl as usize) })
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn sendfile64(a: c_int, b: c_int, off: *mut i64, n: usize) -> isize {
  if virt_fd(a) || virt_fd(b) {
    return fail(EINVAL) as isize;
  }
  unsafe { sys(40, a as usize, b as usize, off as usize, n) }
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn posix_fadvise64(fd: c_int, a: i64, b: i64, c: c_int) -> c_int {
  if virt_fd(fd) {
    return 0;
  }
  -unsafe { sys6(221, fd as usize, a as usize, b as usize, c as usize, 0, 0) } as c_int
}

// --- status ----------------------------------------------------------------------------------

unsafe fn fill_stat(buf: *mut u8, (mode, size): (u32, u64)) {
  unsafe {
    std::ptr::write_bytes(buf, 0, 144);
    buf.add(8).cast::<u64>().write_unaligned(7);
    buf.add(16).cast::<u64>().write_unaligned(1);
    buf.add(24).cast::<u32>().write_unaligned(mode);
    buf.add(48).cast::<u64>().write_unaligned(size);
    buf.add(56).cast::<u64>().write_unaligned(4096);
    buf.add(64).cast::<u64>().write_unaligned(size.div_ceil(512));
  }
}
unsafe fn fill_statx(buf: *mut u8, (mode, size): (u32, u64)) {
  unsafe {
    std::ptr::write_bytes(buf, 0, 256);
    buf.cast::<u32>().write_unaligned(0x7ff);
    buf.add(4).cast::<u32>().write_unaligned(4096);
    buf.add(16).cast::<u32>().write_unaligned(1);
    buf.add(28).cast::<u16>().write_unaligned(mode as u16);
    buf.add(32).cast::<u64>().write_unaligned(7);
    buf.add(40).cast::<u64>().write_unaligned(size);
    buf.add(48).cast::<u64>().write_unaligned(size.div_ceil(512));
  }
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn fstat64(fd: c_int, buf: *mut c_void) -> c_int {
  unsafe {
    if virt_fd(fd) {
      out(live(|w| w.stat_fd(fd)).map(|s| {
        fill_stat(buf.cast(), s);
        0
      })) as c_int
    } else {
      sys(5, fd as usize, buf as usize, 0, 0) as c_int
    }
  }
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn stat64(p: *const c_char, buf: *mut c_void) -> c_int {
  unsafe {
    match virt(p) {
      Some(s) => out(live(|w| w.stat_path(s, true)).map(|s| {
        fill_stat(buf.cast(), s);
        0
      })) as c_int,
      None => sys(4, p as usize, buf as usize, 0, 0) as c_int,
    }
  }
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn lstat64(p: *const c_char, buf: *mut c_void) -> c_int {
  unsafe {
    match virt(p) {
      Some(s) => out(live(|w| w.stat_path(s, false)).map(|s| {
        fill_stat(buf.cast(), s);
        0
      })) as c_int,
      None => sys(6, p as usize, buf as usize, 0, 0) as c_int,
    }
  }
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn fstatat64(d: c_int, p: *const c_char, buf: *mut c_void, fl: c_int) -> c_int {
  unsafe {
    match virt(p) {
      Some(s) => out(live(|w| w.stat_path(s, fl & 0x100 == 0)).map(|s| {
        fill_stat(buf.cast(), s);
        0
      })) as c_int,
      None => sys(262, d as isize as usize, p as usize, buf as usize, fl as usize) as c_int,
    }
  }
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn statx(
  d: c_int, p: *const c_char, fl: c_int, mask: u32, buf: *mut c_void,
) -> c_int {
  unsafe {
    let r = if virt_fd(d) && (p.is_null() || *p == 0) {
      Some(live(|w| w.stat_fd(d)))
    } else {
      virt(p).map(|s| live(|w| w.stat_path(s, fl & 0x100 == 0)))
    };
    match r {
      Some(r) => out(r.map(|s| {
        fill_statx(buf.cast(), s);
        0
      })) as c_int,
      None => ret(sys6(332, d as isize as usize, p as usize, fl as usize, mask as usize, buf as usize, 0)) as c_int,
    }
  }
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn access(p: *const c_char, mode: c_int) -> c_int {
  unsafe {
    match virt(p) {
      Some(s) => out(live(|w| w.stat_path(s, true)).map(|_| 0)) as c_int,
      None => sys(21, p as usize, mode as usize, 0, 0) as c_int,
    }
  }
}

// --- names -----------------------------------------------------------------------------------

#[unsafe(no_mangle)]
pub unsafe extern "C" fn rename(a: *const c_char, b: *const c_char) -> c_int {
  unsafe {
    match (virt(a), virt(b)) {
      (Some(a), Some(b)) => out(live(|w| {
        w.enter(&format!("rename {a} {b}"))?;
        if w.hard(w.faults.io_error, "rename failed") {
          return Err(EIO);
        }
        let (a, b) = (w.disk.walk(a, false)?, w.disk.walk(b, false)?);
        if matches!(w.disk.nodes.get(&b), Some(Node::Dir)) {
          return Err(EISDIR);
        }
        let n = w.disk.nodes.remove(&a).ok_or(ENOENT)?;
        w.disk.nodes.insert(b, n);
        Ok(0)
      })) as c_int,
      (None, None) => sys(82, a as usize, b as usize, 0, 0) as c_int,
      _ => fail(EXDEV),
    }
  }
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn unlink(p: *const c_char) -> c_int {
  unsafe {
    match virt(p) {
      Some(s) => out(live(|w| {
        w.enter(&format!("unlink {s}"))?;
        if w.hard(w.faults.io_error, "unlink failed") {
          return Err(EIO);
        }
        let p = w.disk.walk(s, false)?;
        match w.disk.nodes.get(&p) {
          Some(Node::Dir) => Err(EISDIR),
          Some(_) => {
            w.disk.nodes.remove(&p);
            Ok(0)
          }
          None => Err(ENOENT),
        }
      })) as c_int,
      None => sys(87, p as usize, 0, 0, 0) as c_int,
    }
  }
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn mkdir(p: *const c_char, mode: u32) -> c_int {
  unsafe {
    match virt(p) {
      Some(s) => out(live(|w| {
        w.enter(&format!("mkdir {s}"))?;
        let p = w.disk.walk(s, false)?;
        if w.disk.nodes.contains_key(&p) {
          return Err(EEXIST);
        }
        w.disk.nodes.insert(p, Node::Dir);
        Ok(0)
      })) as c_int,
      None => sys(83, p as usize, mode as usize, 0, 0) as c_int,
    }
  }
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn rmdir(p: *const c_char) -> c_int {
  unsafe {
    match virt(p) {
      Some(s) => out(live(|w| {
        w.enter(&format!("rmdir {s}"))?;
        let p = w.disk.walk(s, false)?;
        if !w.disk.children(&p).is_empty() {
          return Err(ENOTEMPTY);
        }
        match w.disk.nodes.get(&p) {
          Some(Node::Dir) => {
            w.disk.nodes.remove(&p);
            Ok(0)
          }
          Some(_) => Err(ENOTDIR),
          None => Err(ENOENT),
        }
      })) as c_int,
      None => sys(84, p as usize, 0, 0, 0) as c_int,
    }
  }
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn readlink(p: *const c_char, buf: *mut u8, n: usize) -> isize {
  unsafe {
    match virt(p) {
      Some(s) => out(live(|w| {
        w.enter(&format!("readlink {s}"))?;
        match w.disk.nodes.get(&w.disk.walk(s, false)?) {
          Some(Node::Link(t)) => {
            let t = raw(t);
            let k = t.len().min(n);
            std::ptr::copy_nonoverlapping(t.as_ptr(), buf, k);
            Ok(k as isize)
          }
          Some(_) => Err(EINVAL),
          None => Err(ENOENT),
        }
      })),
      None => match identity(b"program") {
        Some(x) if CStr::from_ptr(p) == c"/proc/self/exe" => {
          let t = PLACES[x as usize % PLACES.len()].to_bytes();
          let k = t.len().min(n);
          std::ptr::copy_nonoverlapping(t.as_ptr(), buf, k);
          k as isize
        }
        _ => sys(89, p as usize, buf as usize, n, 0),
      },
    }
  }
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn realpath(p: *const c_char, buf: *mut c_char) -> *mut c_char {
  unsafe {
    match virt(p) {
      Some(s) => {
        let r = live(|w| {
          w.enter(&format!("realpath {s}"))?;
          if w.hard(w.faults.stat_error, "realpath failed") {
            return Err(EACCES);
          }
          let p = w.disk.walk(s, true)?;
          if w.disk.nodes.contains_key(&p) { Ok(raw(&p)) } else { Err(ENOENT) }
        });
        match r {
          Ok(p) => {
            let b = if buf.is_null() { malloc(4096).cast() } else { buf };
            std::ptr::copy_nonoverlapping(p.as_ptr().cast(), b, p.len());
            *b.add(p.len()) = 0;
            b
          }
          Err(e) => {
            fail(e);
            std::ptr::null_mut()
          }
        }
      }
      None => {
        let f: unsafe extern "C" fn(*const c_char, *mut c_char) -> *mut c_char =
          std::mem::transmute(next(c"realpath"));
        f(p, buf)
      }
    }
  }
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn getcwd(buf: *mut c_char, n: usize) -> *mut c_char {
  unsafe {
    if CWD.load(Ordering::Relaxed) {
      let r = live(|w| {
        w.enter(&format!("getcwd into {n}"))?;
        let c = w.cwd.clone()?;
        if c.len() + 1 > n { Err(ERANGE) } else { Ok(c) }
      });
      match r {
        Ok(c) => {
          std::ptr::copy_nonoverlapping(c.as_ptr().cast(), buf, c.len());
          *buf.add(c.len()) = 0;
          buf
        }
        Err(e) => {
          fail(e);
          std::ptr::null_mut()
        }
      }
    } else if let Some(x) = identity(b"cwd") {
      match give(PLACES[x as usize % PLACES.len()], buf, n) {
        Ok(_) => buf,
        Err(e) => {
          fail(e);
          std::ptr::null_mut()
        }
      }
    } else {
      let f: unsafe extern "C" fn(*mut c_char, usize) -> *mut c_char =
        std::mem::transmute(next(c"getcwd"));
      f(buf, n)
    }
  }
}

// --- directories -----------------------------------------------------------------------------

const DIR_TAG: usize = 0x5151_0000_0000;
fn virt_dir(d: *mut c_void) -> Option<usize> {
  let x = d as usize;
  (x & !0xffff_ffff == DIR_TAG).then_some((x & 0xffff_ffff) >> 4)
}
fn dir_out(r: Result<usize, c_int>) -> *mut c_void {
  match r {
    Ok(id) => (DIR_TAG | (id << 4)) as *mut c_void,
    Err(e) => {
      fail(e);
      std::ptr::null_mut()
    }
  }
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn opendir(p: *const c_char) -> *mut c_void {
  unsafe {
    match virt(p) {
      Some(s) => dir_out(live(|w| w.opendir(s))),
      None => {
        let f: unsafe extern "C" fn(*const c_char) -> *mut c_void =
          std::mem::transmute(next(c"opendir"));
        f(p)
      }
    }
  }
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn readdir64(d: *mut c_void) -> *mut c_void {
  unsafe {
    match virt_dir(d) {
      Some(id) => match live(|w| w.readdir(id)) {
        Ok(Some(p)) => p,
        Ok(None) => std::ptr::null_mut(),
        Err(e) => {
          fail(e);
          std::ptr::null_mut()
        }
      },
      None => {
        let f: unsafe extern "C" fn(*mut c_void) -> *mut c_void =
          std::mem::transmute(next(c"readdir64"));
        f(d)
      }
    }
  }
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn closedir(d: *mut c_void) -> c_int {
  unsafe {
    match virt_dir(d) {
      Some(id) => out(live(|w| w.dirs.remove(&id).map(|_| 0).ok_or(EBADF))) as c_int,
      None => {
        let f: unsafe extern "C" fn(*mut c_void) -> c_int = std::mem::transmute(next(c"closedir"));
        f(d)
      }
    }
  }
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn dirfd(d: *mut c_void) -> c_int {
  unsafe {
    if virt_dir(d).is_some() {
      fail(EINVAL)
    } else {
      let f: unsafe extern "C" fn(*mut c_void) -> c_int = std::mem::transmute(next(c"dirfd"));
      f(d)
    }
  }
}

// --- clocks ----------------------------------------------------------------------------------

#[derive(Clone, Copy, Debug, Default)]
pub struct Clock {
  pub mono_ns: i128,
  pub wall_ns: i128,
  /// each reading of a clock takes this long
  pub read_cost: i128,
}

static CLOCK: Mutex<Option<Clock>> = Mutex::new(None);

thread_local! {
  static CLOCKED: Cell<bool> = const { Cell::new(false) };
}

pub fn set_clock(c: Option<Clock>) {
  *CLOCK.lock().unwrap_or_else(std::sync::PoisonError::into_inner) = c;
}
pub fn clock<R>(f: impl FnOnce(&mut Clock) -> R) -> R {
  f(CLOCK.lock().unwrap_or_else(std::sync::PoisonError::into_inner).as_mut().expect("no clock"))
}
/// Whether this thread sees the simulated clock.
pub fn use_clock(on: bool) {
  CLOCKED.with(|c| c.set(on));
}

#[unsafe(no_mangle)]
pub unsafe extern "C" fn clock_gettime(id: c_int, ts: *mut [i64; 2]) -> c_int {
  if CLOCKED.try_with(Cell::get).unwrap_or(false) {
    let g = CLOCK.lock().unwrap_or_else(std::sync::PoisonError::into_inner).as_mut().map(|c| {
      let t = match id {
        // CLOCK_REALTIME and its coarse sibling; the CPU clocks stand still while others run and
        // are not what passes between two moments
        0 | 5 => c.wall_ns,
        2 | 3 => c.mono_ns / 3,
        _ => c.mono_ns,
      };
      c.mono_ns += c.read_cost;
      c.wall_ns += c.read_cost;
      t
    });
    if let Some(t) = g {
      let t = t.max(0);
      unsafe { *ts = [(t / 1_000_000_000) as i64, (t % 1_000_000_000) as i64] };
      return 0;
    }
  }
  unsafe { sys(228, id as usize, ts as usize, 0, 0) as c_int }
}

// --- random bytes ----------------------------------------------------------------------------

thread_local! {
  static ENTROPY: Cell<Option<u64>> = const { Cell::new(None) };
}

/// Seeds the random bytes this thread gets from the kernel; `None` for real ones.
pub fn set_entropy(seed: Option<u64>) {
  ENTROPY.with(|e| e.set(seed));
}

#[unsafe(no_mangle)]
pub unsafe extern "C" fn getrandom(buf: *mut u8, n: usize, flags: u32) -> isize {
  match ENTROPY.try_with(Cell::get).ok().flatten() {
    Some(seed) => {
      let mut r = vsim::Rng::new(seed);
      for i in 0..n {
        unsafe { *buf.add(i) = r.next() as u8 };
      }
      ENTROPY.with(|e| e.set(Some(r.next())));
      n as isize
    }
    None => unsafe { sys(318, buf as usize, n, flags as usize, 0) },
  }
}

// --- who and where this process is -----------------------------------------------------------

thread_local! {
  static IDENTITY: Cell<Option<u64>> = const { Cell::new(None) };
}

/// Gives this thread the identity of another process: environment variables (except `OUT_DIR` and
/// those of the Rust runtime), process id, host name, number of processors, path of the program
/// and current directory. `None` for the real one.
pub fn set_identity(seed: Option<u64>) {
  IDENTITY.with(|e| e.set(seed));
}
fn identity(what: &[u8]) -> Option<u64> {
  let mut h = IDENTITY.try_with(Cell::get).ok().flatten()?;
  for &b in what {
    h = (h ^ u64::from(b)).wrapping_mul(0x0000_0100_0000_01b3).rotate_left(23);
  }
  Some((h ^ (h >> 31)).wrapping_mul(0x9e37_79b9_7f4a_7c15) >> 33)
}

const VALUES: [&CStr; 12] = [
  c"", c"0", c"1", c"7", c"true", c"release", c"windows", c"de_DE.UTF-8", c"/simfs/elsewhere", c"1700000000", c"a b", c"\xff",
];
const PLACES: [&CStr; 6] = [c"/simfs", c"/", c"/simfs/out", c"/simfs/x", c"/elsewhere/deep/er", c"/simfs/\xff"];

/// Copies `s` with its terminator; its length or an error.
unsafe fn give(s: &CStr, buf: *mut c_char, n: usize) -> Result<usize, c_int> {
  let b = s.to_bytes_with_nul();
  if b.len() > n {
    return Err(ERANGE);
  }
  // SAFETY: the caller says that `buf` has room for `n`.
  unsafe { std::ptr::copy_nonoverlapping(b.as_ptr().cast(), buf, b.len()) };
  Ok(b.len() - 1)
}

#[unsafe(no_mangle)]
pub unsafe extern "C" fn getenv(name: *const c_char) -> *mut c_char {
  unsafe {
    let n = CStr::from_ptr(name).to_bytes();
    if n != b"OUT_DIR" && !n.starts_with(b"RUST_") {
      if let Some(x) = identity(n) {
        return match x % 3 {
          0 => std::ptr::null_mut(),
          _ => VALUES[x as usize / 3 % VALUES.len()].as_ptr().cast_mut(),
        };
      }
    }
    let f: unsafe extern "C" fn(*const c_char) -> *mut c_char = std::mem::transmute(next(c"getenv"));
    f(name)
  }
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn getpid() -> c_int {
  match identity(b"pid") {
    Some(x) => 2 + (x % 4_000_000) as c_int,
    None => unsafe { sys(39, 0, 0, 0, 0) as c_int },
  }
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn getppid() -> c_int {
  match identity(b"ppid") {
    Some(x) => 1 + (x % 4_000_000) as c_int,
    None => unsafe { sys(110, 0, 0, 0, 0) as c_int },
  }
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn gethostname(buf: *mut c_char, n: usize) -> c_int {
  unsafe {
    match identity(b"host") {
      Some(x) => match give([c"a", c"build-7", c"localhost"][x as usize % 3], buf, n) {
        Ok(_) => 0,
        Err(e) => fail(e),
      },
      None => {
        let f: unsafe extern "C" fn(*mut c_char, usize) -> c_int = std::mem::transmute(next(c"gethostname"));
        f(buf, n)
      }
    }
  }
}
/// The processors the process may use, which is what `available_parallelism` looks at.
#[unsafe(no_mangle)]
pub unsafe extern "C" fn sched_getaffinity(pid: c_int, n: usize, mask: *mut c_void) -> c_int {
  unsafe {
    match identity(b"cpus") {
      Some(x) if pid == 0 => {
        std::ptr::write_bytes(mask.cast::<u8>(), 0, n);
        for i in 0..=(x as usize % (n * 8).min(64)) {
          *mask.cast::<u8>().add(i / 8) |= 1 << (i % 8);
        }
        0
      }
      _ => {
        let f: unsafe extern "C" fn(c_int, usize, *mut c_void) -> c_int =
          std::mem::transmute(next(c"sched_getaffinity"));
        f(pid, n, mask)
      }
    }
  }
}

//! A small deterministic-simulation engine.
//!
//! One run of a simulation is a pure function of its *tape*: the sequence of small integers that
//! every scheduling, fault and workload decision was drawn as. When generating, the tape is filled
//! from a PRNG seeded with one integer; when replaying, it is read back (and reads as zeros past its
//! end; zero is always the simplest outcome of a decision). Nothing else may influence a run.
//!
//! Runs execute in forked shard processes, so that a run which aborts, overflows its stack or hangs
//! is observed from outside and reported like any other violation.

pub mod cli;
pub mod sched;
pub mod sys;

use std::collections::{BTreeMap, HashSet};
use std::fmt::Write as _;
use std::sync::Mutex;
use std::sync::atomic::{AtomicBool, Ordering};

/// Hard cap on decisions in one run.
pub const MAX_TAPE: usize = 1 << 17;

// ---------------------------------------------------------------------------------------------
// PRNG

#[derive(Clone, Debug)]
pub struct Rng(u64);

impl Rng {
  pub fn new(seed: u64) -> Self {
    let mut r = Rng(seed ^ 0x9e37_79b9_7f4a_7c15);
    r.next();
    r.next();
    r
  }

  pub fn next(&mut self) -> u64 {
    self.0 = self.0.wrapping_add(0x9e37_79b9_7f4a_7c15);
    let mut z = self.0;
    z = (z ^ (z >> 30)).wrapping_mul(0xbf58_476d_1ce4_e5b9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94d0_49bb_1331_11eb);
    z ^ (z >> 31)
  }

  pub fn below(&mut self, n: u64) -> u64 {
    debug_assert!(n > 0);
    ((u128::from(self.next()) * u128::from(n)) >> 64) as u64
  }
}

// ---------------------------------------------------------------------------------------------
// The current run

/// Payload of the panic that ends a run after a violation was recorded.
pub struct Stop;

/// Payload of panics injected by simulations into user callbacks.
pub struct Injected(pub u32);

#[derive(Clone, Debug)]
pub struct Violation {
  pub class: String,
  pub msg: String,
}

#[derive(Default)]
pub struct Stats {
  pub faults: BTreeMap<&'static str, u64>,
  pub probes: BTreeMap<&'static str, u64>,
  pub steps: u64,
  pub switches: u64,
  pub sim_nanos: u64,
}

struct Run {
  rng: Option<Rng>,
  tape: Vec<u32>,
  pos: usize,
  /// (start, end) of spans, end is filled when closed.
  spans: Vec<(u32, u32)>,
  hash: u64,
  trace: Option<Vec<String>>,
  violation: Option<Violation>,
  nontrivial: bool,
  stats: Stats,
  states: HashSet<u64>,
}

static RUN: Mutex<Option<Box<Run>>> = Mutex::new(None);
static ACTIVE: AtomicBool = AtomicBool::new(false);
static STOPPING: AtomicBool = AtomicBool::new(false);
static LIVE: Mutex<Option<std::fs::File>> = Mutex::new(None);

/// Also writes every event to a file as it happens, so that it survives the death of the process.
pub fn set_live(f: Option<std::fs::File>) {
  *LIVE.lock().unwrap_or_else(std::sync::PoisonError::into_inner) = f;
}

fn live(s: &str) {
  use std::io::Write as _;
  let mut g = LIVE.lock().unwrap_or_else(std::sync::PoisonError::into_inner);
  if let Some(f) = g.as_mut() {
    let _ = writeln!(f, "{s}");
  }
}

fn with<R>(f: impl FnOnce(&mut Run) -> R) -> Option<R> {
  let mut g = RUN.lock().unwrap_or_else(std::sync::PoisonError::into_inner);
  g.as_mut().map(|r| f(r))
}

/// Whether a run is in progress and has not yet recorded a violation.
pub fn active() -> bool {
  ACTIVE.load(Ordering::Relaxed)
}

pub fn stopping() -> bool {
  STOPPING.load(Ordering::Relaxed)
}

fn draw(n: u64, gen_fn: impl FnOnce(&mut Rng) -> u64) -> u64 {
  if n <= 1 {
    return 0;
  }
  let r = with(|r| {
    if r.pos >= MAX_TAPE {
      return 0;
    }
    let v = match r.rng.as_mut() {
      Some(rng) => {
        let v = gen_fn(rng);
        r.tape.push(v as u32);
        v
      }
      None => {
        let v = r.tape.get(r.pos).copied().map_or(0, u64::from).min(n - 1);
        // keep the canonical form of what was consumed
        if r.pos < r.tape.len() {
          r.tape[r.pos] = v as u32;
        } else {
          r.tape.push(v as u32);
        }
        v
      }
    };
    sys::shm_tape(r.pos, v as u32);
    r.pos += 1;
    v
  });
  r.unwrap_or(0)
}

/// Draws uniformly from `0..n`. Zero is the simplest outcome.
pub fn choose(n: usize) -> usize {
  draw(n as u64, |rng| rng.below(n as u64)) as usize
}

/// Draws from `lo..=hi`, `lo` being simplest.
pub fn range(lo: u64, hi: u64) -> u64 {
  lo + draw(hi - lo + 1, |rng| rng.below(hi - lo + 1))
}

/// True with probability `num / den`. False is simplest.
pub fn chance(num: u64, den: u64) -> bool {
  if num == 0 {
    return false;
  }
  draw(2, |rng| u64::from(rng.below(den) < num)) == 1
}

/// Draws an index with the given weights; index 0 is simplest.
pub fn weighted(ws: &[u64]) -> usize {
  let total: u64 = ws.iter().sum();
  draw(ws.len() as u64, |rng| {
    let mut x = rng.below(total.max(1));
    for (i, &w) in ws.iter().enumerate() {
      if x < w {
        return i as u64;
      }
      x -= w;
    }
    0
  }) as usize
}

/// Draws a `u32` with small values likely and extremes possible.
pub fn spread_u32() -> u32 {
  match weighted(&[6, 3, 2, 1]) {
    0 => range(0, 8) as u32,
    1 => range(0, 300) as u32,
    2 => u32::MAX - range(0, 4) as u32,
    _ => range(0, u64::from(u32::MAX - 1)) as u32,
  }
}

pub fn pick<T: Clone>(xs: &[T]) -> T {
  xs[choose(xs.len())].clone()
}

/// Marks the decisions drawn inside `f` as a unit for the minimiser.
pub fn span<R>(f: impl FnOnce() -> R) -> R {
  let idx = with(|r| {
    r.spans.push((r.pos as u32, u32::MAX));
    r.spans.len() - 1
  });
  let ret = f();
  if let Some(idx) = idx {
    with(|r| {
      let p = r.pos as u32;
      if let Some(s) = r.spans.get_mut(idx) {
        s.1 = p;
      }
    });
  }
  ret
}

/// Records an event in the log of the run. Never draws, never reads a clock.
pub fn event(args: std::fmt::Arguments<'_>) {
  let mut s = String::new();
  let _ = s.write_fmt(args);
  live(&s);
  with(|r| {
    for b in s.bytes() {
      r.hash = (r.hash ^ u64::from(b)).wrapping_mul(0x0000_0100_0000_01b3);
    }
    r.hash = (r.hash ^ 0xff).wrapping_mul(0x0000_0100_0000_01b3);
    r.stats.steps += 1;
    if let Some(t) = r.trace.as_mut() {
      if t.len() < 4000 {
        t.push(s);
      }
    }
  });
}

/// `ev!(..)`: record an event.
#[macro_export]
macro_rules! ev {
  ($($t:tt)*) => { $crate::event(format_args!($($t)*)) };
}

/// Counts a fault that actually fired.
pub fn fault(kind: &'static str) {
  with(|r| {
    *r.stats.faults.entry(kind).or_default() += 1;
    r.nontrivial = true;
  });
  ev!("FAULT {kind}");
}

/// Counts a rare condition that was reached.
pub fn probe(name: &'static str) {
  with(|r| *r.stats.probes.entry(name).or_default() += 1);
}

/// Marks the run as non-trivial.
pub fn nontrivial() {
  with(|r| r.nontrivial = true);
}

/// Adds a hash of a reached state.
pub fn state(h: u64) {
  with(|r| {
    if r.states.len() < 4096 {
      r.states.insert(h);
    }
  });
}

pub fn count_switch() {
  with(|r| {
    r.stats.switches += 1;
    r.nontrivial = true;
  });
}

pub fn add_sim_nanos(n: u64) {
  with(|r| r.stats.sim_nanos = r.stats.sim_nanos.saturating_add(n));
}

/// FNV hash of anything printable, for [`state`].
pub fn hash_debug<T: std::fmt::Debug>(x: &T) -> u64 {
  struct H(u64);
  impl std::fmt::Write for H {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
      for b in s.bytes() {
        self.0 = (self.0 ^ u64::from(b)).wrapping_mul(0x0000_0100_0000_01b3);
      }
      Ok(())
    }
  }
  let mut h = H(0xcbf2_9ce4_8422_2325);
  let _ = write!(h, "{x:?}");
  h.0
}

/// Records a violation (the first one counts) without ending the run at once.
pub fn note_violation(class: &str, msg: String) {
  with(|r| {
    if r.violation.is_none() {
      live(&format!("VIOLATED {class}: {msg}"));
      if let Some(t) = r.trace.as_mut() {
        t.push(format!("VIOLATED {class}: {msg}"));
      }
      r.violation = Some(Violation { class: class.to_owned(), msg });
    }
  });
  STOPPING.store(true, Ordering::Relaxed);
}

/// Records a violation and ends the run.
pub fn violate(class: &str, msg: String) -> ! {
  note_violation(class, msg);
  std::panic::panic_any(Stop)
}

/// `check!(cond, "class", "message {}", args)`.
#[macro_export]
macro_rules! check {
  ($cond:expr, $class:expr, $($t:tt)*) => {
    if !$cond { $crate::violate($class, format!($($t)*)) }
  };
}

/// Ends the run at once if a violation was recorded elsewhere (e.g. in a callback).
pub fn stop_if_violated() {
  if stopping() {
    std::panic::panic_any(Stop)
  }
}

// ---------------------------------------------------------------------------------------------
// Panics of the code under test

thread_local! {
  static LAST_PANIC: std::cell::RefCell<Option<String>> = const { std::cell::RefCell::new(None) };
}

pub fn install_panic_hook() {
  std::panic::set_hook(Box::new(|info| {
    let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
      (*s).to_owned()
    } else if let Some(s) = info.payload().downcast_ref::<String>() {
      s.clone()
    } else {
      "<non-string panic>".to_owned()
    };
    let loc = info.location().map_or(String::new(), |l| format!("{}:{}", l.file(), l.line()));
    LAST_PANIC.with(|p| {
      if let Ok(mut p) = p.try_borrow_mut() {
        *p = Some(format!("{msg} at {loc}"));
      }
    });
  }));
}

pub fn last_panic() -> String {
  LAST_PANIC.with(|p| p.borrow().clone()).unwrap_or_default()
}

/// Outcome of running code under test.
pub enum Caught<T> {
  Ok(T),
  /// A panic injected by the simulation, with its number.
  Injected(u32),
  /// Any other panic: its message.
  Panic(String),
}

/// Runs code under test, catching panics other than the end of the run.
pub fn catch<T>(f: impl FnOnce() -> T) -> Caught<T> {
  match std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)) {
    Ok(x) => Caught::Ok(x),
    Err(p) => {
      if p.is::<Stop>() {
        std::panic::resume_unwind(p)
      }
      stop_if_violated();
      match p.downcast::<Injected>() {
        Ok(i) => Caught::Injected(i.0),
        Err(_) => Caught::Panic(last_panic()),
      }
    }
  }
}

/// Runs `f` in a destructor while another panic is under way, which is then contained.
pub fn while_unwinding(f: impl FnOnce()) {
  struct Guard<'a, F: FnOnce()>(Option<F>, &'a std::cell::Cell<Option<Box<dyn std::any::Any + Send>>>);
  impl<F: FnOnce()> Drop for Guard<'_, F> {
    fn drop(&mut self) {
      let f = self.0.take().expect("dropped once");
      self.1.set(std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)).err());
    }
  }
  let inner = std::cell::Cell::new(None);
  let _ = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
    let _guard = Guard(Some(f), &inner);
    std::panic::panic_any(Injected(u32::MAX));
  }));
  if let Some(p) = inner.take() {
    std::panic::resume_unwind(p);
  }
}

/// Runs code under test that must not panic.
pub fn no_panic<T>(class: &str, what: &str, f: impl FnOnce() -> T) -> T {
  match catch(f) {
    Caught::Ok(x) => x,
    Caught::Injected(n) => violate(class, format!("{what}: injected panic {n} out of place")),
    Caught::Panic(m) => violate(class, format!("{what}: panicked: {m}")),
  }
}

// ---------------------------------------------------------------------------------------------
// Executing one run

pub struct Outcome {
  pub violation: Option<Violation>,
  pub tape: Vec<u32>,
  pub spans: Vec<(u32, u32)>,
  pub hash: u64,
  pub trace: Option<Vec<String>>,
  pub nontrivial: bool,
  pub stats: Stats,
  pub states: HashSet<u64>,
}

pub enum Source<'a> {
  Seed(u64),
  Tape(&'a [u32]),
}

/// Executes one run of `f`.
pub fn execute(prop: &str, f: &dyn Fn(), src: Source<'_>, trace: bool) -> Outcome {
  let (rng, tape) = match src {
    Source::Seed(s) => (Some(Rng::new(s)), Vec::with_capacity(256)),
    Source::Tape(t) => (None, t.to_vec()),
  };
  {
    let mut g = RUN.lock().unwrap_or_else(std::sync::PoisonError::into_inner);
    *g = Some(Box::new(Run {
      rng,
      tape,
      pos: 0,
      spans: Vec::new(),
      hash: 0xcbf2_9ce4_8422_2325,
      trace: trace.then(Vec::new),
      violation: None,
      nontrivial: false,
      stats: Stats::default(),
      states: HashSet::new(),
    }));
  }
  STOPPING.store(false, Ordering::Relaxed);
  ACTIVE.store(true, Ordering::Relaxed);
  let res = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
  ACTIVE.store(false, Ordering::Relaxed);
  if let Err(p) = res {
    if !p.is::<Stop>() {
      let m = if p.is::<Injected>() { "injected panic escaped".to_owned() } else { last_panic() };
      note_violation(&format!("{prop}/panic"), m);
    }
  }
  STOPPING.store(false, Ordering::Relaxed);
  let mut r = RUN.lock().unwrap_or_else(std::sync::PoisonError::into_inner).take().unwrap();
  r.tape.truncate(r.pos);
  Outcome {
    violation: r.violation,
    tape: r.tape,
    spans: r.spans,
    hash: r.hash,
    trace: r.trace,
    nontrivial: r.nontrivial,
    stats: r.stats,
    states: r.states,
  }
}

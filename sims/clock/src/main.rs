//! Simulation of L01: timing under a simulated clock.
//!
//! The clock is the one behind libc's `clock_gettime`, so `std::time::Instant` and `elapsed` run
//! unchanged. Tasks on simulated threads run trees of nested timed and logged calls; between and
//! during them time passes, other tasks run, the wall clock jumps, the monotonic clock steps back
//! and calls panic.

use std::cell::Cell;
use std::rc::Rc;
use std::sync::Mutex;
use std::time::Duration;
use vsim::{Caught, Injected, check, ev, sched};

const P: &str = "L01";

const LEVELS: [log::LevelFilter; 4] =
  [log::LevelFilter::Info, log::LevelFilter::Trace, log::LevelFilter::Warn, log::LevelFilter::Off];

#[derive(Clone, Debug)]
struct Rec {
  task: Option<usize>,
  level: log::Level,
  text: String,
}

static RECORDS: Mutex<Vec<Rec>> = Mutex::new(Vec::new());

struct Capture;
impl log::Log for Capture {
  fn enabled(&self, _: &log::Metadata<'_>) -> bool {
    true
  }
  fn log(&self, r: &log::Record<'_>) {
    let text = r.args().to_string();
    let fate = if BUSY.get() { 0 } else { vsim::weighted(&[40, 2, 1]) };
    if fate == 1 {
      // the logger times its own work
      vsim::probe("the logger times and logs too");
      BUSY.set(true);
      let r = vsim::catch(|| call(0, &Cell::new(0)));
      BUSY.set(false);
      if !matches!(r, Caught::Ok(_)) {
        vsim::violate(&format!("{P}/panic"), "a call timed by the logger panicked".into());
      }
    }
    RECORDS.lock().unwrap().push(Rec { task: sched::me(), level: r.level(), text });
    // writing the record takes time and lets others run
    pass();
    sched::yield_point("logger");
    if fate == 2 {
      vsim::fault("the logger panicked");
      std::panic::panic_any(Injected(8));
    }
  }
  fn flush(&self) {}
}

fn now() -> i128 {
  simos::clock(|c| c.mono_ns)
}

/// Some time passes.
fn pass() {
  let d: i128 = match vsim::weighted(&[3, 3, 3, 2, 1, 1]) {
    0 => 0,
    1 => i128::from(vsim::range(1, 999)),
    2 => i128::from(vsim::range(1, 5_000)) * 1_000 + i128::from(vsim::range(0, 999)),
    3 => i128::from(vsim::range(1, 100_000)) * 1_000_000 + i128::from(vsim::range(0, 999_999)),
    4 => i128::from(vsim::range(1, 100_000)) * 1_000_000_000 + i128::from(vsim::range(0, 1_000_000_000)),
    _ => i128::from(vsim::range(1, 4)) * 4_294_967_296 * 1_000_000_000 + i128::from(vsim::range(0, 1_000)),
  };
  if d > 0 {
    vsim::add_sim_nanos(d as u64);
    ev!("{d} ns pass");
  }
  simos::clock(|c| {
    c.mono_ns += d;
    c.wall_ns += d;
  });
}

fn weather() {
  pass();
  if vsim::chance(1, 12) {
    log::set_max_level(vsim::pick(&LEVELS));
    vsim::probe("log level changed");
  }
  match vsim::weighted(&[8, 2, 1]) {
    0 => {}
    1 => {
      let d = i128::from(vsim::spread_u32()) * 1_000_000_007;
      let back = vsim::chance(1, 2);
      simos::clock(|c| c.wall_ns = (c.wall_ns + if back { -d } else { d }).max(0));
      vsim::fault("wall clock jumped");
    }
    _ => {
      let d = i128::from(vsim::spread_u32());
      simos::clock(|c| c.mono_ns = (c.mono_ns - d).max(0));
      vsim::fault("monotonic clock stepped back");
    }
  }
  sched::yield_point("work");
}

/// A value that must arrive unchanged and be dropped once.
struct Token {
  n: u64,
  pad: [u64; 9],
  drops: Rc<Cell<u32>>,
}
impl Drop for Token {
  fn drop(&mut self) {
    self.drops.set(self.drops.get() + 1);
  }
}

thread_local! {
  /// Records this task's finished calls must have left.
  static DUE: Cell<usize> = const { Cell::new(0) };
  /// The logger is logging something of its own.
  static BUSY: Cell<bool> = const { Cell::new(false) };
}

fn records() -> Vec<Rec> {
  let me = sched::me();
  RECORDS.lock().unwrap().iter().filter(|r| r.task == me).cloned().collect()
}

fn tally(when: &str, class: &str) {
  let r = records();
  let due = DUE.with(Cell::get);
  check!(r.len() == due, &format!("{P}/{class}"), "{when}: {due} records are due, there are {}: {r:?}", r.len());
}

/// The body of a timed call: its result, when it started and ended, and whether information was
/// logged at its end.
fn body(depth: u64, id: u64, panics: &Cell<u32>) -> (Token, i128, i128, bool) {
  let start = now();
  weather();
  if depth > 0 {
    for _ in 0..vsim::range(0, 2) {
      if !call(depth - 1, panics) {
        // a panicking inner call takes this one with it, or is contained
        if vsim::chance(1, 2) {
          std::panic::panic_any(Injected(7));
        }
      }
      weather();
    }
  }
  if panics.get() > 0 && vsim::chance(1, 8) {
    panics.set(panics.get() - 1);
    vsim::fault("the call panicked");
    std::panic::panic_any(Injected(7));
  }
  tally("before the end of a call", "logged-early");
  let t = Token { n: id, pad: [id.wrapping_mul(31); 9], drops: Rc::new(Cell::new(0)) };
  (t, start, now(), log::max_level() >= log::LevelFilter::Info)
}

/// One timed or logged call. Whether it finished without a panic.
fn call(depth: u64, panics: &Cell<u32>) -> bool {
  vsim::span(|| {
    let id = vsim::range(0, 1 << 30);
    let runs = Cell::new(0u32);
    let logged = vsim::chance(1, 2);
    let msg = vsim::pick(&["x", "", "took: {}", "{elapsed:?}", "%s \n y", "\u{e9}t\u{e9} 1s", "a: b: "]);
    ev!("{} {msg:?}", if logged { "log" } else { "time" });
    if depth < 3 {
      vsim::probe("nested call");
    }
    let r = vsim::catch(|| {
      let f = || {
        runs.set(runs.get() + 1);
        body(depth, id, panics)
      };
      if logged {
        (elapsed::log(msg, f), None)
      } else {
        let (t, d) = elapsed::time(f);
        (t, Some(d))
      }
    });
    check!(runs.get() == 1, &format!("{P}/runs"), "the call ran {} times", runs.get());
    let ((t, start, end, on), d) = match r {
      Caught::Ok(x) => x,
      Caught::Injected(7) => {
        ev!("-> panicked");
        tally("after a call that panicked", "logged-after-panic");
        return false;
      }
      Caught::Injected(8) => {
        // the record was made all the same
        ev!("-> the logger panicked");
        DUE.with(|d| d.set(d.get() + 1));
        tally("after a call whose logger panicked", "record-count");
        return true;
      }
      Caught::Injected(_) => unreachable!(),
      Caught::Panic(m) => vsim::violate(&format!("{P}/panic"), format!("timing panicked: {m}")),
    };
    let want = Duration::new(
      ((end - start).max(0) / 1_000_000_000) as u64,
      ((end - start).max(0) % 1_000_000_000) as u32,
    );
    if end < start {
      vsim::probe("clock lower at the end than at the start");
    }
    ev!("-> {want:?}");
    vsim::state(vsim::hash_debug(&(logged, depth, want.as_nanos().checked_ilog10(), end < start, sched::me())));
    let Token { n, pad, drops } = &t;
    check!(
      *n == id && *pad == [id.wrapping_mul(31); 9] && drops.get() == 0,
      &format!("{P}/result-altered"),
      "result {n} {pad:?} dropped {} times, wanted {id}", drops.get()
    );
    let drops = drops.clone();
    drop(t);
    check!(drops.get() == 1, &format!("{P}/result-altered"), "result dropped {} times", drops.get());
    if let Some(d) = d {
      check!(d == want, &format!("{P}/duration"), "reported {d:?}, but {want:?} passed during the call");
      tally("after a timed call", "logged-by-time");
    } else {
      if on {
        DUE.with(|d| d.set(d.get() + 1));
      }
      tally("after a logged call", "record-count");
      if on {
        let r = records().pop().unwrap();
        check!(r.level == log::Level::Info, &format!("{P}/level"), "record {r:?}");
        let rest = r.text.find(msg).map(|i| format!("{} {}", &r.text[..i], &r.text[i + msg.len()..]));
        let shown = rest.as_deref().map(|s| s.trim_matches(|c: char| !c.is_alphanumeric()).to_owned());
        check!(
          shown.as_deref() == Some(format!("{want:?}").as_str()),
          &format!("{P}/record"),
          "record {:?}, wanted message {msg:?} and time {want:?}", r.text
        );
      }
    }
    true
  })
}

fn run() {
  RECORDS.lock().unwrap().clear();
  log::set_max_level(vsim::pick(&LEVELS));
  let wall = i128::from(vsim::range(0, 3_000_000_000)) * 1_000_000_000;
  let mono = match vsim::choose(3) {
    0 => i128::from(vsim::range(0, 1_000_000)),
    1 => i128::from(vsim::range(0, 10_000_000)) * 1_000_000_000 + 999_999_999,
    _ => i128::from(vsim::range(0, 1 << 40)) * 1_000_003,
  };
  simos::set_clock(Some(simos::Clock { mono_ns: mono, wall_ns: wall, read_cost: 0 }));
  let n = vsim::range(1, 3);
  let mut tasks: Vec<Box<dyn FnOnce()>> = Vec::new();
  for _ in 0..n {
    let calls = vsim::range(1, 3);
    let panics = vsim::range(0, 2) as u32;
    tasks.push(Box::new(move || {
      simos::use_clock(true);
      DUE.with(|d| d.set(0));
      BUSY.set(false);
      let panics = Cell::new(panics);
      for _ in 0..calls {
        if vsim::chance(1, 10) {
          vsim::fault("timed while a panic was under way");
          vsim::while_unwinding(|| {
            call(2, &panics);
          });
        } else {
          call(3, &panics);
        }
        weather();
      }
      simos::use_clock(false);
    }));
  }
  if n == 1 && vsim::chance(3, 4) {
    tasks.pop().unwrap()();
  } else {
    sched::run_tasks(100, tasks);
  }
  simos::set_clock(None);
  vsim::nontrivial();
}

fn main() {
  vsim::cli::main(&[vsim::cli::Prop {
    id: P,
    run,
    quick: 600_000,
    thorough_factor: 40,
    rule: "each case is up to 3 tasks with up to 3 trees of nested timed and logged calls; every case times at least one call and counts as non-trivial; distinct: by event-log hash",
    state_measure: "distinct (timed or logged, depth, magnitude of the duration, clock stepped back, task)",
    real: &["elapsed::time", "elapsed::log", "std::time::Instant", "log facade"],
    stub: &["clock_gettime", "threads (real, scheduled one at a time)", "logger"],
    faults: &["wall clock jumped", "monotonic clock stepped back", "the call panicked", "the logger panicked", "timed while a panic was under way"],
    probes: &["nested call", "clock lower at the end than at the start", "log level changed", "the logger times and logs too"],
    init: || {
      let _ = log::set_logger(&Capture);
    },
  }])
}

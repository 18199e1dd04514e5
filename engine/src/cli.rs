//! Command line of a simulation binary: seeded search in forked shards, minimisation, replay.

use crate::sys::{self, Shm};
use crate::{MAX_TAPE, Outcome, Source, execute};
use std::collections::{BTreeMap, HashSet};
use std::fmt::Write as _;
use std::io::{Read as _, Write as _};
use std::path::{Path, PathBuf};
use std::time::{Duration, Instant};

/// One simulated property.
pub struct Prop {
  pub id: &'static str,
  pub run: fn(),
  /// Runs of the quick tier, per variant.
  pub quick: u64,
  /// The thorough tier makes this many times more.
  pub thorough_factor: u64,
  pub rule: &'static str,
  pub state_measure: &'static str,
  pub real: &'static [&'static str],
  pub stub: &'static [&'static str],
  /// Fault kinds the simulator can inject.
  pub faults: &'static [&'static str],
  /// Rare conditions that runs should reach.
  pub probes: &'static [&'static str],
  /// Called once per shard process, before its runs.
  pub init: fn(),
}

const CPU_LIMIT: i64 = 20;
const STUCK: Duration = Duration::from_secs(90);
const MEMORY: u64 = 6 << 30;
const REPEAT: u64 = 48;
const SAMPLES: u64 = 3;

fn seed_of(base: u64, prop: &str, idx: u64) -> u64 {
  let mut h = 0xcbf2_9ce4_8422_2325u64;
  for b in prop.bytes().chain(base.to_le_bytes()).chain(idx.to_le_bytes()) {
    h = (h ^ u64::from(b)).wrapping_mul(0x0000_0100_0000_01b3);
  }
  h ^ (h >> 29)
}

fn json(s: &str) -> String {
  let mut r = String::from("\"");
  for c in s.chars() {
    match c {
      '"' => r.push_str("\\\""),
      '\\' => r.push_str("\\\\"),
      '\n' => r.push_str("\\n"),
      c if (c as u32) < 0x20 || c as u32 == 0x7f => {
        let _ = write!(r, "\\u{:04x}", c as u32);
      }
      c => r.push(c),
    }
  }
  r.push('"');
  r
}

#[derive(Default)]
struct Part {
  evals: u64,
  nontrivial: u64,
  hashes: HashSet<u64>,
  states: HashSet<u64>,
  faults: BTreeMap<String, u64>,
  probes: BTreeMap<String, u64>,
  steps: u64,
  switches: u64,
  sim_nanos: u64,
  decisions: u64,
  /// hashes of the first runs, to be compared with a repetition
  first: BTreeMap<u64, u64>,
  samples: BTreeMap<u64, String>,
  violation: Option<(u64, String, String, Vec<u32>, Vec<(u32, u32)>)>,
}

impl Part {
  fn add(&mut self, idx: u64, o: Outcome) {
    self.evals += 1;
    self.decisions += o.tape.len() as u64;
    if o.nontrivial {
      self.nontrivial += 1;
      self.hashes.insert(o.hash);
    }
    if self.states.len() < 2_000_000 {
      self.states.extend(o.states);
    }
    for (k, v) in o.stats.faults {
      *self.faults.entry(k.to_owned()).or_default() += v;
    }
    for (k, v) in o.stats.probes {
      *self.probes.entry(k.to_owned()).or_default() += v;
    }
    self.steps += o.stats.steps;
    self.switches += o.stats.switches;
    self.sim_nanos = self.sim_nanos.saturating_add(o.stats.sim_nanos);
    if idx < REPEAT {
      self.first.insert(idx, o.hash);
    }
    if let Some(t) = o.trace {
      let mut s = String::new();
      for l in t.iter().take(40) {
        let l: String = l.chars().take(200).collect();
        s.push_str(&l);
        s.push('\n');
      }
      if t.len() > 40 {
        let _ = writeln!(s, "... {} more events", t.len() - 40);
      }
      self.samples.insert(idx, s);
    }
    if let Some(v) = o.violation {
      self.violation = Some((idx, v.class, v.msg, o.tape, o.spans));
    }
  }

  fn encode(&self) -> Vec<u8> {
    fn n(v: &mut Vec<u8>, x: u64) {
      v.extend(x.to_le_bytes());
    }
    fn s(v: &mut Vec<u8>, x: &str) {
      n(v, x.len() as u64);
      v.extend(x.as_bytes());
    }
    let mut v = Vec::new();
    for x in
      [self.evals, self.nontrivial, self.steps, self.switches, self.sim_nanos, self.decisions]
    {
      n(&mut v, x);
    }
    for set in [&self.hashes, &self.states] {
      n(&mut v, set.len() as u64);
      for &x in set {
        n(&mut v, x);
      }
    }
    for m in [&self.faults, &self.probes] {
      n(&mut v, m.len() as u64);
      for (k, &x) in m {
        s(&mut v, k);
        n(&mut v, x);
      }
    }
    n(&mut v, self.first.len() as u64);
    for (&k, &x) in &self.first {
      n(&mut v, k);
      n(&mut v, x);
    }
    n(&mut v, self.samples.len() as u64);
    for (&k, x) in &self.samples {
      n(&mut v, k);
      s(&mut v, x);
    }
    if let Some((idx, class, msg, tape, spans)) = &self.violation {
      n(&mut v, 1);
      n(&mut v, *idx);
      s(&mut v, class);
      s(&mut v, msg);
      n(&mut v, tape.len() as u64);
      for &x in tape {
        n(&mut v, u64::from(x));
      }
      n(&mut v, spans.len() as u64);
      for &(a, b) in spans {
        n(&mut v, u64::from(a));
        n(&mut v, u64::from(b));
      }
    } else {
      n(&mut v, 0);
    }
    v
  }

  fn merge_encoded(&mut self, v: &[u8]) -> Option<()> {
    struct C<'a>(&'a [u8]);
    impl C<'_> {
      fn n(&mut self) -> Option<u64> {
        let (a, b) = self.0.split_first_chunk::<8>()?;
        self.0 = b;
        Some(u64::from_le_bytes(*a))
      }
      fn s(&mut self) -> Option<String> {
        let l = self.n()? as usize;
        let (a, b) = self.0.split_at_checked(l)?;
        self.0 = b;
        Some(String::from_utf8_lossy(a).into_owned())
      }
    }
    let mut c = C(v);
    self.evals += c.n()?;
    self.nontrivial += c.n()?;
    self.steps += c.n()?;
    self.switches += c.n()?;
    self.sim_nanos = self.sim_nanos.saturating_add(c.n()?);
    self.decisions += c.n()?;
    for set in [&mut self.hashes, &mut self.states] {
      for _ in 0..c.n()? {
        set.insert(c.n()?);
      }
    }
    for m in [&mut self.faults, &mut self.probes] {
      for _ in 0..c.n()? {
        let k = c.s()?;
        *m.entry(k).or_default() += c.n()?;
      }
    }
    for _ in 0..c.n()? {
      let k = c.n()?;
      let x = c.n()?;
      self.first.insert(k, x);
    }
    for _ in 0..c.n()? {
      let k = c.n()?;
      let x = c.s()?;
      self.samples.insert(k, x);
    }
    if c.n()? == 1 {
      let idx = c.n()?;
      let class = c.s()?;
      let msg = c.s()?;
      let mut tape = Vec::new();
      for _ in 0..c.n()? {
        tape.push(c.n()? as u32);
      }
      let mut spans = Vec::new();
      for _ in 0..c.n()? {
        let a = c.n()? as u32;
        let b = c.n()? as u32;
        spans.push((a, b));
      }
      if self.violation.as_ref().is_none_or(|x| idx < x.0) {
        self.violation = Some((idx, class, msg, tape, spans));
      }
    }
    Some(())
  }
}

struct Shard {
  pid: i32,
  shm: *mut Shm,
  out: PathBuf,
  done: bool,
  last: (u64, Instant),
}

fn rd(p: *const u64) -> u64 {
  // SAFETY: points into a live shared mapping.
  unsafe { p.read_volatile() }
}
fn wr(p: *mut u64, v: u64) {
  // SAFETY: points into a live shared mapping.
  unsafe { p.write_volatile(v) }
}

/// Runs `f` in a forked child; never returns in the child.
fn fork_child(f: impl FnOnce() -> i32) -> i32 {
  let _ = std::io::stdout().flush();
  // SAFETY: the parent has a single thread.
  let pid = unsafe { sys::fork() };
  assert!(pid >= 0, "fork failed");
  if pid == 0 {
    sys::die_with_parent();
    let code = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)).unwrap_or_else(|_| {
      eprintln!("harness panic: {}", crate::last_panic());
      99
    });
    // SAFETY: ends the child without running the parent's exit handlers.
    unsafe { sys::_exit(code) }
  }
  pid
}

enum End {
  Exit(i32),
  Signal(i32),
}

fn wait(pid: i32, block: bool) -> Option<End> {
  let mut st = 0;
  loop {
    // SAFETY: valid pointer.
    let r = unsafe { sys::waitpid(pid, &raw mut st, if block { 0 } else { sys::WNOHANG }) };
    if r == pid {
      break;
    }
    if r == 0 {
      return None;
    }
  }
  let sig = st & 0x7f;
  Some(if sig == 0 { End::Exit((st >> 8) & 0xff) } else { End::Signal(sig) })
}

fn signal_class(prop: &str, sig: i32) -> String {
  match sig {
    sys::SIGPROF => format!("{prop}/no-progress"),
    6 => format!("{prop}/abort"),
    11 | 7 => format!("{prop}/crash"),
    s => format!("{prop}/signal-{s}"),
  }
}

fn quiet_stderr() {
  if std::env::var_os("VSIM_STDERR").is_some() {
    return;
  }
  if let Ok(f) = std::fs::OpenOptions::new().write(true).open("/dev/null") {
    use std::os::fd::AsRawFd as _;
    // SAFETY: both descriptors are open.
    unsafe { sys::dup2(f.as_raw_fd(), 2) };
  }
}

fn prepare(p: &Prop, cpu: usize) {
  crate::install_panic_hook();
  sys::pin(cpu);
  sys::limit_memory(MEMORY);
  (p.init)();
}

fn shm_tape_of(shm: *const Shm) -> Vec<u32> {
  // SAFETY: live mapping; the writer is dead.
  unsafe {
    let n = ((*shm).tape_len as usize).min(MAX_TAPE);
    (0..n).map(|i| (&raw const (*shm).tape[i]).read_volatile()).collect()
  }
}

struct Found {
  /// Seeds of the runs that must come first in the same process, if the violation depends on what
  /// they left behind in it.
  history: Vec<u64>,
  idx: u64,
  class: String,
  msg: String,
  tape: Vec<u32>,
  spans: Vec<(u32, u32)>,
}

/// One candidate of the minimiser, executed in a forked child.
struct Tried {
  class: String,
  tape: Vec<u32>,
  spans: Vec<(u32, u32)>,
}

/// Executes the runs that come before a candidate in its process.
fn before(p: &Prop, history: &[u64]) {
  for &seed in history {
    sys::arm_cpu_limit(CPU_LIMIT);
    let _ = execute(p.id, &p.run, Source::Seed(seed), false);
    sys::arm_cpu_limit(0);
  }
}

fn try_tape(p: &Prop, history: &[u64], tape: Source<'_>, shm: *mut Shm, cpu: i64) -> Option<Tried> {
  // SAFETY: live mapping, no other user now.
  unsafe {
    (*shm).tape_len = 0;
    (*shm).class_len = 0;
    (*shm).span_len = 0;
    (*shm).result = 0;
  }
  let pid = fork_child(|| {
    quiet_stderr();
    prepare(p, 0);
    before(p, history);
    sys::set_shm(shm);
    sys::arm_cpu_limit(cpu);
    let o = execute(p.id, &p.run, tape, false);
    sys::arm_cpu_limit(0);
    // SAFETY: live mapping, only this process writes it now.
    unsafe {
      if let Some(v) = o.violation {
        let b = v.class.as_bytes();
        let n = b.len().min(256);
        (&mut (*shm).class)[..n].copy_from_slice(&b[..n]);
        (*shm).class_len = n as u64;
        let sp = &mut (*shm).spans;
        let n = o.spans.len().min(sp.len());
        sp[..n].copy_from_slice(&o.spans[..n]);
        (*shm).span_len = n as u64;
        (*shm).result = 1;
      } else {
        (*shm).result = 2;
      }
    }
    0
  });
  let t0 = Instant::now();
  let end = loop {
    if let Some(e) = wait(pid, false) {
      break e;
    }
    if t0.elapsed() > STUCK {
      // SAFETY: our own child.
      unsafe { sys::kill(pid, sys::SIGKILL) };
      wait(pid, true);
      break End::Signal(sys::SIGPROF);
    }
    std::thread::sleep(Duration::from_micros(200));
  };
  let tape = shm_tape_of(shm);
  match end {
    End::Signal(s) => Some(Tried { class: signal_class(p.id, s), tape, spans: Vec::new() }),
    End::Exit(0) => {
      // SAFETY: the writer is dead.
      unsafe {
        if (*shm).result != 1 {
          return None;
        }
        let n = (*shm).class_len as usize;
        let class = String::from_utf8_lossy(&(&(*shm).class)[..n]).into_owned();
        let n = (*shm).span_len as usize;
        let spans = (&(*shm).spans)[..n].to_vec();
        Some(Tried { class, tape, spans })
      }
    }
    End::Exit(_) => None,
  }
}

/// Finds few earlier runs of the same shard after which the violation appears.
fn find_history(
  p: &Prop,
  base: u64,
  shards: u64,
  f: &mut Found,
  shm: *mut Shm,
  cpu: i64,
  tries: &mut u64,
) -> Option<Tried> {
  let start = Instant::now();
  let budget = Duration::from_secs(60);
  let seed = seed_of(base, p.id, f.idx);
  let all: Vec<u64> = (0..f.idx / shards)
    .map(|i| seed_of(base, p.id, f.idx % shards + i * shards))
    .collect();
  let mut attempt = |h: &[u64]| {
    *tries += 1;
    try_tape(p, h, Source::Seed(seed), shm, cpu).filter(|t| t.class == f.class)
  };
  let mut k = 1;
  let (mut best, mut got) = loop {
    let h = &all[all.len() - all.len().min(k)..];
    if let Some(t) = attempt(h) {
      break (h.to_vec(), t);
    }
    if k >= all.len() {
      return None;
    }
    k *= 4;
  };
  let mut n = best.len().div_ceil(2);
  while !best.is_empty() {
    let mut i = 0;
    while i < best.len() && start.elapsed() < budget {
      let mut h = best.clone();
      h.drain(i..(i + n).min(best.len()));
      if let Some(t) = attempt(&h) {
        best = h;
        got = t;
      } else {
        i += n;
      }
    }
    if n == 1 || start.elapsed() >= budget {
      break;
    }
    n = n.div_ceil(2);
  }
  f.history = best;
  Some(got)
}

/// Minimises a tape, keeping the class of the violation.
fn shrink(p: &Prop, base: u64, shards: u64, f: &mut Found) -> (u64, bool) {
  let shm = sys::new_shm();
  let budget = Duration::from_secs(60);
  let mut tries = 0u64;
  let cpu = if f.class.ends_with("no-progress") { 4 } else { CPU_LIMIT };
  let class = f.class.clone();
  let mut best = f.tape.clone();
  let same = |t: &Tried| t.class == class;
  let mut first = try_tape(p, &[], Source::Tape(&best), shm, cpu).filter(same);
  if first.is_none() {
    // it depends on what earlier runs left behind in the process
    first = find_history(p, base, shards, f, shm, cpu, &mut tries);
  }
  let Some(first) = first else { return (tries + 1, false) };
  best = first.tape;
  let mut spans = first.spans;
  let history = f.history.clone();
  let (start, budget) = (Instant::now(), if history.is_empty() { budget } else { budget / 2 });
  let better = |a: &[u32], b: &[u32]| {
    a.len() < b.len()
      || (a.len() == b.len()
        && a.iter().map(|&x| u64::from(x)).sum::<u64>() < b.iter().map(|&x| u64::from(x)).sum())
  };
  let attempt =
    |cand: Vec<u32>, best: &mut Vec<u32>, spans: &mut Vec<(u32, u32)>, tries: &mut u64| -> bool {
      if *tries >= 4000 || start.elapsed() > budget {
        return false;
      }
      *tries += 1;
      if let Some(t) = try_tape(p, &history, Source::Tape(&cand), shm, cpu) {
        // trailing zeros read the same as nothing
        let mut tape = t.tape;
        while tape.last() == Some(&0) {
          tape.pop();
        }
        if t.class == class && better(&tape, best) {
          *best = tape;
          *spans = t.spans;
          return true;
        }
      }
      false
    };
  loop {
    let mut improved = false;
    // truncation
    let mut n = best.len() / 2;
    while n > 0 {
      if best.len() >= n {
        let mut c = best.clone();
        c.truncate(best.len() - n);
        if attempt(c, &mut best, &mut spans, &mut tries) {
          improved = true;
          continue;
        }
      }
      n /= 2;
    }
    // spans, longest first
    let mut i = 0;
    let mut order: Vec<(u32, u32)> = spans.clone();
    order.sort_by_key(|s| std::cmp::Reverse(s.1.saturating_sub(s.0)));
    while i < order.len() {
      let (a, b) = order[i];
      let (a, b) = (a as usize, (b as usize).min(best.len()));
      if a < b {
        let mut c = best.clone();
        c.drain(a..b);
        if attempt(c, &mut best, &mut spans, &mut tries) {
          improved = true;
          order = spans.clone();
          order.sort_by_key(|s| std::cmp::Reverse(s.1.saturating_sub(s.0)));
          continue;
        }
      }
      i += 1;
    }
    // blocks
    for k in [8usize, 4, 2, 1] {
      let mut i = best.len().saturating_sub(k);
      loop {
        if i + k <= best.len() {
          let mut c = best.clone();
          c.drain(i..i + k);
          if attempt(c, &mut best, &mut spans, &mut tries) {
            improved = true;
          }
        }
        if i == 0 {
          break;
        }
        i -= 1;
        i = i.min(best.len());
      }
    }
    // values
    let mut i = 0;
    while i < best.len() {
      if best[i] > 0 {
        let mut c = best.clone();
        c[i] = 0;
        if attempt(c, &mut best, &mut spans, &mut tries) {
          improved = true;
        } else {
          let mut lo = 0u32;
          while i < best.len() && best[i] > lo + 1 {
            let mid = lo + (best[i] - lo) / 2;
            let mut c = best.clone();
            c[i] = mid;
            if attempt(c, &mut best, &mut spans, &mut tries) {
              improved = true;
            } else {
              lo = mid;
            }
          }
        }
      }
      i += 1;
    }
    if !improved || tries >= 4000 || start.elapsed() > budget {
      break;
    }
  }
  f.tape = best;
  (tries, true)
}

/// Executes a tape in a fresh child writing its events to `to` as they happen; returns the class
/// of the violation and the hash of the log (zero if the child died).
fn traced(p: &Prop, history: &[u64], tape: &[u32], to: &Path) -> (Option<String>, u64, String) {
  let shm = sys::new_shm();
  let f = std::fs::File::create(to).expect("trace file");
  let msgf = to.with_extension("msg");
  let _ = std::fs::write(&msgf, "");
  let pid = fork_child(|| {
    quiet_stderr();
    prepare(p, 0);
    before(p, history);
    crate::set_live(Some(f));
    sys::arm_cpu_limit(CPU_LIMIT);
    let o = execute(p.id, &p.run, Source::Tape(tape), false);
    sys::arm_cpu_limit(0);
    // SAFETY: live mapping.
    unsafe { (*shm).seed = o.hash };
    if let Some(v) = o.violation {
      let _ = std::fs::write(&msgf, format!("{}\n{}", v.class, v.msg));
      1
    } else {
      0
    }
  });
  let t0 = Instant::now();
  let end = loop {
    if let Some(e) = wait(pid, false) {
      break e;
    }
    if t0.elapsed() > STUCK {
      // SAFETY: our own child.
      unsafe { sys::kill(pid, sys::SIGKILL) };
      wait(pid, true);
      break End::Signal(sys::SIGPROF);
    }
    std::thread::sleep(Duration::from_millis(1));
  };
  // SAFETY: the writer is dead.
  let hash = unsafe { (*shm).seed };
  let m = std::fs::read_to_string(&msgf).unwrap_or_default();
  let _ = std::fs::remove_file(&msgf);
  match end {
    End::Signal(s) => (Some(signal_class(p.id, s)), 0, format!("the run ended with signal {s}")),
    End::Exit(0) => (None, hash, String::new()),
    End::Exit(1) => {
      let (c, m) = m.split_once('\n').unwrap_or((&m, ""));
      (Some(c.to_owned()), hash, m.to_owned())
    }
    End::Exit(n) => (Some(format!("harness/exit-{n}")), 0, String::new()),
  }
}

fn arg<'a>(args: &'a [String], name: &str) -> Option<&'a str> {
  args.iter().position(|a| a == name).and_then(|i| args.get(i + 1)).map(String::as_str)
}

/// Entry point of a simulation binary.
pub fn main(props: &[Prop]) -> ! {
  let args: Vec<String> = std::env::args().skip(1).collect();
  let code = match args.first().map(String::as_str) {
    Some("run") => cmd_run(props, &args),
    Some("replay") => cmd_replay(props, &args),
    Some("determinism") => cmd_determinism(props, &args),
    Some("list") => {
      for p in props {
        println!("{} {}", p.id, p.quick);
      }
      0
    }
    _ => {
      eprintln!("usage: run|replay|determinism|list");
      2
    }
  };
  let _ = std::io::stdout().flush();
  std::process::exit(code)
}

fn find<'a>(props: &'a [Prop], id: &str) -> Option<&'a Prop> {
  props.iter().find(|p| p.id == id)
}

fn cmd_run(props: &[Prop], args: &[String]) -> i32 {
  let Some(p) = arg(args, "--prop").and_then(|id| find(props, id)) else {
    eprintln!("no such property");
    return 2;
  };
  let base: u64 = arg(args, "--seed").and_then(|s| s.parse().ok()).unwrap_or(1);
  let tier = arg(args, "--tier").unwrap_or("quick");
  let variant = arg(args, "--variant").unwrap_or("rel").to_owned();
  let runs: u64 = arg(args, "--runs")
    .and_then(|s| s.parse().ok())
    .unwrap_or(if tier == "thorough" { p.quick * p.thorough_factor } else { p.quick });
  let shards: u64 = arg(args, "--shards").and_then(|s| s.parse().ok()).unwrap_or(8);
  let deadline = Duration::from_secs(arg(args, "--deadline").and_then(|s| s.parse().ok()).unwrap_or(240));
  let scratch = PathBuf::from(arg(args, "--scratch").unwrap_or("/tmp"));
  let out = PathBuf::from(arg(args, "--out").unwrap_or("/dev/stdout"));
  let replay_to = arg(args, "--replay-out").map(PathBuf::from);

  let start = Instant::now();
  let header = sys::new_shm();
  // SAFETY: live mapping.
  let stop_at = unsafe { &raw mut (*header).seed };
  wr(stop_at, u64::MAX);
  let mut list = Vec::new();
  for i in 0..shards {
    let shm = sys::new_shm();
    let outp = scratch.join(format!("part-{}-{i}", std::process::id()));
    let op = outp.clone();
    let pid = fork_child(|| {
      quiet_stderr();
      prepare(p, i as usize);
      sys::set_shm(shm);
      let mut part = Part::default();
      let mut idx = i;
      while idx < runs && idx < rd(stop_at) && start.elapsed() < deadline {
        // SAFETY: live mapping.
        unsafe {
          wr(&raw mut (*shm).seed, idx);
          wr(&raw mut (*shm).tape_len, 0);
          wr(&raw mut (*shm).in_run, 1);
        }
        sys::arm_cpu_limit(CPU_LIMIT);
        let o = execute(p.id, &p.run, Source::Seed(seed_of(base, p.id, idx)), idx < SAMPLES);
        sys::arm_cpu_limit(0);
        // SAFETY: live mapping.
        unsafe {
          wr(&raw mut (*shm).in_run, 0);
          wr(&raw mut (*shm).runs, part.evals + 1);
        }
        part.add(idx, o);
        if part.violation.is_some() {
          if idx < rd(stop_at) {
            wr(stop_at, idx);
          }
          break;
        }
        idx += shards;
      }
      std::fs::write(&op, part.encode()).expect("write part");
      0
    });
    list.push(Shard { pid, shm, out: outp, done: false, last: (0, Instant::now()) });
  }
  let mut all = Part::default();
  let mut died: Vec<(u64, String, String, Vec<u32>)> = Vec::new();
  let mut harness_error = false;
  while list.iter().any(|s| !s.done) {
    for s in &mut list {
      if s.done {
        continue;
      }
      // SAFETY: live mapping.
      let (runs_done, in_run, idx) =
        unsafe { (rd(&raw const (*s.shm).runs), rd(&raw const (*s.shm).in_run), rd(&raw const (*s.shm).seed)) };
      let mut end = wait(s.pid, false);
      if end.is_none() {
        if s.last.0 != runs_done {
          s.last = (runs_done, Instant::now());
        } else if s.last.1.elapsed() > STUCK {
          // SAFETY: our own child.
          unsafe { sys::kill(s.pid, sys::SIGKILL) };
          wait(s.pid, true);
          end = Some(End::Signal(sys::SIGPROF));
        }
      }
      match end {
        None => {}
        Some(End::Exit(0)) => {
          s.done = true;
          let ok = std::fs::read(&s.out).ok().and_then(|v| all.merge_encoded(&v));
          let _ = std::fs::remove_file(&s.out);
          if ok.is_none() {
            harness_error = true;
          }
        }
        Some(End::Exit(c)) => {
          s.done = true;
          eprintln!("shard ended with {c}");
          harness_error = true;
        }
        Some(End::Signal(sig)) => {
          s.done = true;
          // the counters may have moved since they were read
          // SAFETY: the writer is dead.
          let (in_run, idx) = unsafe {
            let _ = (in_run, idx);
            (rd(&raw const (*s.shm).in_run), rd(&raw const (*s.shm).seed))
          };
          if in_run == 1 {
            all.evals += rd(unsafe { &raw const (*s.shm).runs }) + 1;
            died.push((
              idx,
              signal_class(p.id, sig),
              format!("the run ended with signal {sig}"),
              shm_tape_of(s.shm),
            ));
            if idx < rd(stop_at) {
              wr(stop_at, idx);
            }
          } else {
            eprintln!("shard died outside a run with signal {sig}");
            harness_error = true;
          }
        }
      }
    }
    std::thread::sleep(Duration::from_millis(3));
  }
  let search_wall = start.elapsed();
  if harness_error {
    eprintln!("harness error");
    return 2;
  }
  let mut found: Option<Found> = all.violation.take().map(|(idx, class, msg, tape, spans)| Found {
    history: Vec::new(),
    idx,
    class,
    msg,
    tape,
    spans,
  });
  for (idx, class, msg, tape) in died {
    if found.as_ref().is_none_or(|f| idx < f.idx) {
      found = Some(Found { history: Vec::new(), idx, class, msg, tape, spans: Vec::new() });
    }
  }

  // repetition of the first runs in another process: same seed, same execution
  let mut repeated = 0u64;
  let mut differing = 0u64;
  if found.is_none() && !all.first.is_empty() {
    let outp = scratch.join(format!("rep-{}", std::process::id()));
    let op = outp.clone();
    let idxs: Vec<u64> = all.first.keys().rev().copied().collect();
    let pid = fork_child(|| {
      quiet_stderr();
      prepare(p, 3);
      let mut part = Part::default();
      for idx in idxs {
        part.add(idx, execute(p.id, &p.run, Source::Seed(seed_of(base, p.id, idx)), false));
      }
      std::fs::write(&op, part.encode()).expect("write part");
      0
    });
    if let Some(End::Exit(0)) = wait(pid, true) {
      let mut rep = Part::default();
      if std::fs::read(&outp).ok().and_then(|v| rep.merge_encoded(&v)).is_some() {
        for (k, h) in &all.first {
          repeated += 1;
          if rep.first.get(k) != Some(h) {
            differing += 1;
          }
        }
      }
    }
    let _ = std::fs::remove_file(&outp);
  }

  let mut j = String::from("{\n");
  let _ = writeln!(j, "\"prop\": {}, \"variant\": {}, \"tier\": {}, \"seed\": {base},", json(p.id), json(&variant), json(tier));
  let _ = writeln!(j, "\"requested\": {runs}, \"shards\": {shards},");
  let _ = writeln!(j, "\"evaluations\": {}, \"nontrivial\": {}, \"distinct_nontrivial\": {},", all.evals, all.nontrivial, all.hashes.len());
  let _ = writeln!(j, "\"distinct_states\": {}, \"state_measure\": {},", all.states.len(), json(p.state_measure));
  let _ = writeln!(j, "\"steps\": {}, \"switches\": {}, \"sim_nanos\": {}, \"decisions\": {},", all.steps, all.switches, all.sim_nanos, all.decisions);
  let _ = writeln!(j, "\"search_wall_s\": {:.3},", search_wall.as_secs_f64());
  let _ = writeln!(j, "\"repeated\": {repeated}, \"differing\": {differing},");
  let _ = writeln!(j, "\"rule\": {},", json(p.rule));
  for (name, xs) in [("real", p.real), ("stub", p.stub)] {
    let v: Vec<String> = xs.iter().map(|s| json(s)).collect();
    let _ = writeln!(j, "\"{name}\": [{}],", v.join(", "));
  }
  for (name, known, m) in [("faults", p.faults, &all.faults), ("probes", p.probes, &all.probes)] {
    let mut m2: BTreeMap<String, u64> = known.iter().map(|k| ((*k).to_owned(), 0)).collect();
    for (k, v) in m {
      *m2.entry(k.clone()).or_default() += v;
    }
    let v: Vec<String> = m2.iter().map(|(k, v)| format!("{}: {v}", json(k))).collect();
    let _ = writeln!(j, "\"{name}\": {{{}}},", v.join(", "));
  }
  let v: Vec<String> = all.samples.iter().map(|(k, s)| format!("{{\"run\": {k}, \"seed\": {}, \"events\": {}}}", seed_of(base, p.id, *k), json(s))).collect();
  let _ = writeln!(j, "\"samples\": [{}],", v.join(", "));
  let mut code = 0;
  if let Some(mut f) = found {
    code = 1;
    let orig_len = f.tape.len();
    let (tries, reproduced) = shrink(p, base, shards, &mut f);
    let tf = scratch.join(format!("trace-{}", std::process::id()));
    let (class, hash, msg) = traced(p, &f.history, &f.tape, &tf);
    let mut trace = String::new();
    let _ = std::fs::File::open(&tf).map(|mut x| x.read_to_string(&mut trace));
    let _ = std::fs::remove_file(&tf);
    let msg = if class.as_deref() == Some(f.class.as_str()) { msg } else { f.msg.clone() };
    if let Some(rp) = replay_to {
      let mut r = String::new();
      let _ = writeln!(r, "property: {}", p.id);
      let _ = writeln!(r, "variant: {variant}");
      let _ = writeln!(r, "class: {}", f.class);
      let _ = writeln!(r, "loghash: {hash:016x}");
      let _ = writeln!(r, "base-seed: {base}");
      let _ = writeln!(r, "run: {}", f.idx);
      let _ = writeln!(r, "seed: {}", seed_of(base, p.id, f.idx));
      let _ = writeln!(r, "decisions: {} (of {orig_len} before minimising, {tries} candidates, reproduced: {reproduced})", f.tape.len());
      if !f.history.is_empty() {
        let t: Vec<String> = f.history.iter().map(u64::to_string).collect();
        let _ = writeln!(r, "history: {}", t.join(" "));
      }
      let t: Vec<String> = f.tape.iter().map(u32::to_string).collect();
      let _ = writeln!(r, "tape: {}", t.join(" "));
      let _ = writeln!(r, "message: {}", msg.replace('\n', "\\n"));
      let _ = writeln!(r, "--- schedule and fault trace ---");
      r.push_str(&trace);
      std::fs::write(&rp, r).expect("write replay file");
    }
    let _ = writeln!(j, "\"violation\": {{\"class\": {}, \"message\": {}, \"run\": {}, \"seed\": {}, \"reproduced\": {reproduced}, \"earlier_runs\": {}, \"decisions\": {}, \"decisions_before\": {orig_len}, \"candidates\": {tries}}},", json(&f.class), json(&msg), f.idx, seed_of(base, p.id, f.idx), f.history.len(), f.tape.len());
  }
  let _ = writeln!(j, "\"wall_s\": {:.3}\n}}", start.elapsed().as_secs_f64());
  if let Err(e) = std::fs::write(&out, j) {
    eprintln!("cannot write {}: {e}", out.display());
    return 2;
  }
  code
}

fn cmd_replay(props: &[Prop], args: &[String]) -> i32 {
  let Some(text) = args.get(1).and_then(|f| std::fs::read_to_string(f).ok()) else {
    eprintln!("cannot read the replay file");
    return 2;
  };
  let mut kv = BTreeMap::new();
  for l in text.lines() {
    if l.starts_with("---") {
      break;
    }
    if let Some((k, v)) = l.split_once(": ") {
      kv.insert(k, v);
    } else if let Some(k) = l.strip_suffix(':') {
      kv.insert(k, "");
    }
  }
  let Some(p) = kv.get("property").and_then(|id| find(props, id)) else {
    eprintln!("no such property here");
    return 2;
  };
  let tape: Vec<u32> =
    kv.get("tape").unwrap_or(&"").split_whitespace().filter_map(|x| x.parse().ok()).collect();
  let history: Vec<u64> =
    kv.get("history").unwrap_or(&"").split_whitespace().filter_map(|x| x.parse().ok()).collect();
  let want = kv.get("class").copied().unwrap_or("");
  let want_hash = kv.get("loghash").and_then(|h| u64::from_str_radix(h, 16).ok()).unwrap_or(0);
  let scratch = PathBuf::from(arg(args, "--scratch").unwrap_or("/tmp"));
  let tf = scratch.join(format!("replay-{}", std::process::id()));
  let (class, hash, msg) = traced(p, &history, &tape, &tf);
  let trace = std::fs::read_to_string(&tf).unwrap_or_default();
  let _ = std::fs::remove_file(&tf);
  print!("{trace}");
  match class {
    None => {
      println!("NOT REPRODUCED: no violation on this tree");
      0
    }
    Some(c) => {
      println!("VIOLATED {c}: {msg}");
      if c == want && hash == want_hash {
        println!("REPRODUCED exactly (class and event log as recorded)");
      } else if c == want {
        println!("REPRODUCED (same class; the event log differs)");
      } else {
        println!("DIFFERENT violation (recorded: {want})");
      }
      1
    }
  }
}

/// Executes many seeds once in each of two processes, in different orders and on different CPUs,
/// and compares their event logs.
fn cmd_determinism(props: &[Prop], args: &[String]) -> i32 {
  let n: u64 = arg(args, "--runs").and_then(|s| s.parse().ok()).unwrap_or(500);
  let base: u64 = arg(args, "--seed").and_then(|s| s.parse().ok()).unwrap_or(1);
  let scratch = PathBuf::from(arg(args, "--scratch").unwrap_or("/tmp"));
  let mut bad = 0;
  for p in props {
    if arg(args, "--prop").is_some_and(|x| x != p.id) {
      continue;
    }
    let mut logs = Vec::new();
    for k in 0..2usize {
      let f = scratch.join(format!("det-{}-{k}", std::process::id()));
      let fp = f.clone();
      let pid = fork_child(|| {
        quiet_stderr();
        prepare(p, 1 + 3 * k);
        let mut v = vec![0u64; n as usize];
        for i in 0..n {
          let idx = if k == 0 { i } else { n - 1 - i };
          let o = execute(p.id, &p.run, Source::Seed(seed_of(base, p.id, idx)), false);
          v[idx as usize] = o.hash;
        }
        let b: Vec<u8> = v.iter().flat_map(|x| x.to_le_bytes()).collect();
        std::fs::write(&fp, b).expect("write");
        0
      });
      let end = wait(pid, true);
      if !matches!(end, Some(End::Exit(0))) {
        println!("{}: child failed", p.id);
        bad += 1;
      }
      logs.push(std::fs::read(&f).unwrap_or_default());
      let _ = std::fs::remove_file(&f);
    }
    let diff = (0..n as usize)
      .filter(|&i| logs[0].get(i * 8..i * 8 + 8) != logs[1].get(i * 8..i * 8 + 8))
      .count();
    println!("{}: {n} seeds twice, {diff} differ", p.id);
    if diff > 0 {
      bad += 1;
    }
  }
  i32::from(bad > 0)
}

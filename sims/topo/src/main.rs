//! Simulation of T01 (visitor-driven sorting with failing lookups) and A01 (broken invariants).
//!
//! The sort runs against a visitor whose lookups fail, permanently or for a while, and which
//! discovers its dependencies as it goes (T01), and over a set storage that lies and loses
//! membership (A01). Both build configurations run.

use std::cell::{Cell, RefCell};
use std::collections::hash_map::DefaultHasher;
use std::collections::{BTreeMap, BTreeSet, HashSet};
use std::hash::BuildHasherDefault;
use std::rc::Rc;
use std::sync::Mutex;
use topo_sort::{Ret, Set, Visitor, Work};
use vsim::{Caught, Injected, check, ev};

// --- records ---------------------------------------------------------------------------------

static RECORDS: Mutex<Vec<(log::Level, String)>> = Mutex::new(Vec::new());

struct Capture;
impl log::Log for Capture {
  fn enabled(&self, _: &log::Metadata<'_>) -> bool {
    true
  }
  fn log(&self, r: &log::Record<'_>) {
    RECORDS.lock().unwrap().push((r.level(), r.args().to_string()));
  }
  fn flush(&self) {}
}
fn taken() -> Vec<(log::Level, String)> {
  std::mem::take(&mut *RECORDS.lock().unwrap())
}

// --- T01 -------------------------------------------------------------------------------------

const T: &str = "T01";

/// What a lookup of an element does.
#[derive(Clone, Copy, Debug, PartialEq)]
enum Fate {
  Works,
  /// fails for good
  Gone,
  /// fails this many times first
  Later(u32),
  /// works this many times first
  Until(u32),
}

#[derive(Default)]
struct Seen {
  lookups: u64,
  /// started and unfinished, outermost first
  open: Vec<u32>,
  open_set: HashSet<u32>,
  started: BTreeSet<u32>,
  finished: BTreeSet<u32>,
  requested: BTreeSet<u32>,
  /// number of the last failed lookup
  failed: BTreeMap<u32, u64>,
  /// number of the last lookup
  looked: BTreeMap<u32, u64>,
  tries: BTreeMap<u32, u32>,
  edges: BTreeMap<u32, Vec<u32>>,
  /// (asker, asked while in progress, lookups at that time)
  back: Vec<(u32, u32, u64)>,
  /// lookups that worked on an element in progress
  again: Vec<u32>,
  /// per element, number of lookups when its requests were made
  asked_at: BTreeMap<u32, u64>,
  pending: BTreeMap<u32, (u64, u64)>,
}

struct V<S> {
  seen: RefCell<Seen>,
  fate: BTreeMap<u32, Fate>,
  deps: BTreeMap<u32, Vec<u32>>,
  /// elements beyond the named ones form a chain of this length
  chain: u32,
  log: bool,
  _s: std::marker::PhantomData<S>,
}

impl<S> V<S> {
  fn ev(&self, f: impl FnOnce() -> String) {
    if self.log {
      ev!("{}", f());
    }
  }
}

impl<S> Visitor for V<S> {
  type Elem = u32;
  type Data = (u32, u64);
  type Set = S;

  fn enter(&self, x: u32) -> Option<(u32, u64)> {
    let mut s = self.seen.borrow_mut();
    s.lookups += 1;
    check!(s.requested.contains(&x), &format!("{T}/not-requested"), "{x} was looked up but never requested");
    check!(s.lookups < 3_000_000, &format!("{T}/no-end"), "still sorting after {} lookups", s.lookups);
    let n = s.lookups;
    s.looked.insert(x, n);
    let tries = {
      let t = s.tries.entry(x).or_default();
      *t += 1;
      *t
    };
    let ok = match self.fate.get(&x).copied().unwrap_or(Fate::Works) {
      Fate::Works => true,
      Fate::Gone => false,
      Fate::Later(n) => tries > n,
      Fate::Until(n) => tries <= n,
    };
    self.ev(|| format!("look up {x}: {ok}"));
    if !ok {
      vsim::fault(if self.fate[&x] == Fate::Gone { "lookup failed for good" } else { "lookup failed for now" });
      let n = s.lookups;
      s.failed.insert(x, n);
      return None;
    }
    if s.open_set.contains(&x) {
      s.again.push(x);
    }
    let n = s.lookups;
    s.pending.insert(x, (n, n));
    Some((x, n))
  }

  fn process(&mut self, x: u32, data: (u32, u64), work: &mut Work<u32>) {
    self.ev(|| format!("start {x}"));
    let log = self.log;
    let s = self.seen.get_mut();
    check!(
      data.0 == x && s.pending.get(&x).is_some_and(|p| p.0 == data.1),
      &format!("{T}/data"),
      "{x} was started with the data of lookup {data:?}"
    );
    check!(!s.started.contains(&x), &format!("{T}/started-twice"), "{x} was started again");
    s.started.insert(x);
    s.open.push(x);
    s.open_set.insert(x);
    let deps: Vec<u32> = if x >= 1000 {
      if x - 1000 < self.chain { vec![x + 1] } else { vec![] }
    } else {
      self.deps.get(&x).cloned().unwrap_or_default()
    };
    for &d in &deps {
      s.requested.insert(d);
      if x < 1000 && s.open_set.contains(&d) {
        let n = s.lookups;
        s.back.push((x, d, n));
      }
    }
    let n = s.lookups;
    s.asked_at.insert(x, n);
    s.edges.insert(x, deps.clone());
    if log {
      ev!("{x} asks for {deps:?}");
    }
    if x % 2 == 0 {
      for d in deps {
        work.push(d);
      }
    } else {
      work.extend(deps);
    }
  }

  fn exit(&mut self, x: u32, level: usize) {
    self.ev(|| format!("finish {x} at level {level}"));
    let s = self.seen.get_mut();
    check!(s.open.last() == Some(&x), &format!("{T}/order"), "{x} was finished while {:?} were in progress", tail(&s.open));
    s.open.pop();
    s.open_set.remove(&x);
    check!(s.finished.insert(x), &format!("{T}/finished-twice"), "{x} was finished again");
    check!(
      level == s.open.len(),
      &format!("{T}/level"),
      "{x} was finished at level {level} with {} others in progress", s.open.len()
    );
    let asked_at = s.asked_at[&x];
    for d in &s.edges[&x] {
      let fine = s.finished.contains(d)
        || s.failed.get(d).is_some_and(|&n| n > asked_at)
        // part of a cycle
        || (x < 1000 && s.open_set.contains(d));
      check!(fine, &format!("{T}/before-its-dependency"), "{x} was finished before {d}, which it asked for");
    }
  }
}

fn tail(x: &[u32]) -> &[u32] {
  &x[x.len().saturating_sub(8)..]
}

fn on_cycle(edges: &BTreeMap<u32, Vec<u32>>, x: u32) -> bool {
  let mut todo = edges.get(&x).cloned().unwrap_or_default();
  let mut seen = BTreeSet::new();
  while let Some(y) = todo.pop() {
    if y == x {
      return true;
    }
    if seen.insert(y) {
      todo.extend(edges.get(&y).into_iter().flatten().copied());
    }
  }
  false
}

fn t01_with<S: Set<Elem = u32>>(elems: impl Fn(&S) -> Option<BTreeSet<u32>>) {
  let deep = vsim::chance(1, 3000);
  let n = if vsim::chance(1, 400) { vsim::range(50, 900) } else { vsim::range(1, 9) } as u32;
  let dense = vsim::range(1, 4);
  let acyclic = vsim::chance(1, 3);
  let mut deps = BTreeMap::new();
  let mut fate = BTreeMap::new();
  for x in 0..n {
    vsim::span(|| {
      let mut ds = Vec::new();
      for _ in 0..vsim::range(0, dense) {
        let d = vsim::range(0, u64::from(n) - 1) as u32;
        if !acyclic || d < x {
          ds.push(d);
        }
      }
      deps.insert(x, ds);
      let f = match vsim::weighted(&[6, 1, 2, 1]) {
        0 => Fate::Works,
        1 => Fate::Gone,
        2 => Fate::Later(vsim::range(1, 3) as u32),
        _ => Fate::Until(vsim::range(1, 2) as u32),
      };
      fate.insert(x, f);
    });
  }
  let chain = if deep { vsim::range(100_000, 200_000) as u32 } else { vsim::range(0, 20) as u32 };
  if deep {
    vsim::probe("chain of over 100000 dependencies");
  }
  if vsim::chance(1, 4) {
    deps.get_mut(&0).unwrap().push(1000);
  }
  if vsim::chance(1, if deep { 3 } else { 40 }) {
    // asked for all of it at once
    let all = 1000..=1000 + chain;
    let d = deps.get_mut(&0).unwrap();
    if vsim::chance(1, 2) { d.extend(all) } else { d.extend(all.rev()) }
    vsim::probe("wide request");
  }
  let initial: Vec<u32> = (0..vsim::range(1, 6))
    .map(|_| if deep && vsim::chance(1, 2) { 1000 } else { vsim::range(0, u64::from(n) - 1) as u32 })
    .collect();
  ev!("{n} elements, dependencies {deps:?}, lookups {fate:?}, asked for {initial:?}");
  let mut v = V::<S> {
    seen: RefCell::default(),
    fate,
    deps,
    chain,
    log: !deep,
    _s: std::marker::PhantomData,
  };
  v.seen.get_mut().requested.extend(&initial);
  let how = vsim::choose(3);
  let Ret { done, cycle } = vsim::no_panic(&format!("{T}/panic"), "sorting", || {
    let mut w: Work<u32> = match how {
      0 => initial.iter().copied().collect(),
      _ => Work::default(),
    };
    if how == 1 {
      w.extend(initial.iter().copied());
    } else if how == 2 {
      for &x in &initial {
        w.push(x);
      }
    }
    w.run(&mut v)
  });
  let s = v.seen.take();
  ev!("finished {:?}, cycle {cycle:?}", s.finished.iter().take(12).collect::<Vec<_>>());
  check!(s.open.is_empty(), &format!("{T}/unfinished"), "{:?} were started but not finished", tail(&s.open));
  for x in &s.requested {
    let ok = s.finished.contains(x) || s.failed.contains_key(x);
    check!(ok, &format!("{T}/forgotten"), "{x} was requested but neither finished nor skipped");
  }
  for x in &initial {
    // requested from outside: not in progress then
    let ok = s.finished.contains(x) || s.failed.contains_key(x);
    check!(ok, &format!("{T}/forgotten"), "{x} was requested but neither finished nor skipped");
  }
  if let Some(d) = elems(&done) {
    check!(d == s.finished, &format!("{T}/done-set"), "the returned set is {d:?}, finished were {:?}", s.finished);
  } else {
    let ok = s.requested.iter().all(|x| done.contains(x) == s.finished.contains(x));
    check!(ok, &format!("{T}/done-set"), "the returned set is not what was finished");
  }
  // a request made while in progress is a cycle unless its lookup failed
  let unfailed = s.back.iter().any(|&(_, d, at)| {
    // no failed lookup can answer for it if none came after it was made
    s.failed.get(&d).is_none_or(|&n| n <= at)
      // and if it was not even looked up, then it must have been possible
      && (s.looked.get(&d).is_some_and(|&n| n > at)
        || !matches!(v.fate.get(&d), Some(&Fate::Until(n)) if s.tries.get(&d).is_some_and(|&t| t >= n)))
  });
  let must = !s.again.is_empty() || unfailed;
  if !s.back.is_empty() && !must {
    vsim::probe("the lookup closing a cycle failed");
  }
  match cycle {
    Some(x) => {
      vsim::probe("cycle reported");
      check!(must, &format!("{T}/cycle-invented"), "a cycle at {x} was reported; requests while in progress: {:?}", s.back);
      check!(on_cycle(&s.edges, x), &format!("{T}/cycle-wrong"), "{x} was reported to be on a cycle; requests {:?}", s.edges);
    }
    None => check!(!must, &format!("{T}/cycle-missed"), "no cycle was reported; requested while in progress: {:?}", s.back),
  }
  let r = taken();
  check!(r.is_empty(), &format!("{T}/complaint"), "the sort complained: {r:?}");
  vsim::state(vsim::hash_debug(&(&s.edges.len(), &s.finished.len(), s.failed.len(), cycle, s.lookups.min(100))));
  vsim::nontrivial();
}

/// The sort of a plain graph, a visitor whose lookups always work.
fn t01_graph() {
  let n = if vsim::chance(1, 300) { vsim::range(50, 900) } else { vsim::range(0, 9) };
  let acyclic = vsim::chance(1, 2);
  let dense = vsim::range(0, 4);
  let keyed = vsim::chance(1, 2);
  let mut g: topo_sort::graph::Graph<u32> = BTreeMap::new();
  let mut order: Vec<u32> = (0..n as u32).collect();
  for i in (1..order.len()).rev() {
    let j = i - vsim::choose(i + 1);
    order.swap(i, j);
  }
  for x in 0..n as usize {
    let mut ds = BTreeSet::new();
    for _ in 0..vsim::range(0, dense) {
      let d = vsim::range(0, n - 1) as usize;
      if !acyclic || d < x {
        ds.insert(order[d]);
      }
    }
    if keyed || !ds.is_empty() {
      g.insert(order[x], ds);
    }
  }
  if vsim::chance(1, 4000) {
    let m = vsim::range(66_000, 150_000) as u32;
    for x in 0..m {
      g.insert(1000 + x, if x + 1 < m { BTreeSet::from([1001 + x]) } else { BTreeSet::new() });
    }
    vsim::probe("chain of over 60000 nodes in a graph");
  }
  ev!("graph {:?}", g.iter().take(40).collect::<Vec<_>>());
  let nodes: BTreeSet<u32> = g.iter().flat_map(|(k, v)| v.iter().chain([k])).copied().collect();
  let edges: BTreeMap<u32, Vec<u32>> = g.iter().map(|(k, v)| (*k, v.iter().copied().collect())).collect();
  // what is left after taking away nodes without neighbours, again and again
  let mut count: BTreeMap<u32, usize> = nodes.iter().map(|x| (*x, edges.get(x).map_or(0, Vec::len))).collect();
  let mut askers: BTreeMap<u32, Vec<u32>> = BTreeMap::new();
  for (x, ds) in &edges {
    for d in ds {
      askers.entry(*d).or_default().push(*x);
    }
  }
  let mut todo: Vec<u32> = count.iter().filter(|x| *x.1 == 0).map(|x| *x.0).collect();
  let mut taken_away = 0;
  while let Some(x) = todo.pop() {
    taken_away += 1;
    for a in askers.get(&x).into_iter().flatten() {
      let c = count.get_mut(a).unwrap();
      *c -= 1;
      if *c == 0 {
        todo.push(*a);
      }
    }
  }
  let cyclic = taken_away < nodes.len();
  match vsim::no_panic(&format!("{T}/panic"), "sorting a graph", || topo_sort::graph::get(&g)) {
    Ok(order) => {
      ev!("order {:?}", &order[..order.len().min(40)]);
      check!(!cyclic, &format!("{T}/graph-cycle-missed"), "the graph {edges:?} has a cycle, the order is {order:?}");
      let at: BTreeMap<u32, usize> = order.iter().enumerate().map(|x| (*x.1, x.0)).collect();
      check!(
        at.len() == order.len() && at.keys().eq(nodes.iter()),
        &format!("{T}/graph-nodes"),
        "the graph {:?} has {} nodes, the order {} of which {} differ", tail_map(&edges), nodes.len(), order.len(), at.len()
      );
      for (x, ds) in &edges {
        for d in ds {
          check!(at[d] < at[x], &format!("{T}/graph-order"), "{x} comes before its neighbour {d}");
        }
      }
    }
    Err(e) => {
      vsim::probe("cycle in a graph reported");
      let x = e.witness();
      ev!("cycle at {x}");
      check!(cyclic, &format!("{T}/graph-cycle-invented"), "{edges:?} has no cycle, one was reported at {x}");
      check!(on_cycle(&edges, x), &format!("{T}/graph-cycle-wrong"), "{x} lies on no cycle of {edges:?}");
    }
  }
  let r = taken();
  check!(r.is_empty(), &format!("{T}/complaint"), "the sort complained: {r:?}");
  vsim::state(vsim::hash_debug(&("graph", nodes.len(), taken_away)));
  vsim::nontrivial();
}

fn tail_map(x: &BTreeMap<u32, Vec<u32>>) -> Vec<(&u32, &Vec<u32>)> {
  x.iter().take(20).collect()
}

fn t01() {
  taken();
  log::set_max_level(log::LevelFilter::Trace);
  match vsim::choose(6) {
    5 => t01_graph(),
    0 => t01_with::<BTreeSet<u32>>(|s| Some(s.clone())),
    1 => t01_with::<HashSet<u32, BuildHasherDefault<DefaultHasher>>>(|s| Some(s.iter().copied().collect())),
    2 => t01_with::<fast_hash::FxHashSet<u32>>(|s| Some(s.iter().copied().collect())),
    3 => {
      // collisions make long chains slow, so only small cases
      t01_with::<HashSet<u32, BuildHasherDefault<nearly::Nearly>>>(|s| Some(s.iter().copied().collect()));
    }
    _ => t01_with::<Own>(|_| None),
  }
}

mod nearly {
  use std::hash::Hasher;
  /// Few distinct hashes for small elements, so that sets see many collisions.
  #[derive(Default)]
  pub struct Nearly(u64);
  impl Hasher for Nearly {
    fn finish(&self) -> u64 {
      if self.0 < 1000 { self.0 % 2 } else { self.0.wrapping_mul(0x9e37_79b9_7f4a_7c15) }
    }
    fn write(&mut self, b: &[u8]) {
      for &x in b.iter().rev() {
        self.0 = (self.0 << 8) | u64::from(x);
      }
    }
  }
}

/// A user's own set.
#[derive(Default)]
struct Own {
  small: u64,
  rest: BTreeSet<u32>,
}
impl Set for Own {
  type Elem = u32;
  fn contains(&self, x: &u32) -> bool {
    if *x < 64 { self.small & (1 << x) != 0 } else { self.rest.contains(x) }
  }
  fn insert(&mut self, x: u32) -> bool {
    let new = !self.contains(&x);
    if x < 64 {
      self.small |= 1 << x;
    } else {
      self.rest.insert(x);
    }
    new
  }
  fn remove(&mut self, x: &u32) -> bool {
    let had = self.contains(x);
    if *x < 64 {
      self.small &= !(1 << x);
    } else {
      self.rest.remove(x);
    }
    had
  }
  fn is_empty(&self) -> bool {
    self.small == 0 && self.rest.is_empty()
  }
}

// --- A01 -------------------------------------------------------------------------------------

const A: &str = "A01";
const DEBUG: bool = cfg!(debug_assertions);

fn error_records() -> usize {
  usize::from(log::max_level() >= log::LevelFilter::Error)
}

/// Checks what one always-check did.
fn judge(
  what: &str,
  cond: Option<bool>,
  message: &dyn Fn(&str) -> bool,
  r: Caught<bool>,
  evaluated: u32,
  args: u32,
) {
  let recs = taken();
  ev!("{what} {cond:?}: {recs:?}");
  check!(evaluated == 1, &format!("{A}/evaluated"), "{what}: the condition was evaluated {evaluated} times");
  match (cond, r) {
    (None, Caught::Injected(_)) => {
      check!(recs.is_empty(), &format!("{A}/record"), "{what}: the condition panicked and {recs:?} was logged");
    }
    (None, _) => vsim::violate(&format!("{A}/panic-lost"), format!("{what}: the panic of the condition was lost")),
    (Some(true), Caught::Ok(true)) => {
      check!(recs.is_empty() && args == 0, &format!("{A}/effect"), "{what}: a true condition logged {recs:?} and evaluated {args} arguments");
    }
    (Some(false), Caught::Ok(false)) if !DEBUG => {
      let n = error_records();
      check!(recs.len() == n, &format!("{A}/record"), "{what}: a false condition logged {recs:?}, level {}", log::max_level());
      for (l, m) in &recs {
        check!(*l == log::Level::Error && message(m), &format!("{A}/record"), "{what}: a false condition logged {l} {m:?}");
      }
    }
    (Some(false), Caught::Panic(m)) if DEBUG => {
      let m = m.rsplit_once(" at ").map_or(m.as_str(), |x| x.0);
      check!(message(m), &format!("{A}/panic-message"), "{what}: panicked with {m:?}");
    }
    (c, r) => {
      let r = match r {
        Caught::Ok(b) => format!("{b}"),
        Caught::Panic(m) => format!("panic {m}"),
        Caught::Injected(_) => "an injected panic".to_owned(),
      };
      vsim::violate(&format!("{A}/outcome"), format!("{what}: condition {c:?}, outcome {r}, debug {DEBUG}"))
    }
  }
}

fn macro_check() {
  let n = Cell::new(0u32);
  let args = Cell::new(0u32);
  let fate = match vsim::weighted(&[3, 3, 1]) {
    0 => Some(true),
    1 => Some(false),
    _ => None,
  };
  match fate {
    Some(false) => vsim::fault("invariant broken"),
    None => vsim::fault("condition panicked"),
    _ => {}
  }
  let cond = || {
    n.set(n.get() + 1);
    match fate {
      Some(b) => b,
      None => std::panic::panic_any(Injected(3)),
    }
  };
  let k = vsim::range(0, 99);
  let arg = |x: u64| {
    args.set(args.get() + 1);
    x
  };
  let form = vsim::choose(7);
  let r = vsim::catch(|| match form {
    0 => always::always!(cond()),
    1 => always::always!(cond(), "plain message"),
    2 => always::always!(cond(), "with {k}"),
    3 => always::always!(cond(), "with {} and {:?}", arg(k), "text"),
    4 => always::always!(cond(), "braces {{}} {x}", x = arg(k)),
    5 => {
      let b = always::always!(cond(), "the first: {k}");
      b
    }
    _ => {
      if always::always!(cond(), "in a condition {}", arg(k)) {
        true
      } else {
        false
      }
    }
  });
  let want = match form {
    0 => String::new(),
    1 => "plain message".into(),
    2 => format!("with {k}"),
    3 => format!("with {k} and \"text\""),
    4 => format!("braces {{}} {k}"),
    5 => format!("the first: {k}"),
    _ => format!("in a condition {k}"),
  };
  judge(&format!("always form {form}"), fate, &|m| if form == 0 { m.contains("cond()") } else { m == want }, r, n.get(), args.get());
}

fn conversions() {
  let n = match vsim::choose(4) {
    0 => vsim::range(0, 300) as usize,
    1 => u32::MAX as usize - vsim::range(0, 3) as usize,
    2 => u32::MAX as usize + 1 + vsim::range(0, 3) as usize,
    _ => (vsim::range(0, (1 << 31) - 1) as usize) << vsim::range(0, 33),
  };
  let fits = u32::try_from(n).is_ok();
  if !fits {
    vsim::fault("conversion out of range");
  }
  let mut got = None;
  let r = vsim::catch(|| {
    got = Some(always::convert::usize_to_u32(n));
    fits
  });
  if let Some(g) = got {
    let want = u32::try_from(n).unwrap_or(u32::MAX);
    check!(g == want, &format!("{A}/conversion"), "usize_to_u32({n}) is {g}");
  }
  judge(&format!("usize_to_u32({n})"), Some(fits), &|m| m.contains(&n.to_string()), r, 1, 0);
  let m = vsim::spread_u32();
  let mut got = None;
  let r = vsim::catch(|| {
    got = Some(always::convert::u32_to_usize(m));
    true
  });
  check!(got.is_none_or(|g| g as u64 == u64::from(m)), &format!("{A}/conversion"), "u32_to_usize({m}) is {got:?}");
  judge(&format!("u32_to_usize({m})"), Some(true), &|_| true, r, 1, 0);
}

struct Lies {
  left: u64,
  rate: u64,
  instances: usize,
  /// (set instance, answer) of the answers that reveal an inconsistency
  bad_removes: u64,
  bad_inserts: Vec<usize>,
  last_empty: Vec<(usize, bool)>,
}

thread_local! {
  static LIES: Rc<RefCell<Lies>> = Rc::new(RefCell::new(Lies { left: 0, rate: 0, instances: 0, bad_removes: 0, bad_inserts: vec![], last_empty: vec![] }));
}
fn lies<R>(f: impl FnOnce(&mut Lies) -> R) -> R {
  LIES.with(|l| f(&mut l.borrow_mut()))
}

/// A set that at times gives wrong answers and loses or invents members.
struct Lying {
  id: usize,
  inner: RefCell<BTreeSet<u32>>,
}
impl Default for Lying {
  fn default() -> Self {
    let id = lies(|l| {
      l.instances += 1;
      l.instances
    });
    Lying { id, inner: RefCell::default() }
  }
}

impl Lying {
  fn lie(&self, kind: &'static str) -> bool {
    let yes = lies(|l| l.left > 0 && vsim::chance(l.rate, 256) && { l.left -= 1; true });
    if yes {
      vsim::fault(kind);
    }
    yes
  }
  fn corrupt(&self) {
    if self.lie("membership corrupted") {
      let x = vsim::choose(6) as u32;
      let mut g = self.inner.borrow_mut();
      if !g.remove(&x) {
        g.insert(x);
      }
    }
  }
}

impl Set for Lying {
  type Elem = u32;
  fn contains(&self, x: &u32) -> bool {
    self.corrupt();
    self.inner.borrow().contains(x) ^ self.lie("wrong answer")
  }
  fn insert(&mut self, x: u32) -> bool {
    self.corrupt();
    let new = !self.inner.borrow().contains(&x);
    if !self.lie("insertion lost") {
      self.inner.borrow_mut().insert(x);
    }
    let ans = new ^ self.lie("wrong answer");
    ev!("set {} insert {x}: {ans}", self.id);
    if !ans {
      lies(|l| l.bad_inserts.push(self.id));
    }
    ans
  }
  fn remove(&mut self, x: &u32) -> bool {
    self.corrupt();
    let had = self.inner.borrow().contains(x);
    if !self.lie("removal lost") {
      self.inner.borrow_mut().remove(x);
    }
    let ans = had ^ self.lie("wrong answer");
    ev!("set {} remove {x}: {ans}", self.id);
    if !ans {
      lies(|l| l.bad_removes += 1);
    }
    ans
  }
  fn is_empty(&self) -> bool {
    self.corrupt();
    let ans = self.inner.borrow().is_empty() ^ self.lie("wrong answer");
    ev!("set {} is empty: {ans}", self.id);
    lies(|l| l.last_empty.push((self.id, ans)));
    ans
  }
}

struct Plain {
  deps: BTreeMap<u32, Vec<u32>>,
  open: Vec<u32>,
  steps: Cell<u64>,
}

impl Visitor for Plain {
  type Elem = u32;
  type Data = ();
  type Set = Lying;
  fn enter(&self, _: u32) -> Option<()> {
    self.steps.set(self.steps.get() + 1);
    check!(self.steps.get() < 100_000, &format!("{A}/no-end"), "the sort does not end");
    Some(())
  }
  fn process(&mut self, x: u32, (): (), w: &mut Work<u32>) {
    ev!("start {x}");
    self.open.push(x);
    w.extend(self.deps.get(&x).into_iter().flatten().copied());
  }
  fn exit(&mut self, x: u32, level: usize) {
    ev!("finish {x} at {level}");
    check!(self.open.last() == Some(&x), &format!("{A}/nesting"), "{x} finished with {:?} in progress", self.open);
    self.open.pop();
    check!(level == self.open.len(), &format!("{A}/level"), "{x} finished at level {level} with {:?} in progress", self.open);
  }
}

fn corrupt_sort() {
  let n = vsim::range(1, 6);
  let mut deps = BTreeMap::new();
  for x in 0..n as u32 {
    let ds: Vec<u32> = (0..vsim::range(0, 2)).map(|_| vsim::range(0, n - 1) as u32).collect();
    deps.insert(x, ds);
  }
  let left = vsim::range(0, 6);
  let rate = vsim::pick(&[20, 60, 160]);
  lies(|l| {
    *l = Lies { left, rate, instances: 0, bad_removes: 0, bad_inserts: vec![], last_empty: vec![] };
  });
  let initial: Vec<u32> = (0..vsim::range(1, 4)).map(|_| vsim::range(0, n - 1) as u32).collect();
  ev!("sort {initial:?} with {deps:?}, up to {left} lies");
  let mut v = Plain { deps, open: vec![], steps: Cell::new(0) };
  let r = vsim::catch(|| initial.into_iter().collect::<Work<u32>>().run(&mut v));
  let told = lies(|l| left - l.left);
  let recs = taken();
  vsim::state(vsim::hash_debug(&(told, v.steps.get(), recs.len(), v.open.len())));
  match r {
    Caught::Ok(ret) => {
      check!(v.open.is_empty(), &format!("{A}/unfinished"), "{:?} were started but not finished", v.open);
      let (bad, why) = lies(|l| {
        let ins = l.bad_inserts.iter().filter(|&&i| i == ret.done.id).count();
        // the storage of what is in progress, asked at the end
        let left = l.last_empty.last().is_some_and(|x| !x.1 && x.0 != ret.done.id);
        (l.bad_removes > 0 || ins > 0 || left, format!("{} failed removals, {ins} failed insertions, leftovers {left}", l.bad_removes))
      });
      if bad {
        vsim::probe("inconsistency noticed");
        check!(!DEBUG, &format!("{A}/debug-went-on"), "a debug build went on after {why}");
        let n = error_records();
        check!(
          (n == 0 && recs.is_empty()) || (n == 1 && recs.iter().any(|r| r.0 == log::Level::Error)),
          &format!("{A}/not-logged"),
          "{why}, logged {recs:?}"
        );
      } else {
        check!(recs.is_empty(), &format!("{A}/complaint"), "{why}, logged {recs:?}");
      }
    }
    Caught::Injected(_) => unreachable!(),
    Caught::Panic(m) => {
      check!(DEBUG, &format!("{A}/release-panicked"), "the sort panicked in a release build: {m}");
      vsim::probe("inconsistency noticed");
      check!(told > 0, &format!("{A}/panic"), "the sort panicked over an honest storage: {m}");
    }
  }
}

fn a01() {
  taken();
  log::set_max_level(vsim::pick(&[log::LevelFilter::Info, log::LevelFilter::Error, log::LevelFilter::Off]));
  for _ in 0..vsim::range(1, 6) {
    vsim::span(|| match vsim::weighted(&[3, 2, 4, 1]) {
      0 => macro_check(),
      1 => conversions(),
      3 => {
        vsim::fault("checked while a panic was under way");
        vsim::while_unwinding(|| if vsim::chance(2, 3) { macro_check() } else { conversions() });
      }
      _ => corrupt_sort(),
    });
  }
}

fn init() {
  let _ = log::set_logger(&Capture);
}

fn main() {
  vsim::cli::main(&[
    vsim::cli::Prop {
      id: T,
      run: t01,
      quick: 1_500_000,
      thorough_factor: 40,
      rule: "each case is one sort of up to 9 elements and a chain (some of over 100000) with seeded lookup failures; every case counts as non-trivial; distinct: by event-log hash",
      state_measure: "distinct (started, finished and skipped elements, cycle reported, lookups)",
      real: &["topo_sort::Work, Visitor, Set and its set types", "topo_sort::graph", "fast_hash"],
      stub: &["the visitor (the language's data source)"],
      faults: &["lookup failed for good", "lookup failed for now"],
      probes: &["cycle reported", "the lookup closing a cycle failed", "chain of over 100000 dependencies", "wide request", "cycle in a graph reported", "chain of over 60000 nodes in a graph"],
      init,
    },
    vsim::cli::Prop {
      id: A,
      run: a01,
      quick: 5_000_000,
      thorough_factor: 40,
      rule: "each case is up to 6 always-checks, conversions and sorts over a lying set, in one build configuration; non-trivial: an invariant broke, a condition panicked or the set lied; distinct: by event-log hash",
      state_measure: "distinct (lies told, lookups, records, elements left) per sort",
      real: &["always::always", "always::convert", "topo_sort::Work", "log facade"],
      stub: &["logger", "set storage", "visitor"],
      faults: &["invariant broken", "condition panicked", "checked while a panic was under way", "conversion out of range", "wrong answer", "insertion lost", "removal lost", "membership corrupted"],
      probes: &["inconsistency noticed"],
      init,
    },
  ])
}

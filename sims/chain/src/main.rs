//! Simulation of C01 (clones are independent under any interleaving) and C02 (panics in user code
//! do no damage).
//!
//! Tasks own maps, operate on them, clone them and hand them to each other. Control may change
//! hands inside every callback the map makes into key and value code (hash, eq, clone, drop), so
//! operations of different tasks interleave in the middle of one another. The reference is one
//! ordinary `BTreeMap` per map.

use chain_map::ChainMap;
use std::borrow::Borrow;
use std::collections::{BTreeMap, BTreeSet};
use std::hash::{Hash, Hasher};
use std::sync::{Arc, Mutex};
use vsim::sched::{self, Handover};
use vsim::{Caught, check, ev};


// --- instances -------------------------------------------------------------------------------

struct World {
  live: BTreeSet<u64>,
  next: u64,
  collide: bool,
  /// kind of callback and how many of them until it panics
  arm: Option<(u8, u32, usize)>,
  fired: Option<u8>,
  drop_yield: bool,
  /// how many keys there are
  keys: u16,
  /// whether there may be very many operations
  large: bool,
}

static WORLD: Mutex<World> = Mutex::new(World {
  live: BTreeSet::new(),
  next: 0,
  collide: false,
  arm: None,
  fired: None,
  drop_yield: false,
  keys: 9,
  large: false,
});

fn world<R>(f: impl FnOnce(&mut World) -> R) -> R {
  f(&mut WORLD.lock().unwrap_or_else(std::sync::PoisonError::into_inner))
}

fn some_key() -> u16 {
  vsim::choose(usize::from(world(|w| w.keys))) as u16
}

const CLONE: u8 = 0;
const HASH: u8 = 1;
const EQ: u8 = 2;

fn until_panic() -> u32 {
  let most = if world(|w| w.large) && vsim::chance(1, 2) { 600 } else { 11 };
  vsim::range(0, most) as u32
}

/// A callback from the map into user code.
fn callback(kind: u8, label: &'static str) {
  sched::yield_point(label);
  if !vsim::active() {
    return;
  }
  let me = sched::me().unwrap_or(usize::MAX);
  let boom = world(|w| match w.arm {
    Some((k, n, t)) if k == kind && t == me => {
      if n == 0 {
        w.arm = None;
        w.fired = Some(kind);
        true
      } else {
        w.arm = Some((k, n - 1, t));
        false
      }
    }
    _ => false,
  });
  if boom {
    vsim::fault(match kind {
      CLONE => "panic in clone",
      HASH => "panic in hash",
      _ => "panic in eq",
    });
    std::panic::panic_any(vsim::Injected(u32::from(kind)));
  }
}

struct Life(u64);

impl Life {
  fn new() -> Self {
    world(|w| {
      w.next += 1;
      let id = w.next;
      w.live.insert(id);
      Life(id)
    })
  }
  fn check(&self, what: &str) {
    if !world(|w| w.live.contains(&self.0)) {
      vsim::note_violation("C01/use-after-release", format!("{what} of a released instance"));
    }
  }
}

impl Drop for Life {
  fn drop(&mut self) {
    let (ok, y) = world(|w| (w.live.remove(&self.0), w.drop_yield));
    if !ok {
      vsim::note_violation("double-release", format!("instance {} released twice", self.0));
    }
    if y {
      sched::yield_point("drop");
    }
  }
}

struct Q(u16);

impl Hash for Q {
  fn hash<H: Hasher>(&self, h: &mut H) {
    callback(HASH, "hash");
    let k = if world(|w| w.collide) { self.0 % 2 } else { self.0 };
    k.hash(h);
  }
}
impl PartialEq for Q {
  fn eq(&self, o: &Q) -> bool {
    callback(EQ, "eq");
    self.0 == o.0
  }
}
impl Eq for Q {}

struct Key {
  q: Q,
  life: Life,
}

impl Key {
  fn new(k: u16) -> Self {
    Key { q: Q(k), life: Life::new() }
  }
}
impl Hash for Key {
  fn hash<H: Hasher>(&self, h: &mut H) {
    self.life.check("hash");
    self.q.hash(h);
  }
}
impl PartialEq for Key {
  fn eq(&self, o: &Key) -> bool {
    self.life.check("eq");
    self.q == o.q
  }
}
impl Eq for Key {}
impl Borrow<Q> for Key {
  fn borrow(&self) -> &Q {
    &self.q
  }
}
impl Clone for Key {
  fn clone(&self) -> Self {
    self.life.check("clone");
    callback(CLONE, "clone key");
    Key::new(self.q.0)
  }
}

struct Val {
  v: u64,
  life: Life,
}

impl Val {
  fn new(v: u64) -> Self {
    Val { v, life: Life::new() }
  }
}
impl Clone for Val {
  fn clone(&self) -> Self {
    self.life.check("clone");
    callback(CLONE, "clone value");
    Val::new(self.v)
  }
}

// --- maps with their models ------------------------------------------------------------------

type Model = BTreeMap<u16, u64>;

struct M {
  name: u32,
  real: ChainMap<Key, Val>,
  model: Model,
}

struct Shared {
  inbox: Vec<Vec<Handover<M>>>,
  next_name: u32,
  next_val: u64,
}

fn fresh_name(sh: &Mutex<Shared>) -> u32 {
  let mut g = sh.lock().unwrap();
  g.next_name += 1;
  g.next_name
}
fn fresh_val(sh: &Mutex<Shared>) -> u64 {
  let mut g = sh.lock().unwrap();
  g.next_val += 1;
  g.next_val
}

fn observe(m: &M, p: &str) -> Model {
  let mut seen = Model::new();
  for (k, v) in m.real.iter() {
    k.life.check("iteration over key");
    v.life.check("iteration over value");
    check!(
      seen.insert(k.q.0, v.v).is_none(),
      &format!("{p}/iter-duplicate"),
      "map {}: key {} came twice from iter",
      m.name,
      k.q.0
    );
  }
  seen
}

fn verify(m: &M, p: &str, when: &str) {
  let seen = observe(m, p);
  vsim::stop_if_violated();
  check!(
    seen == m.model,
    &format!("{p}/iter"),
    "map {} {when}: iter gives {seen:?}, an ordinary map holds {:?}",
    m.name,
    m.model
  );
  let all = world(|w| w.keys);
  // with many keys, those that are bound and some others
  for k in (0..all).filter(|k| all < 64 || k % 61 == 0 || m.model.contains_key(k)) {
    let got = m.real.get(&Q(k)).map(|v| v.v);
    check!(
      got == m.model.get(&k).copied(),
      &format!("{p}/get"),
      "map {} {when}: get({k}) gives {got:?}, an ordinary map holds {:?}",
      m.name,
      m.model
    );
  }
  check!(
    m.real.is_empty() == m.model.is_empty(),
    &format!("{p}/is-empty"),
    "map {} {when}: is_empty is {}, an ordinary map holds {:?}",
    m.name,
    m.real.is_empty(),
    m.model
  );
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum Kind {
  /// Must leave the map untouched when interrupted.
  Atomic,
  /// May lose bindings when interrupted by hash or eq.
  Rebuild,
}

struct Ctx {
  p: &'static str,
  me: usize,
  sh: Arc<Mutex<Shared>>,
  panics: bool,
}

impl Ctx {
  /// Runs one operation on a map, perhaps with an injected panic; returns its result if it
  /// completed. On a panic the rules of C02 are applied.
  fn op<R>(
    &self,
    maps: &mut [M],
    i: usize,
    kind: Kind,
    what: &str,
    f: impl FnOnce(&mut M) -> R,
  ) -> Option<R> {
    let arm = self.panics && vsim::chance(2, 5);
    if arm {
      let k = vsim::weighted(&[3, 2, 2]) as u8;
      let n = until_panic();
      world(|w| w.arm = Some((k, n, self.me)));
    }
    let name = maps[i].name;
    let before = maps[i].model.clone();
    let m = &mut maps[i];
    let res = vsim::catch(|| f(m));
    world(|w| {
      if w.arm.is_some_and(|a| a.2 == self.me) {
        w.arm = None;
      }
    });
    vsim::stop_if_violated();
    let p = self.p;
    match res {
      Caught::Ok(r) => Some(r),
      Caught::Panic(m) => {
        vsim::violate(&format!("{p}/panic"), format!("{what} on map {name} panicked: {m}"))
      }
      Caught::Injected(k) => {
        ev!("t{} {what} on map {name}: interrupted", self.me);
        let k = k as u8;
        let m = &mut maps[i];
        m.model = before;
        if kind == Kind::Atomic || k == CLONE {
          verify(m, p, &format!("after its {what} was interrupted"));
        } else {
          let seen = observe(m, p);
          for (k, v) in &seen {
            check!(
              m.model.get(k) == Some(v),
              &format!("{p}/invented"),
              "map {name} after its {what} was interrupted reports {k}={v}, it held {:?}",
              m.model
            );
          }
          if seen.len() < m.model.len() {
            vsim::probe("bindings lost to a hash/eq panic");
          }
          m.model = seen;
          verify(m, p, &format!("after its {what} was interrupted (lookups agree with iter)"));
        }
        // every other map of this task at once; the others verify theirs
        for (j, o) in maps.iter().enumerate() {
          if j != i {
            verify(o, p, &format!("after {what} on map {name} was interrupted"));
          }
        }
        None
      }
    }
  }
}

fn task(cx: &Ctx, steps: u64) {
  let p = cx.p;
  let me = cx.me;
  let mut maps: Vec<M> = Vec::new();
  for _ in 0..steps {
    vsim::span(|| step(cx, p, me, &mut maps));
  }
  take_inbox(cx, &mut maps);
  for m in &maps {
    verify(m, p, "at the end");
  }
  // release in a drawn order, the rest staying intact
  while !maps.is_empty() {
    let i = vsim::choose(maps.len());
    let m = maps.swap_remove(i);
    drop(m);
    for o in &maps {
      verify(o, p, "after another map was released");
    }
  }
}

fn take_inbox(cx: &Ctx, maps: &mut Vec<M>) {
  let got = std::mem::take(&mut cx.sh.lock().unwrap().inbox[cx.me]);
  for h in got {
    let m = h.into_inner();
    ev!("t{} received map {}", cx.me, m.name);
    maps.push(m);
  }
}

#[allow(clippy::too_many_lines)]
fn step(cx: &Ctx, p: &'static str, me: usize, maps: &mut Vec<M>) {
  take_inbox(cx, maps);
  let sh = &cx.sh;
  if maps.is_empty() || (maps.len() < 6 && vsim::chance(1, 12)) {
    // a new map
    let name = fresh_name(sh);
    let n = vsim::range(0, 3);
    let how = vsim::choose(3);
    let bs: Vec<(u16, u64)> =
      (0..n).map(|_| (some_key(), fresh_val(sh))).collect();
    ev!("t{me} map {name} = new({how}) {bs:?}");
    let it = bs.iter().map(|&(k, v)| (Key::new(k), Val::new(v)));
    let real: ChainMap<Key, Val> = match how {
      0 => {
        let mut r = ChainMap::default();
        for (k, v) in it {
          r.insert(k, v);
        }
        r
      }
      1 => it.collect(),
      _ => {
        if let [a, b] = &bs[..] {
          ChainMap::from([(Key::new(a.0), Val::new(a.1)), (Key::new(b.0), Val::new(b.1))])
        } else {
          it.collect()
        }
      }
    };
    let model: Model = bs.into_iter().collect();
    maps.push(M { name, real, model });
    return;
  }
  let i = vsim::choose(maps.len());
  let name = maps[i].name;
  let large = world(|w| w.large);
  let op = vsim::weighted(&[6, 5, 4, 4, 3, 3, 3, 3, 3, 2, 3, 2, 2, 2, 1, if large { 4 } else { 0 }, if large { 3 } else { 0 }]);
  let tasks = sh.lock().unwrap().inbox.len();
  match op {
    0 => {
      let k = some_key();
      let v = fresh_val(sh);
      ev!("t{me} map {name}.insert({k},{v})");
      let (key, val) = (Key::new(k), Val::new(v));
      if let Some(new) = cx.op(maps, i, Kind::Atomic, "insert", |m| m.real.insert(key, val)) {
        let m = &mut maps[i];
        let want = m.model.insert(k, v).is_none();
        check!(new == want, &format!("{p}/insert-new"), "map {name}.insert({k}) said new={new}, want {want}");
      }
    }
    1 => {
      let k = some_key();
      let got = cx.op(maps, i, Kind::Atomic, "get", |m| m.real.get(&Q(k)).map(|v| {
        sched::yield_point("holding a reference");
        v.v
      }));
      if let Some(got) = got {
        ev!("t{me} map {name}.get({k}) = {got:?}");
        check!(got == maps[i].model.get(&k).copied(), &format!("{p}/get"), "map {name}.get({k}) gave {got:?}, want {:?}", maps[i].model.get(&k));
      }
    }
    2 => {
      // clone
      if maps.len() < 8 {
        let n2 = fresh_name(sh);
        ev!("t{me} map {n2} = clone of {name}");
        let c = M { name: n2, real: maps[i].real.clone(), model: maps[i].model.clone() };
        if tasks > 1 && vsim::chance(1, 3) {
          let to = vsim::choose(tasks);
          ev!("t{me} sends map {n2} to t{to}");
          sh.lock().unwrap().inbox[to].push(Handover(c));
        } else {
          maps.push(c);
        }
      }
    }
    3 => {
      let k = some_key();
      let nv = fresh_val(sh);
      let r = cx.op(maps, i, Kind::Rebuild, "get_mut", |m| {
        m.real.get_mut(&Q(k)).map(|v| {
          let old = v.v;
          sched::yield_point("holding a mutable reference");
          v.v = nv;
          old
        })
      });
      if let Some(old) = r {
        ev!("t{me} map {name}.get_mut({k}) := {nv}, was {old:?}");
        let want = maps[i].model.get(&k).copied();
        check!(old == want, &format!("{p}/get-mut"), "map {name}.get_mut({k}) saw {old:?}, want {want:?}");
        if want.is_some() {
          maps[i].model.insert(k, nv);
        }
      }
    }
    4 => {
      let k = some_key();
      let r = cx.op(maps, i, Kind::Rebuild, "remove", |m| m.real.remove(&Q(k)));
      if let Some(old) = r {
        let old = old.map(|v| v.v);
        ev!("t{me} map {name}.remove({k}) = {old:?}");
        let want = maps[i].model.remove(&k);
        check!(old == want, &format!("{p}/remove"), "map {name}.remove({k}) gave {old:?}, want {want:?}");
      }
    }
    5 => {
      // iterate, yielding while the iterator is held
      let stop = vsim::range(0, 6) as usize;
      ev!("t{me} map {name}.iter() up to {stop}");
      let r = cx.op(maps, i, Kind::Atomic, "iter", |m| {
        let mut got = Vec::new();
        let mut it = m.real.iter();
        loop {
          if got.len() == stop && stop != 6 {
            break;
          }
          let Some((k, v)) = it.next() else { break };
          got.push((k.q.0, v.v));
          sched::yield_point("holding an iterator");
        }
        got
      });
      if let Some(got) = r {
        let m = &maps[i];
        let set: Model = got.iter().copied().collect();
        check!(set.len() == got.len(), &format!("{p}/iter-duplicate"), "map {name}.iter repeated a key: {got:?}");
        for (k, v) in &set {
          check!(m.model.get(k) == Some(v), &format!("{p}/iter"), "map {name}.iter gave {k}={v}, want {:?}", m.model);
        }
        let n = if stop == 6 { m.model.len() } else { stop.min(m.model.len()) };
        check!(got.len() == n, &format!("{p}/iter"), "map {name}.iter gave {} of {n} bindings", got.len());
      }
    }
    6 => {
      let mut next = Vec::new();
      for _ in 0..world(|w| w.keys) {
        next.push(fresh_val(sh));
      }
      let every = vsim::range(1, 3) as usize;
      ev!("t{me} map {name}.iter_mut() every {every}");
      let r = cx.op(maps, i, Kind::Rebuild, "iter_mut", |m| {
        let mut got = Vec::new();
        for (n, (k, v)) in m.real.iter_mut().enumerate() {
          let old = v.v;
          // which binding is changed must not depend on the unspecified order
          let _ = n;
          let new = if k.q.0 as usize % every == 0 { next[k.q.0 as usize] } else { old };
          v.v = new;
          got.push((k.q.0, old, new));
          sched::yield_point("holding a mutable iterator");
        }
        got
      });
      if let Some(got) = r {
        let m = &mut maps[i];
        let seen: Model = got.iter().map(|&(k, old, _)| (k, old)).collect();
        check!(seen.len() == got.len() && seen == m.model, &format!("{p}/iter-mut"), "map {name}.iter_mut gave {got:?}, want {:?}", m.model);
        for (k, _, new) in got {
          m.model.insert(k, new);
        }
      }
    }
    7 => {
      let stop = vsim::range(0, 5) as usize;
      ev!("t{me} map {name}.drain() up to {stop}");
      let r = cx.op(maps, i, Kind::Rebuild, "drain", |m| {
        let mut got = Vec::new();
        let mut it = m.real.drain();
        while stop == 5 || got.len() < stop {
          let Some((k, v)) = it.next() else { break };
          got.push((k.q.0, v.v));
          sched::yield_point("draining");
        }
        got
      });
      if let Some(got) = r {
        let m = &mut maps[i];
        let set: Model = got.iter().copied().collect();
        check!(set.len() == got.len(), &format!("{p}/drain-duplicate"), "map {name}.drain repeated a key: {got:?}");
        for (k, v) in &set {
          check!(m.model.get(k) == Some(v), &format!("{p}/drain"), "map {name}.drain gave {k}={v}, want {:?}", m.model);
        }
        let n = if stop == 5 { m.model.len() } else { stop.min(m.model.len()) };
        check!(got.len() == n, &format!("{p}/drain"), "map {name}.drain gave {} of {n} bindings", got.len());
        m.model.clear();
      }
    }
    8 => {
      ev!("t{me} map {name}.consolidate()");
      cx.op(maps, i, Kind::Rebuild, "consolidate", |m| m.real.consolidate());
    }
    9 => {
      // into_iter, partly consumed
      let stop = vsim::range(0, 5) as usize;
      let M { real, model, .. } = maps.swap_remove(i);
      ev!("t{me} map {name}.into_iter() up to {stop}");
      let arm = cx.panics && vsim::chance(2, 5);
      if arm {
        let k = vsim::weighted(&[3, 2, 2]) as u8;
        let n = until_panic();
        world(|w| w.arm = Some((k, n, me)));
      }
      let r = vsim::catch(|| {
        let mut got = Vec::new();
        let mut it = real.into_iter();
        while stop == 5 || got.len() < stop {
          let Some((k, v)) = it.next() else { break };
          got.push((k.q.0, v.v));
          sched::yield_point("consuming");
        }
        got
      });
      world(|w| {
        if w.arm.is_some_and(|a| a.2 == me) {
          w.arm = None;
        }
      });
      vsim::stop_if_violated();
      match r {
        Caught::Ok(got) => {
          let set: Model = got.iter().copied().collect();
          let n = if stop == 5 { model.len() } else { stop.min(model.len()) };
          let ok = set.len() == got.len() && got.len() == n && set.iter().all(|(k, v)| model.get(k) == Some(v));
          check!(ok, &format!("{p}/into-iter"), "map {name}.into_iter gave {got:?} of {model:?}");
        }
        Caught::Injected(_) => {
          for o in maps.iter() {
            verify(o, p, "after into_iter of another map was interrupted");
          }
        }
        Caught::Panic(m) => vsim::violate(&format!("{p}/panic"), format!("into_iter panicked: {m}")),
      }
    }
    10 => {
      // extend, duplicates allowed, the input itself yielding and using other maps
      let n = vsim::range(0, 4);
      let bs: Vec<(u16, u64)> =
        (0..n).map(|_| (some_key(), fresh_val(sh))).collect();
      ev!("t{me} map {name}.extend({bs:?})");
      let r = cx.op(maps, i, Kind::Atomic, "extend", |m| {
        m.real.extend(bs.iter().map(|&(k, v)| {
          sched::yield_point("extending");
          (Key::new(k), Val::new(v))
        }));
      });
      if r.is_some() {
        maps[i].model.extend(bs);
      }
    }
    11 => {
      // append another map
      if maps.len() >= 2 {
        let mut j = vsim::choose(maps.len() - 1);
        if j >= i {
          j += 1;
        }
        ev!("t{me} map {name}.append(map {})", maps[j].name);
        let (a, b) = if i < j {
          let (x, y) = maps.split_at_mut(j);
          (&mut x[i], &mut y[0])
        } else {
          let (x, y) = maps.split_at_mut(i);
          (&mut y[0], &mut x[j])
        };
        a.real.append(&mut b.real);
        a.model.append(&mut b.model);
        verify(&maps[j], p, "after it was appended to another");
      }
    }
    12 => {
      if tasks > 1 {
        let to = vsim::choose(tasks);
        let m = maps.swap_remove(i);
        ev!("t{me} sends map {name} to t{to}");
        sh.lock().unwrap().inbox[to].push(Handover(m));
      }
    }
    15 => {
      // many bindings
      let n = if vsim::chance(1, 3) { vsim::range(1, 400) } else { vsim::range(1, 70) };
      let first = fresh_val(sh);
      sh.lock().unwrap().next_val += n;
      let mut r = vsim::Rng::new(first);
      let all = u64::from(world(|w| w.keys));
      let bs: Vec<(u16, u64)> = (0..n).map(|x| (r.below(all) as u16, first + x)).collect();
      match vsim::choose(3) {
        0 => {
          ev!("t{me} map {name}.extend({n} bindings from {first} on)");
          let r = cx.op(maps, i, Kind::Atomic, "extend", |m| m.real.extend(bs.iter().map(|&(k, v)| (Key::new(k), Val::new(v)))));
          if r.is_some() {
            maps[i].model.extend(bs);
          }
        }
        how => {
          ev!("t{me} map {name}.insert x {n} from {first} on, {}", ["", "one by one", "each into a clone of the last"][how]);
          for (k, v) in bs {
            if how == 2 {
              let c = maps[i].real.clone();
              maps[i].real = c;
            }
            let (key, val) = (Key::new(k), Val::new(v));
            let Some(new) = cx.op(maps, i, Kind::Atomic, "insert", |m| m.real.insert(key, val)) else { break };
            let want = maps[i].model.insert(k, v).is_none();
            check!(new == want, &format!("{p}/insert-new"), "map {name}.insert({k}) said new={new}, want {want}");
          }
        }
      }
      vsim::probe("many bindings added");
    }
    16 => {
      // many layers that hold little or nothing
      let n = vsim::range(1, 40);
      let how = vsim::choose(4);
      let few: Vec<u16> = (0..vsim::range(0, 2)).map(|_| some_key()).collect();
      ev!("t{me} map {name}: {n} x {} {few:?}", ["extend with nothing", "extend", "append an empty map", "append a small map"][how]);
      for _ in 0..n {
        let bs: Vec<(u16, u64)> = if how % 2 == 0 {
          Vec::new()
        } else {
          few.iter().map(|&k| (k, fresh_val(sh))).collect()
        };
        let all = |bs: &[(u16, u64)]| -> Vec<(Key, Val)> {
          bs.iter().map(|&(k, v)| (Key::new(k), Val::new(v))).collect()
        };
        let r = if how < 2 {
          cx.op(maps, i, Kind::Atomic, "extend", |m| m.real.extend(all(&bs)))
        } else {
          let mut other: ChainMap<Key, Val> = ChainMap::default();
          let made = vsim::catch(|| other.extend(all(&bs)));
          if !matches!(made, Caught::Ok(())) {
            break;
          }
          maps[i].real.append(&mut other);
          check!(other.is_empty(), &format!("{p}/append"), "an appended map is not empty");
          Some(())
        };
        if r.is_none() {
          break;
        }
        maps[i].model.extend(bs);
      }
      let m = &maps[i];
      check!(m.real.is_empty() == m.model.is_empty(), &format!("{p}/is-empty"), "map {name} is_empty() = {}, it holds {:?}", m.real.is_empty(), m.model);
      vsim::probe("many small layers added");
    }
    13 => {
      let m = maps.swap_remove(i);
      ev!("t{me} drops map {name}");
      drop(m);
    }
    _ => {
      // read all of the bindings of one map while extending another (operations nested in one
      // another on one thread)
      if maps.len() >= 2 {
        let mut j = vsim::choose(maps.len() - 1);
        if j >= i {
          j += 1;
        }
        let other = maps[j].real.clone();
        ev!("t{me} map {name}.extend(map {}.iter())", maps[j].name);
        let add = maps[j].model.clone();
        let done = cx.op(maps, i, Kind::Atomic, "extend from a map", |m| {
          m.real.extend(other.iter().map(|(k, v)| (Key::new(k.q.0), Val::new(v.v))));
        });
        if done.is_some() {
          maps[i].model.extend(add);
        }
      }
    }
  }
  vsim::stop_if_violated();
  // look at some map, more often at all of them
  if vsim::chance(1, 2) {
    for m in maps.iter() {
      verify(m, p, "after a step");
      vsim::state(vsim::hash_debug(&(m.model.keys().take(9).collect::<Vec<_>>(), op, maps.len())));
    }
  }
}

fn simulate(p: &'static str, panics: bool) {
  let n = if vsim::chance(2, 3) { vsim::range(2, 4) as usize } else { 1 };
  let rate = vsim::pick(&[24u64, 4, 90, 200]);
  let large = vsim::chance(1, 50);
  let keys = if large { vsim::pick(&[9, 100, 700, 3000]) } else { 9 };
  let collide = keys == 9 && vsim::chance(1, 3);
  let drop_yield = vsim::chance(1, 2);
  world(|w| {
    w.live.clear();
    w.next = 0;
    w.collide = collide;
    w.keys = keys;
    w.large = large;
    w.drop_yield = drop_yield;
    w.arm = None;
  });
  let sh = Arc::new(Mutex::new(Shared {
    inbox: (0..n).map(|_| Vec::new()).collect(),
    next_name: 0,
    next_val: 100,
  }));
  let tasks: Vec<Box<dyn FnOnce()>> = (0..n)
    .map(|me| {
      let sh = sh.clone();
      let steps = vsim::range(1, if n == 1 { 24 } else { 14 });
      Box::new(move || {
        let cx = Ctx { p, me, sh, panics };
        task(&cx, steps);
      }) as Box<dyn FnOnce()>
    })
    .collect();
  sched::run_tasks(rate, tasks);
  // maps sent to tasks that had ended already
  let rest: Vec<Handover<M>> = {
    let mut g = sh.lock().unwrap();
    g.inbox.iter_mut().flat_map(std::mem::take).collect()
  };
  for h in rest {
    let m = h.into_inner();
    verify(&m, p, "left in an inbox");
    drop(m);
  }
  vsim::stop_if_violated();
  if !panics {
    let left = world(|w| w.live.len());
    check!(left == 0, &format!("{p}/never-released"), "{left} keys or values were never released");
  }
}

fn c01() {
  simulate("C01", false);
}
fn c02() {
  simulate("C02", true);
}

fn main() {
  let real: &[&str] = &["chain-map", "fast-hash", "std HashMap", "Rc (rel variant) / Arc (dbg variant)"];
  let stub: &[&str] = &["thread scheduler (seeded, one thread at a time)", "keys and values (instrumented)"];
  let state = "distinct (keys bound, last operation kind, number of maps held) at verification points";
  vsim::cli::main(&[
    vsim::cli::Prop {
      id: "C01",
      run: c01,
      quick: 300_000,
      thorough_factor: 40,
      rule: "each case is one seeded schedule of 1-4 tasks doing up to 24 operations each on shared-storage clones, with switches inside hash/eq/clone/drop callbacks; non-trivial: at least one switch in the middle of an operation or between two of them; distinct: by event-log hash",
      state_measure: state,
      real,
      stub,
      faults: &[],
      probes: &["many bindings added", "many small layers added"],
      init: || {},
    },
    vsim::cli::Prop {
      id: "C02",
      run: c02,
      quick: 300_000,
      thorough_factor: 40,
      rule: "as C01, with a panic injected at a drawn occurrence of clone, hash or eq inside a drawn operation; non-trivial: an injected panic fired or tasks switched; distinct: by event-log hash",
      state_measure: state,
      real,
      stub,
      faults: &["panic in clone", "panic in hash", "panic in eq"],
      probes: &["bindings lost to a hash/eq panic", "many bindings added", "many small layers added"],
      init: || {},
    },
  ])
}

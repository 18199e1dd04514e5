//! Simulation of S01: workers fill path stores of their own, a coordinator merges them.
//!
//! Each node's store is the real `paths::Store`; the reference is a map from the bytes of the clean
//! path to the identifier first given for it. Workers crash and are lost before their store is
//! merged, merges arrive in any order and between any nodes, and the receiver of the announcements
//! panics part-way.

use paths::{CleanPathBuf, PathId, PathMap, PathSet, Store};
use std::collections::{BTreeMap, BTreeSet};
use std::ffi::OsStr;
use std::os::unix::ffi::OsStrExt as _;
use std::path::Path;
use vsim::{Caught, Injected, check, ev};

const P: &str = "S01";
type Key = Vec<u8>;

/// The meaning of an absolute path, from its bytes.
fn clean(b: &[u8]) -> Key {
  let mut parts: Vec<&[u8]> = Vec::new();
  for c in b.split(|&c| c == b'/') {
    match c {
      b"" | b"." => {}
      b".." => {
        parts.pop();
      }
      c => parts.push(c),
    }
  }
  let mut k = Vec::new();
  for p in parts {
    k.push(b'/');
    k.extend_from_slice(p);
  }
  if k.is_empty() {
    k.push(b'/');
  }
  k
}

/// The spelling of some path.
fn spelling(wide: u64, long: u64) -> Vec<u8> {
  let names: [&[u8]; 16] = [
    b"a", b"b", b"ab", b"A", "é".as_bytes(), b"\xff", b"a b", b"...", b"\xfe", "e\u{301}".as_bytes(),
    "\u{fffd}".as_bytes(), b"a ", b"a.", b"a\\b", "\u{c9}".as_bytes(), b"\xffa",
  ];
  let mut s = Vec::new();
  for _ in 0..vsim::range(0, 3) {
    s.push(b'/');
    match vsim::weighted(&[12, 1, 1, 1]) {
      0 => {}
      1 => s.extend_from_slice(b"./"),
      2 => s.extend_from_slice(b"/"),
      _ => s.extend_from_slice(b"x/../"),
    }
    if vsim::chance(1, 12) {
      s.extend_from_slice(b"..");
    } else if wide > 0 && vsim::chance(1, 2) {
      s.extend_from_slice(format!("n{}", vsim::range(0, wide)).as_bytes());
    } else if long > 0 {
      // long names of few lengths that differ in a few places only
      let mut n = vec![b'l'; [30, 31, 70, 255][vsim::choose(4)]];
      for _ in 0..vsim::range(0, 2) {
        let at = [0, 1, n.len() / 2, 23, 24, n.len() - 2, n.len() - 1][vsim::choose(7)];
        n[at] = [b'm', b'M', 0xff][vsim::choose(3)];
      }
      s.extend_from_slice(&n);
    } else {
      s.extend_from_slice(names[vsim::choose(names.len())]);
    }
  }
  if s.is_empty() || vsim::chance(1, 8) {
    s.push(b'/');
  }
  s
}

fn show(k: &[u8]) -> String {
  k.escape_ascii().to_string()
}

#[derive(Default)]
struct Node {
  store: Store,
  /// identifiers given out
  known: BTreeMap<Key, PathId>,
  /// paths that may or may not be in the store, after an interrupted merge
  maybe: BTreeSet<Key>,
  /// data the node keeps by identifier
  data: PathMap<Key>,
  seen: PathSet,
}

impl Node {
  /// Takes note of an identifier given for a path.
  fn note(&mut self, who: &str, k: &Key, id: PathId) {
    let at = self.store.get_path(id).as_path().as_os_str().as_bytes();
    check!(at == k.as_slice(), &format!("{P}/resolves-wrong"), "{who}: the identifier given for {} resolves to {}", show(k), show(at));
    match self.known.get(k) {
      Some(&old) => check!(
        old == id,
        &format!("{P}/two-identifiers"),
        "{who}: {} has identifier {old:?} and now {id:?}", show(k)
      ),
      None => {
        let fresh = self.seen.insert(id);
        check!(fresh, &format!("{P}/identifier-shared"), "{who}: {id:?} given for {} was given for another path", show(k));
        self.known.insert(k.clone(), id);
        self.maybe.remove(k);
        self.data.insert(id, k.clone());
      }
    }
  }
  /// All identifiers given out keep their meaning.
  fn audit(&mut self, who: &str) {
    for (k, &id) in &self.known {
      let at = self.store.get_path(id).as_path().as_os_str().as_bytes();
      check!(at == k.as_slice(), &format!("{P}/resolves-wrong"), "{who}: {id:?} was given for {} and now resolves to {}", show(k), show(at));
      check!(
        self.data.get(&id) == Some(k),
        &format!("{P}/data-lost"),
        "{who}: what was stored under {id:?} of {} is {:?}", show(k), self.data.get(&id).map(|x| show(x))
      );
    }
    check!(self.data.len() == self.known.len(), &format!("{P}/data-lost"), "{who}: {} identifiers, {} stored under them", self.known.len(), self.data.len());
  }
}

fn ask(n: &mut Node, who: &str, wide: u64, long: u64) {
  let mut s = spelling(wide, long);
  let how = vsim::choose(5);
  let mut whole = s.clone();
  let mut base = Vec::new();
  if how > 2 {
    // through a base directory, which an absolute path makes irrelevant
    base = spelling(0, 0);
    if vsim::chance(3, 4) {
      let at = s.iter().position(|&c| c != b'/').unwrap_or(s.len());
      s.drain(..at);
      whole = [&base[..], b"/", &s[..]].concat();
    }
  }
  let k = clean(&whole);
  let path = Path::new(OsStr::from_bytes(&s));
  let buf = vsim::no_panic(&format!("{P}/panic"), "making a path", || {
    if how > 2 {
      let mut b = CleanPathBuf::new(Path::new(OsStr::from_bytes(&base))).expect("absolute");
      if how == 3 {
        b.push(path);
        b
      } else {
        b.as_clean_path().join(path)
      }
    } else {
      CleanPathBuf::new(path).expect("absolute")
    }
  });
  let (k, id) = vsim::no_panic(&format!("{P}/panic"), "asking for an identifier", || match how {
    0 | 3 | 4 => (k, n.store.get_id(buf.as_clean_path())),
    1 => (k, n.store.get_id_owned(buf)),
    _ => match buf.as_clean_path().parent() {
      Some(p) => (clean(p.as_path().as_os_str().as_bytes()), n.store.get_id(p)),
      None => (k, n.store.get_id(buf.as_clean_path())),
    },
  });
  ev!("{who}: {} -> {id:?} ({})", show(&k), ["borrowed", "owned", "parent", "pushed", "joined"][how]);
  n.note(who, &k, id);
}

fn run() {
  let wide = [0, 30, 1000][vsim::weighted(&[5, 2, 1])];
  let long = u64::from(vsim::chance(1, 6));
  if long > 0 {
    vsim::probe("long paths that differ little");
  }
  let workers = vsim::range(1, 4) as usize;
  // node 0 is the coordinator
  let mut nodes: Vec<Node> = (0..=workers).map(|_| Node { store: Store::new(), ..Node::default() }).collect();
  if vsim::chance(1, 10) {
    // one node knows many paths
    let n = vsim::choose(nodes.len());
    let many = match vsim::weighted(&[496, 3, 1]) {
      0 => vsim::range(50, 400),
      1 => vsim::range(1_000, 9_000),
      _ => {
        vsim::probe("store with more than 65536 paths");
        vsim::range(65_500, 66_500)
      }
    };
    for i in 0..many {
      let k = format!("/many/p{i}").into_bytes();
      let b = CleanPathBuf::new(Path::new(OsStr::from_bytes(&k))).unwrap();
      let id = if i % 2 == 0 { nodes[n].store.get_id(b.as_clean_path()) } else { nodes[n].store.get_id_owned(b) };
      nodes[n].note("bulk", &k, id);
    }
    ev!("node {n} learns {many} paths");
    vsim::probe("store with many paths");
  }
  let mut merges = 0u64;
  for _ in 0..vsim::range(2, 40) {
    vsim::span(|| {
      let i = vsim::choose(nodes.len());
      match vsim::weighted(&[12, 4, 1]) {
        0 => ask(&mut nodes[i], &format!("node {i}"), wide, long),
        1 => {
          let from = vsim::range(1, workers as u64) as usize;
          let to = if i == from { 0 } else { i };
          merge(&mut nodes, from, to, &mut merges);
        }
        _ => {
          let w = vsim::range(1, workers as u64) as usize;
          ev!("node {w} is lost with {} paths and starts again", nodes[w].known.len());
          vsim::fault("worker lost before its store was merged");
          nodes[w] = Node::default();
        }
      }
      for (i, n) in nodes.iter_mut().enumerate() {
        if n.known.len() < 60 || (i == 0 && n.known.len() < 1_000) {
          n.audit(&format!("node {i}"));
        }
      }
      vsim::state(vsim::hash_debug(&(nodes[0].known.len(), nodes[0].maybe.len(), merges)));
    });
  }
  // faults stop: everything left is merged and every identifier still works
  for w in 1..=workers {
    ev!("last merge of node {w}");
    merge_with(&mut nodes, w, 0, &mut merges, None);
  }
  let n = &mut nodes[0];
  n.audit("coordinator at the end");
  for k in n.known.keys().cloned().collect::<Vec<_>>() {
    let b = CleanPathBuf::new(Path::new(OsStr::from_bytes(&k))).unwrap();
    let id = n.store.get_id(b.as_clean_path());
    n.note("coordinator at the end", &k, id);
  }
}

fn merge(nodes: &mut [Node], from: usize, to: usize, merges: &mut u64) {
  let at = nodes[from].known.len() + nodes[from].maybe.len();
  let panic_at = (at > 0 && vsim::chance(1, 4)).then(|| vsim::range(1, at as u64));
  merge_with(nodes, from, to, merges, panic_at);
}

fn merge_with(nodes: &mut [Node], from: usize, to: usize, merges: &mut u64, panic_at: Option<u64>) {
  if from == to {
    return;
  }
  *merges += 1;
  let w = std::mem::take(&mut nodes[from]);
  let Node { store, known, maybe, data, .. } = w;
  let who = format!("merge of node {from} into {to}");
  ev!("{who}: {} paths", known.len());
  if known.keys().any(|k| nodes[to].known.contains_key(k)) {
    vsim::probe("merge of overlapping stores");
  }
  vsim::nontrivial();
  let mut pairs: Vec<(PathId, PathId)> = Vec::new();
  let target = &mut nodes[to].store;
  let r = vsim::catch(|| {
    target.combine(store, &mut |old, new| {
      pairs.push((old, new));
      if panic_at == Some(pairs.len() as u64) {
        vsim::fault("receiver of announcements panicked");
        std::panic::panic_any(Injected(1));
      }
    });
  });
  let complete = match r {
    Caught::Ok(()) => true,
    Caught::Injected(_) => false,
    Caught::Panic(m) => vsim::violate(&format!("{P}/panic"), format!("{who} panicked: {m}")),
  };
  let by_id: PathMap<Key> = known.iter().map(|(k, &id)| (id, k.clone())).collect();
  let mut announced: BTreeSet<Key> = BTreeSet::new();
  let mut olds: BTreeSet<PathId> = BTreeSet::new();
  let n = &mut nodes[to];
  for (old, new) in pairs {
    ev!("  {old:?} -> {new:?}");
    check!(olds.insert(old), &format!("{P}/announced-twice"), "{who}: {old:?} was announced twice");
    let at = n.store.get_path(new).as_path().as_os_str().as_bytes().to_vec();
    match by_id.get(&old) {
      Some(k) => {
        check!(at == *k, &format!("{P}/announced-wrong"), "{who}: {old:?} of {} was announced as {new:?}, which resolves to {}", show(k), show(&at));
        check!(data.get(&old) == Some(k), &format!("{P}/data-lost"), "{who}: {old:?} lost what was stored under it");
      }
      None => check!(maybe.contains(&at), &format!("{P}/announced-invented"), "{who}: {old:?}, never given out, was announced with {}", show(&at)),
    }
    check!(announced.insert(at.clone()), &format!("{P}/announced-twice"), "{who}: {} was announced twice", show(&at));
    n.note(&who, &at, new);
  }
  if complete {
    let missing: Vec<String> = known.keys().filter(|k| !announced.contains(*k)).map(|k| show(k)).collect();
    check!(missing.is_empty(), &format!("{P}/not-announced"), "{who}: {missing:?} not announced");
    check!(panic_at.is_none() || !maybe.is_empty(), &format!("{P}/not-announced"), "{who}: fewer announcements than paths");
  } else {
    // the rest may have arrived or not
    for k in known.into_keys().chain(maybe) {
      if !n.known.contains_key(&k) {
        n.maybe.insert(k);
      }
    }
  }
  n.audit(&who);
}

fn main() {
  vsim::cli::main(&[vsim::cli::Prop {
    id: P,
    run,
    quick: 800_000,
    thorough_factor: 40,
    rule: "each case is a coordinator and up to 4 workers with up to 40 requests, merges and losses; non-trivial: at least one merge or fault; distinct: by event-log hash",
    state_measure: "distinct (paths known to the coordinator, uncertain paths, merges so far)",
    real: &["paths::Store", "paths::CleanPathBuf", "paths::PathId, PathMap, PathSet", "idx"],
    stub: &["workers and coordinator (one thread, seeded order)", "receivers of announcements"],
    faults: &["receiver of announcements panicked", "worker lost before its store was merged"],
    probes: &["merge of overlapping stores", "store with many paths", "store with more than 65536 paths", "long paths that differ little"],
    init: || {},
  }])
}

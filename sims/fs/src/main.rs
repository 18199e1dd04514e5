//! Simulation of F01 (whole-file reads) and F02 (listings, current directory, file tests).
//!
//! `paths::RealFileSystem` and the standard library run unchanged on the simulated disk of `simos`,
//! while other processes act on that disk between system calls and system calls fail.

use paths::{CleanPathBuf, FileSystem, MemoryFileSystem, RealFileSystem};
use simos::{Disk, Faults, Node};
use std::collections::{BTreeMap, BTreeSet};
use std::ffi::OsStr;
use std::os::unix::ffi::{OsStrExt as _, OsStringExt as _};
use std::path::{Path, PathBuf};
use std::sync::{Arc, Mutex};
use vsim::{Caught, check, ev};

/// U+F780..=U+F7FF stand for bytes that are not UTF-8, see `simos::raw`.
const FILES: [&str; 9] = [
  "/simfs/a", "/simfs/b.txt", "/simfs/d/c", "/simfs/d/\u{e9}t\u{e9}", "/simfs/d/e/f", "/simfs/gone",
  "/simfs/d/.hidden", "/simfs/d/b\u{f7ff}d", "/simfs/d/b\u{f7fe}d",
];

/// Names that somebody might treat in a special way, some of them next to ones that differ little.
const ODD: [&str; 37] = [
  "/simfs/A", "/simfs/B.TXT", "/simfs/d/C", "/simfs/d/e\u{301}te\u{301}", "/simfs/d/c~", "/simfs/d/#c#",
  "/simfs/d/.#c", "/simfs/d/c.tmp", "/simfs/d/.c.swp", "/simfs/d/c.bak", "/simfs/d/ c", "/simfs/d/c ",
  "/simfs/d/c\n", "/simfs/d/-c", "/simfs/d/..c", "/simfs/d/...", "/simfs/d/back\\slash", "/simfs/d/lost+found",
  "/simfs/d/Thumbs.db", "/simfs/d/.DS_Store", "/simfs/d/core", "/simfs/d/con", "/simfs/d/c.", "/simfs/d/*",
  "/simfs/d/%63", "/simfs/d/c:d", "/simfs/d/$c", "/simfs/d/.git", "/simfs/d/\u{200b}", "/simfs/d/\u{202e}c",
  "/simfs/d/\u{1F600}", "/simfs/.c", "/simfs/c~", "/simfs/d/\u{f7ff}\u{f7fe}",
  "/simfs/dir.txt/in.rs", "/simfs/d/dir.rs/mod", "/simfs/d/.cache/c",
];
const LONG: &str = concat!(
  "/simfs/d/",
  "long567890123456789012345678901234567890123456789012345678901234567890123456789012345678901234567890",
  "1234567890123456789012345678901234567890123456789012345678901234567890123456789012345678901234567890",
  "1234567890123456789012345678901234567890123456789012345",
);
/// Directories whose names look like those of files, or are special in some places.
const ODD_DIRS: [&str; 6] =
  ["/simfs/d/dir.rs", "/simfs/dir.txt", "/simfs/d/E", "/simfs/d/node_modules", "/simfs/d/.cache", "/simfs/d/dir~"];

/// The files there may be in this run.
fn universe() -> Vec<&'static str> {
  let mut v = FILES.to_vec();
  for _ in 0..vsim::weighted(&[4, 2, 1, 1, 1]) {
    v.push(vsim::pick(&ODD));
  }
  if vsim::chance(1, 20) {
    v.push(LONG);
  }
  v.sort_unstable();
  v.dedup();
  v
}

fn raw(s: &str) -> PathBuf {
  PathBuf::from(std::ffi::OsString::from_vec(simos::raw(s)))
}

fn content() -> Vec<u8> {
  let n = match vsim::weighted(&[6, 3, 1]) {
    0 => vsim::range(0, 12),
    1 => vsim::range(13, 100),
    _ => vsim::range(1000, 3000),
  };
  let bits = ["x", "line\n", "\r\n", "é", "\u{1F600}", "\0", "\u{feff}", " ", "a"];
  let salt = vsim::range(0, 1000);
  let mut s = format!("{}", if n == 0 { String::new() } else { format!("v{salt}:") });
  let mut r = vsim::Rng::new(salt);
  if vsim::chance(1, 8) {
    s.insert(0, '\u{feff}');
  }
  for _ in 0..n {
    s.push_str(bits[r.below(bits.len() as u64) as usize]);
  }
  let mut b = s.into_bytes();
  // rarely more than a buffer, often exactly as much as some buffers hold
  if vsim::chance(1, 900) {
    let mut n = 1usize << vsim::range(10, 20);
    n = (n + vsim::range(0, 3) as usize).saturating_sub(vsim::range(0, 2) as usize);
    let fill = vsim::pick(&["0123456789abcde\n", "\u{e9}", "\u{1F600}", "q"]);
    while b.len() < n {
      b.extend_from_slice(fill.as_bytes());
    }
    if fill == "q" {
      b.truncate(n);
      while std::str::from_utf8(&b).is_err() {
        b.pop();
      }
    }
    vsim::probe("large file");
  }
  if vsim::chance(1, 8) {
    // not text: a stray byte, or a character cut short
    match vsim::choose(3) {
      0 => b.push(0xff),
      1 => b.extend([0xf0, 0x9f, 0x98]),
      _ => b.insert(b.len() / 2, 0xc3),
    }
  }
  b
}

fn disk(files: &[&str]) -> Disk {
  let mut d = Disk::default();
  for dir in ["/simfs", "/simfs/d", "/simfs/d/e", "/simfs/empty"] {
    d.nodes.insert(dir.into(), Node::Dir);
  }
  if vsim::chance(1, 3) {
    d.nodes.insert(vsim::pick(&ODD_DIRS).into(), Node::Dir);
  }
  for &f in files {
    let dir = &f[..f.rfind('/').unwrap()];
    d.nodes.entry(dir.into()).or_insert(Node::Dir);
    if f != "/simfs/gone" && vsim::chance(3, 4) {
      d.replace(f, &content());
    }
  }
  if vsim::chance(1, 300) {
    let n = vsim::pick(&[30, 127, 260, 1100]);
    for i in 0..n {
      d.nodes.insert(format!("/simfs/d/n{i}"), if i % 7 == 3 { Node::Dir } else { Node::file(b"n") });
    }
    vsim::probe("large directory");
  }
  if vsim::chance(1, 2) {
    d.nodes.insert("/simfs/pipe".into(), Node::Fifo);
    d.nodes.insert("/simfs/link".into(), Node::Link("/simfs/a".into()));
    d.nodes.insert("/simfs/dirlink".into(), Node::Link("/simfs/d".into()));
    d.nodes.insert("/simfs/dangling".into(), Node::Link("/simfs/nowhere".into()));
    d.nodes.insert("/simfs/loop".into(), Node::Link("/simfs/loop".into()));
  }
  if vsim::chance(1, 3) {
    let Node::File { data, .. } = Node::file(&content()) else { unreachable!() };
    d.nodes.insert("/simfs/secret".into(), Node::File { data, readable: false, writable: false });
  }
  d
}

/// What was true of a path at some moment of a call.
#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
enum Fact {
  File(Vec<u8>, bool),
  Dir,
  Other,
  Absent,
}

fn fact(d: &Disk, path: &str) -> Fact {
  let p = match d.walk(path, true) {
    Ok(p) => p,
    Err(simos::ENOENT) => return Fact::Absent,
    Err(_) => return Fact::Other,
  };
  match d.nodes.get(&p) {
    // with a slash at the end only a directory is meant
    Some(Node::File { .. }) if path.ends_with('/') => Fact::Other,
    Some(Node::File { data, readable, .. }) => Fact::File(data.lock().unwrap().clone(), *readable),
    Some(Node::Dir) => Fact::Dir,
    Some(Node::Fifo | Node::Link(_)) => Fact::Other,
    None => Fact::Absent,
  }
}

#[derive(Default)]
struct Watch {
  path: String,
  facts: BTreeSet<Fact>,
  dir: String,
  throughout: BTreeSet<String>,
  ever: BTreeSet<String>,
  acts: u64,
}

impl Watch {
  fn look(&mut self, d: &Disk, first: bool) {
    self.facts.insert(fact(d, &self.path));
    let now: BTreeSet<String> = d.children(&self.dir).into_iter().collect();
    if first {
      self.throughout = now.clone();
    } else {
      self.throughout = self.throughout.intersection(&now).cloned().collect();
    }
    self.ever.extend(now);
  }
}

/// Another process at work.
fn act(d: &mut Disk, w: &Arc<Mutex<Watch>>, files: &[&str]) {
  let f = vsim::pick(files);
  match vsim::weighted(&[5, 2, 2, 1]) {
    0 => {
      let c = content();
      ev!("another process replaces {f} ({} bytes)", c.len());
      d.replace(f, &c);
    }
    1 => {
      ev!("another process removes {f}");
      d.nodes.remove(f);
    }
    2 => {
      let n = format!("/simfs/d/new{}", vsim::choose(4));
      ev!("another process creates {n}");
      d.replace(&n, b"new");
    }
    _ => {
      let n = format!("/simfs/d/new{}", vsim::choose(4));
      ev!("another process removes {n}");
      d.nodes.remove(&n);
    }
  }
  vsim::fault("another process changed the disk");
  let mut g = w.lock().unwrap();
  g.acts += 1;
  g.look(d, false);
}

struct Call {
  facts: BTreeSet<Fact>,
  throughout: BTreeSet<String>,
  ever: BTreeSet<String>,
  hard: u64,
  calls: u64,
  stats_ok: u64,
}

/// Runs one call with what it could have observed.
fn watched<R>(p: &str, path: &str, dir: &str, w: &Arc<Mutex<Watch>>, what: &str, f: impl FnOnce() -> R) -> (R, Call) {
  let (h0, c0, s0) = simos::with(|sim| {
    let mut g = w.lock().unwrap();
    *g = Watch { path: path.to_owned(), dir: dir.to_owned(), ..Watch::default() };
    g.look(&sim.disk, true);
    (sim.hard, sim.calls, sim.stats_ok)
  });
  let r = match vsim::catch(f) {
    Caught::Ok(r) => r,
    Caught::Injected(_) => unreachable!(),
    Caught::Panic(m) => vsim::violate(&format!("{p}/panic"), format!("{what} panicked: {m}")),
  };
  let (hard, calls, stats_ok) = simos::with(|sim| (sim.hard - h0, sim.calls - c0, sim.stats_ok - s0));
  let g = w.lock().unwrap();
  let c = Call {
    facts: g.facts.clone(),
    throughout: g.throughout.clone(),
    ever: g.ever.clone(),
    hard,
    calls,
    stats_ok,
  };
  (r, c)
}

fn brief(b: &[u8]) -> String {
  let s = String::from_utf8_lossy(&b[..b.len().min(40)]).into_owned();
  format!("{} bytes {s:?}", b.len())
}

fn start(faults: Faults, files: &[&'static str]) -> Arc<Mutex<Watch>> {
  simos::boot(disk(files), faults);
  let w = Arc::new(Mutex::new(Watch::default()));
  let w2 = w.clone();
  let files = files.to_vec();
  simos::with(|s| s.env = Some(Box::new(move |d| act(d, &w2, &files))));
  w
}

fn reads() {
  const P: &str = "F01";
  let level = vsim::weighted(&[2, 3, 3]);
  let mut f = Faults { max_hard: 3, ..Faults::default() };
  if level > 0 {
    f.eintr = vsim::pick(&[0, 40, 120]);
    f.short = vsim::pick(&[0, 60, 200]);
    f.size_lie = vsim::pick(&[0, 60]);
    f.env = vsim::pick(&[0, 40]);
  }
  if level > 1 {
    f.io_error = vsim::pick(&[0, 30]);
    f.open_error = vsim::pick(&[0, 30]);
    f.stat_error = vsim::pick(&[0, 30]);
  }
  let files = universe();
  let w = start(f, &files);
  let real = RealFileSystem::default();
  let paths: Vec<&str> = files
    .iter()
    .copied()
    .chain(["/simfs/a/below", "/simfs/d/./c", "/simfs//a", "/simfs/a/", "/simfs/link", "/simfs/dirlink/c", "/simfs/d", "/simfs/secret", "/simfs/dangling"])
    .collect();
  for _ in 0..vsim::range(1, 6) {
    vsim::span(|| {
      let path = vsim::pick(&paths);
      let as_text = vsim::chance(1, 2);
      ev!("read {path} as {}", if as_text { "text" } else { "bytes" });
      let p = &raw(path);
      let (r, c) = watched(P, path, "/simfs/d", &w, "reading", || {
        if as_text { real.read_to_string(p).map(String::into_bytes) } else { real.read_to_bytes(p) }
      });
      vsim::state(vsim::hash_debug(&(c.calls, c.hard, c.facts.len(), r.is_ok())));
      if c.facts.len() > 1 {
        vsim::probe("file replaced or removed during a read");
      }
      match r {
        Ok(got) => {
          ev!("-> {}", brief(&got));
          let ok = c.facts.iter().any(|f| matches!(f, Fact::File(v, _) if *v == got));
          check!(
            ok,
            &format!("{P}/content"),
            "reading {path} returned {}, but its versions during the call were {}",
            brief(&got),
            c.facts.iter().map(|f| match f { Fact::File(v, _) => brief(v), o => format!("{o:?}") }).collect::<Vec<_>>().join(" / ")
          );
        }
        Err(e) => {
          ev!("-> error {:?}", e.kind());
          let excuse = c.hard > 0
            || c.facts.iter().any(|f| match f {
              Fact::File(v, readable) => !readable || (as_text && std::str::from_utf8(v).is_err()),
              _ => true,
            });
          check!(
            excuse,
            &format!("{P}/error-without-cause"),
            "reading {path} failed with {e:?} though no call failed and the file was there"
          );
          if c.hard == 0 && c.facts.len() == 1 && c.facts.contains(&Fact::Absent) {
            check!(
              e.kind() == std::io::ErrorKind::NotFound,
              &format!("{P}/error-kind"),
              "reading the missing {path} failed with {e:?}"
            );
          }
        }
      }
    });
  }
  // faults stop: the real and the in-memory file system agree on the same files
  let mut held = BTreeMap::new();
  simos::with(|s| {
    s.env = None;
    s.faults = Faults::default();
    for f in &files {
      if let Some(b) = s.disk.content(f) {
        if let Ok(t) = String::from_utf8(b) {
          held.insert(*f, t);
        } else {
          s.disk.nodes.remove(*f);
        }
      }
    }
  });
  let mem = MemoryFileSystem::new(
    held.iter().map(|(k, v)| (CleanPathBuf::new(raw(k)).unwrap(), v.clone())).collect(),
  );
  for f in files.iter().chain(&["/simfs/missing", "/simfs/d/missing"]) {
    if *f == LONG && !held.contains_key(f) {
      continue;
    }
    let p = &raw(f);
    let (a, b) = (real.read_to_string(p), mem.read_to_string(p));
    check!(
      a.as_ref().ok() == b.as_ref().ok() && a.as_ref().err().map(std::io::Error::kind) == b.as_ref().err().map(std::io::Error::kind),
      &format!("{P}/memory"),
      "text of {f}: real {:?}, in memory {:?}, held {:?}", a.map(|x| brief(x.as_bytes())), b.map(|x| brief(x.as_bytes())), held.get(f).map(|x| brief(x.as_bytes()))
    );
    let want = held.get(f).map(|x| x.as_bytes().to_vec());
    let (a, b) = (real.read_to_bytes(p), mem.read_to_bytes(p));
    check!(
      a.as_ref().ok() == want.as_ref() && b.as_ref().ok() == want.as_ref() && a.as_ref().err().map(std::io::Error::kind) == b.as_ref().err().map(std::io::Error::kind),
      &format!("{P}/memory"),
      "bytes of {f}: real {:?}, in memory {:?}", a.map(|x| brief(&x)), b.map(|x| brief(&x))
    );
    simos::with(|s| s.any_size = true);
    let (a, b) = (real.is_file(p), mem.is_file(p));
    simos::with(|s| s.any_size = false);
    check!(a == b && a == want.is_some(), &format!("{P}/memory"), "is_file of {f}: real {a}, in memory {b}");
  }
  for dir in ["/simfs", "/simfs/d", "/simfs/d/e", "/simfs/empty"].iter().chain(&ODD_DIRS) {
    let (a, b) = (real.is_file(Path::new(dir)), mem.is_file(Path::new(dir)));
    check!(!a && !b, &format!("{P}/memory"), "is_file of the directory {dir}: real {a}, in memory {b}");
  }
  let (_, left) = simos::halt();
  check!(left == 0, &format!("{P}/descriptor-leak"), "{left} descriptors left open");
}

fn facts() {
  const P: &str = "F02";
  let level = vsim::weighted(&[2, 3, 3]);
  let mut f = Faults { max_hard: 3, ..Faults::default() };
  if level > 0 {
    f.env = vsim::pick(&[0, 30, 80]);
    f.unknown_type = vsim::pick(&[0, 60]);
    f.size_lie = vsim::pick(&[0, 60]);
  }
  if level > 1 {
    f.open_error = vsim::pick(&[0, 40]);
    f.stat_error = vsim::pick(&[0, 60]);
    f.readdir_error = vsim::pick(&[0, 20, 60]);
  }
  let files = universe();
  let w = start(f, &files);
  simos::with(|s| s.any_size = true);
  let real = RealFileSystem::default();
  for _ in 0..vsim::range(1, 6) {
    vsim::span(|| match vsim::weighted(&[4, 3, 2]) {
      0 => listing(P, &real, &w),
      1 => test(P, &real, &w, &files),
      _ => cwd(P, &real, &w),
    });
  }
  // faults stop: where there are only files, the in-memory file system lists what the real one does
  let held: BTreeMap<String, BTreeSet<PathBuf>> = simos::with(|s| {
    s.env = None;
    s.faults = Faults::default();
    let mut m = BTreeMap::<String, BTreeSet<PathBuf>>::new();
    for k in s.disk.nodes.keys() {
      m.entry(k[..k.rfind('/').unwrap()].to_owned()).or_default().insert(raw(k));
    }
    m.retain(|dir, _| s.disk.children(dir).iter().all(|c| matches!(s.disk.nodes.get(&format!("{dir}/{c}")), Some(Node::File { .. }))));
    m
  });
  let mem = MemoryFileSystem::new(
    held.values().flatten().map(|k| (CleanPathBuf::new(k).unwrap(), String::new())).collect(),
  );
  for (dir, want) in &held {
    let dir = raw(dir);
    let list = |fs: &dyn FileSystem| fs.read_dir(&dir).map(|mut v| {
      v.sort_unstable();
      v
    });
    let (a, b) = (list(&real), list(&mem));
    let want: Vec<PathBuf> = want.iter().cloned().collect();
    check!(
      a.as_ref().ok() == Some(&want) && b.as_ref().ok() == Some(&want),
      &format!("{P}/memory"),
      "listing {dir:?} with {want:?}: real {a:?}, in memory {b:?}"
    );
    vsim::probe("the same directory listed on disk and in memory");
  }
  let at = mem.current_dir();
  check!(
    at.as_ref().is_ok_and(|d| d.as_path().is_absolute() && !mem.is_file(d.as_path())),
    &format!("{P}/cwd"),
    "the current directory of the in-memory file system is {at:?}"
  );
  simos::halt();
}

fn listing(p: &str, real: &RealFileSystem, w: &Arc<Mutex<Watch>>) {
  let dir = vsim::pick(&["/simfs/d", "/simfs", "/simfs/empty", "/simfs/a", "/simfs/none", "/simfs/dirlink", "/simfs/d/e"]);
  let target = if dir == "/simfs/dirlink" { "/simfs/d" } else { dir };
  // the same directory written in another way
  let asked = if vsim::chance(1, 4) { format!("{dir}/") } else { dir.to_owned() };
  ev!("list {asked}");
  let path = Path::new(&asked);
  let failures = |s: &simos::World| s.hard;
  let before = simos::with(|s| failures(s));
  let (r, c) = watched(p, dir, target, w, "listing", || real.read_dir(path));
  let hard = simos::with(|s| failures(s)) - before;
  vsim::state(vsim::hash_debug(&(c.calls, c.hard, c.ever.len(), r.is_ok())));
  if c.ever.len() != c.throughout.len() {
    vsim::probe("directory changed during a listing");
  }
  match r {
    Ok(got) => {
      ev!("-> {} entries", got.len());
      check!(hard == 0, &format!("{p}/failure-swallowed"), "listing {dir}: {hard} calls failed but the listing succeeded with {got:?}");
      check!(c.facts.contains(&Fact::Dir), &format!("{p}/not-a-directory"), "listing {dir}, which is no directory, gave {got:?}");
      let want: BTreeSet<PathBuf> = c.throughout.iter().map(|n| path.join(raw(n))).collect();
      let ever: BTreeSet<PathBuf> = c.ever.iter().map(|n| path.join(raw(n))).collect();
      let set: BTreeSet<PathBuf> = got.iter().cloned().collect();
      check!(set.len() == got.len(), &format!("{p}/entry-twice"), "listing {dir} repeats an entry: {got:?}");
      check!(want.is_subset(&set), &format!("{p}/entry-missing"), "listing {dir} gave {got:?}, present throughout: {want:?}");
      check!(set.is_subset(&ever), &format!("{p}/entry-invented"), "listing {dir} gave {got:?}, ever present: {ever:?}");
    }
    Err(e) => {
      ev!("-> error {:?}", e.kind());
      let excuse = hard > 0 || c.facts.iter().any(|f| *f != Fact::Dir);
      check!(excuse, &format!("{p}/error-without-cause"), "listing {dir} failed with {e:?} though no call failed");
      if hard > 0 {
        vsim::probe("a failed listing was reported");
      }
    }
  }
}

fn test(p: &str, real: &RealFileSystem, w: &Arc<Mutex<Watch>>, files: &[&'static str]) {
  let mut paths = vec![
    "/simfs/a", "/simfs/d", "/simfs/pipe", "/simfs/link", "/simfs/dangling", "/simfs/loop", "/simfs/dirlink",
    "/simfs/secret", "/simfs/gone", "/simfs/d/c", "/simfs/dirlink/c", "/simfs/a/below", "/simfs/none/x",
    "/simfs/a/", "/simfs/d/../a", "/simfs/link/",
  ];
  if vsim::chance(1, 3) {
    paths = [files, &ODD_DIRS].concat();
  }
  let path = vsim::pick(&paths);
  let (got, c) = watched(p, path, "/simfs/d", w, "is_file", || real.is_file(&raw(path)));
  ev!("is_file {path} -> {got}");
  vsim::state(vsim::hash_debug(&(c.calls, c.hard, got, path)));
  let file_at_some_time = c.facts.iter().any(|f| matches!(f, Fact::File(..)));
  let file_throughout = c.facts.iter().all(|f| matches!(f, Fact::File(..)));
  if got {
    check!(file_at_some_time, &format!("{p}/not-a-file"), "is_file({path}) is true; it was {:?}", kinds(&c.facts));
    check!(c.hard == 0 || c.stats_ok > 0, &format!("{p}/undetermined"), "is_file({path}) is true though no status call succeeded");
  } else {
    check!(c.hard > 0 || !file_throughout, &format!("{p}/file-denied"), "is_file({path}) is false; it was a regular file throughout and no call failed");
    if c.hard > 0 {
      vsim::probe("a status failure answered false");
    }
  }
}

fn kinds(f: &BTreeSet<Fact>) -> Vec<&'static str> {
  f.iter()
    .map(|f| match f {
      Fact::File(..) => "a file",
      Fact::Dir => "a directory",
      Fact::Other => "something else",
      Fact::Absent => "absent",
    })
    .collect()
}

fn cwd(p: &str, real: &RealFileSystem, w: &Arc<Mutex<Watch>>) {
  let long = format!("/simfs/{}", "long/".repeat(vsim::range(1, 300) as usize));
  let os: Result<Vec<u8>, i32> = match vsim::choose(10) {
    0 => Ok(b"/simfs/d".to_vec()),
    1 => Ok(b"/".to_vec()),
    2 => Err(simos::ENOENT),
    3 => Err(simos::EACCES),
    4 => Ok(b"(unreachable)/simfs/d".to_vec()),
    5 => Ok(b"relative/dir".to_vec()),
    6 => Ok(long.trim_end_matches('/').as_bytes().to_vec()),
    7 => Ok("/simfs/été dir".as_bytes().to_vec()),
    8 => Ok(b"/simfs/\xff\xfe".to_vec()),
    _ => Err(simos::ENOMEM),
  };
  simos::with(|s| s.cwd.clone_from(&os));
  simos::simulate_cwd(true);
  let (r, _) = watched(p, "/simfs/d", "/simfs/d", w, "current_dir", || real.current_dir());
  simos::simulate_cwd(false);
  let shown = os.as_ref().map(|b| String::from_utf8_lossy(&b[..b.len().min(60)]).into_owned());
  ev!("cwd {shown:?} -> ok={}", r.is_ok());
  match &os {
    Ok(b) if b.starts_with(b"/") => {
      let want = Path::new(OsStr::from_bytes(b));
      match r {
        Ok(got) => check!(got.as_path().as_os_str() == want.as_os_str(), &format!("{p}/cwd"), "current directory {want:?} reported as {:?}", got.as_path()),
        Err(e) => vsim::violate(&format!("{p}/cwd"), format!("current directory {want:?} not reported: {e:?}")),
      }
    }
    _ => {
      vsim::fault("no usable current directory");
      check!(r.is_err(), &format!("{p}/cwd"), "the OS reported {shown:?} as current directory, the result is {r:?}");
    }
  }
}

fn main() {
  let real: &[&str] = &["paths::RealFileSystem", "paths::MemoryFileSystem", "paths::CleanPathBuf", "Rust standard library above libc"];
  let stub: &[&str] = &["disk, descriptors and directory streams (in memory, below libc's entry points)", "other processes"];
  vsim::cli::main(&[
    vsim::cli::Prop {
      id: "F01",
      run: reads,
      quick: 800_000,
      thorough_factor: 40,
      rule: "each case is one simulated disk with up to 6 reads through the real file system under seeded faults and concurrent replacement, then a fault-free comparison with the in-memory one; non-trivial: a fault fired or another process acted; distinct: by event-log hash",
      state_measure: "distinct (system calls made, failures, versions seen, outcome) per read",
      real,
      stub,
      faults: &["EINTR on open", "EINTR on read", "short read", "wrong size reported", "I/O error on read", "open failed", "fstat failed", "another process changed the disk"],
      probes: &["large file", "file replaced or removed during a read"],
      init: || {},
    },
    vsim::cli::Prop {
      id: "F02",
      run: facts,
      quick: 800_000,
      thorough_factor: 40,
      rule: "each case is one simulated disk with up to 6 listings, file tests and current-directory queries under seeded faults and concurrent changes; non-trivial: a fault fired or another process acted; distinct: by event-log hash",
      state_measure: "distinct (system calls made, failures, path or number of entries, outcome) per query",
      real,
      stub,
      faults: &["opendir failed", "readdir failed", "entry of unknown type", "stat failed", "no usable current directory", "another process changed the disk", "a file of any size"],
      probes: &["large directory", "directory changed during a listing", "a failed listing was reported", "a status failure answered false", "the same directory listed on disk and in memory"],
      // what the shell that started this process said is no statement of the operating system
      // SAFETY: no other thread runs yet.
      init: || unsafe { std::env::set_var("PWD", "/simfs/d") },
    },
  ])
}

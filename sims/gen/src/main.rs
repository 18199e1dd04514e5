//! Simulation of G01 (complete outputs) and G02 (reproducible outputs).
//!
//! `syntax_gen::get` and `write_rs_tokens::go` run unchanged, as a build script would run them, on
//! the simulated disk of `simos`: with failing, interrupted and partial system calls, crashes at
//! any call and re-runs over what the crash left (G01); and with varied hashing, capacities,
//! insertion orders, kernel randomness, clocks, environments, threads, earlier generations and leftovers (G02).

use proc_macro2::TokenStream;
use simos::{Disk, Faults, Node};
use std::collections::hash_map::RandomState;
use std::collections::{BTreeMap, HashMap};
use std::ffi::OsString;
use std::fmt::Write as _;
use std::hash::{BuildHasher, Hasher};
use std::os::unix::ffi::OsStringExt as _;
use syntax_gen::Options;
use vsim::{Caught, check, ev};

const OUT: &str = "/simfs/out";
/// Where something else was generated before.
const PRIOR: &str = "/simfs/prior";

// --- the languages ---------------------------------------------------------------------------

#[derive(Clone, Debug)]
struct Lang {
  name: String,
  grammar: String,
  trivia: Vec<String>,
  doc: Vec<(String, String)>,
  special: Vec<(String, String)>,
  file: String,
}

const NODES: [&str; 10] =
  ["Root", "Exp", "Pat", "Ty", "Dec", "NameList", "CallExp", "IfExp", "ValBinder", "Item"];
const PUNCT: [&str; 22] = [
  "(", ")", "{", "}", "::", ":", "=>", "->", "+", "++", "<", "<=", "<<=", "=", "==", "|", "||", "&", "...", "#", "@", "$",
];
const WORDS: [&str; 10] = ["let", "fn", "in", "if", "then", "else", "val_rec", "and_also", "x1", "END"];
const SPECIAL: [&str; 6] = ["Name", "IntLit", "StringLit", "TyVar", "Eof", "Op"];
const TEXTS: [&str; 7] = ["a name", "", "with \"quotes\"", "back\\slash", "two\nlines", "été \u{1F600}", "`tick`"];

fn token(wide: bool) -> String {
  if wide && vsim::chance(3, 4) {
    let i = vsim::range(0, 120);
    return match vsim::weighted(&[3, 3, 2]) {
      0 => {
        let mut i = i as usize;
        let mut p = String::new();
        for _ in 0..=vsim::choose(2) {
          p.push(['+', '-', '<', '>', '=', '~', '|', '&', '^', '%', '!'][i % 11]);
          i /= 11;
        }
        p
      }
      1 => format!("{}_{i}", ["kw", "k", "word_of"][i as usize % 3]),
      _ => format!("Special{i}"),
    };
  }
  match vsim::weighted(&[3, 3, 2]) {
    0 => vsim::pick(&PUNCT),
    1 => vsim::pick(&WORDS),
    _ => vsim::pick(&SPECIAL),
  }
  .to_owned()
}

fn node(i: usize) -> String {
  NODES.get(i).map_or_else(|| format!("Node{}{}", (b'A' + (i / 26) as u8) as char, (b'a' + (i % 26) as u8) as char), |&x| x.to_owned())
}

fn lang() -> Lang {
  let wide = vsim::chance(1, 60);
  if wide {
    vsim::probe("language of many tokens and nodes");
  }
  let n = if wide { vsim::range(20, 90) } else { vsim::range(1, NODES.len() as u64) } as usize;
  let mut g = String::new();
  for name in (0..n).map(node) {
    vsim::span(|| {
      // a grammar of nothing but alternatives has no syntax kinds at all
      let kind = if name == "Root" { 0 } else { vsim::weighted(&[5, 1, 1]) };
      let _ = write!(g, "{name} =");
      match kind {
        0 => {
          for i in 0..vsim::range(1, if wide { 12 } else { 5 }) {
            let _ = write!(g, "\n  ");
            let label = vsim::chance(1, 5);
            if label {
              let _ = write!(g, "part_{}:", ["a", "b", "c", "d", "e"].get(i as usize).unwrap_or(&"more"));
            }
            if vsim::chance(1, 2) {
              let _ = write!(g, "'{}'", token(wide));
            } else {
              let _ = write!(g, "{}", node(vsim::choose(n)));
            }
            let _ = write!(g, "{}", ["", "?", "*"][vsim::choose(3)]);
          }
        }
        1 => {
          for i in 0..vsim::range(2, 5) {
            let _ = write!(g, "{} {}", if i > 0 { " |" } else { "" }, node(vsim::choose(n)));
          }
        }
        _ => {
          for i in 0..vsim::range(2, 5) {
            let _ = write!(g, "{} '{}'", if i > 0 { " |" } else { "" }, token(wide));
          }
        }
      }
      g.push_str("\n\n");
    });
  }
  let mut doc = BTreeMap::new();
  for _ in 0..vsim::range(0, if wide { 120 } else { 12 }) {
    doc.insert(token(wide), vsim::pick(&TEXTS).to_owned());
  }
  // entries that name no token, though they look like one
  for _ in 0..vsim::range(0, 4) {
    let t = token(wide);
    if vsim::chance(1, 3) {
      doc.remove(&t);
    }
    for _ in 0..vsim::range(1, 3) {
      let d = match vsim::choose(9) {
        0 => t.to_uppercase(),
        1 => t.to_lowercase(),
        2 => format!("{t} "),
        3 => t.chars().skip(1).collect(),
        4 => format!(" {t}"),
        5 => format!("'{t}'"),
        6 => format!("`{t}`"),
        7 => format!("{t}Kw"),
        _ => format!("{t}{t}"),
      };
      if d != t {
        doc.entry(d).or_insert_with(|| vsim::pick(&TEXTS).to_owned());
      }
    }
  }
  let mut special = BTreeMap::new();
  for s in ["name", "NAME", "intlit", "Tyvar", "o"] {
    if vsim::chance(1, 5) {
      special.insert(s.to_owned(), vsim::pick(&TEXTS).to_owned());
    }
  }
  for s in SPECIAL {
    if vsim::chance(2, 3) {
      special.insert(s.to_owned(), vsim::pick(&TEXTS).to_owned());
    }
  }
  if wide {
    for i in 0..=120 {
      if vsim::chance(1, 2) {
        special.insert(format!("Special{i}"), vsim::pick(&TEXTS).to_owned());
      }
    }
  }
  Lang {
    name: vsim::pick(&["Toy", "SML", "Lang2"]).to_owned(),
    grammar: g,
    trivia: ["Whitespace", "Comment", "Invalid"][..vsim::range(0, 3) as usize].iter().map(|&x| x.to_owned()).collect(),
    doc: doc.into_iter().collect(),
    special: special.into_iter().collect(),
    file: vsim::pick(&["build.rs", "x/y \"z\".rs", "/simfs/x/build.rs", "/simfs/out/../build.rs"]).to_owned(),
  }
}

// --- the maps passed in ----------------------------------------------------------------------

#[derive(Clone, Copy, Debug)]
struct SimHash {
  mode: usize,
  seed: u64,
}
struct SimHasher {
  mode: usize,
  h: u64,
}
impl BuildHasher for SimHash {
  type Hasher = SimHasher;
  fn build_hasher(&self) -> SimHasher {
    SimHasher { mode: self.mode, h: self.seed | 1 }
  }
}
impl Hasher for SimHasher {
  fn write(&mut self, b: &[u8]) {
    for &x in b {
      self.h = (self.h ^ u64::from(x)).wrapping_mul(0x0000_0100_0000_01b3).rotate_left(17);
    }
  }
  fn finish(&self) -> u64 {
    match self.mode {
      0 => self.h,
      // everything collides
      1 => 42,
      // few distinct values
      _ => self.h % 3,
    }
  }
}

/// How a map with given content comes about.
#[derive(Clone, Debug)]
struct Shape {
  cap: usize,
  seed: u64,
  junk: u64,
}
fn shape() -> Shape {
  Shape { cap: vsim::pick(&[0, 1, 16, 200]), seed: vsim::range(0, 1 << 20), junk: vsim::range(0, 20) }
}
fn build<'a, S: BuildHasher>(content: &'a [(String, String)], junk: &'a [String], s: &Shape, h: S) -> HashMap<&'a str, &'a str, S> {
  let mut m = HashMap::with_capacity_and_hasher(s.cap, h);
  let mut order: Vec<(&str, &str)> = content.iter().map(|(k, v)| (k.as_str(), v.as_str())).collect();
  let junk: Vec<&str> = junk.iter().take(s.junk as usize).map(String::as_str).collect();
  order.extend(junk.iter().map(|&j| (j, "junk")));
  let mut r = vsim::Rng::new(s.seed);
  for i in (1..order.len()).rev() {
    order.swap(i, r.below(i as u64 + 1) as usize);
  }
  for (k, v) in order {
    m.insert(k, v);
  }
  for j in junk {
    m.remove(j);
  }
  m
}

// --- one generation, in a process of its own (a thread with its own randomness) -----------------

#[derive(Clone, Debug)]
struct Setup {
  /// 0..=2: own hashing, 3: the standard library's
  hashing: usize,
  seed: u64,
  doc: Shape,
  special: Shape,
  entropy: u64,
  clock: Option<i128>,
  env: u64,
  /// how the output directory is written
  out: &'static str,
}
fn plain() -> Setup {
  let s = Shape { cap: 0, seed: 1, junk: 0 };
  Setup { hashing: 0, seed: 1, doc: s.clone(), special: s, entropy: 1, clock: None, env: 0, out: OUT }
}
fn setup() -> Setup {
  Setup {
    hashing: vsim::choose(4),
    seed: vsim::range(0, 1 << 30),
    doc: shape(),
    special: shape(),
    entropy: vsim::range(0, 1 << 30),
    clock: vsim::chance(1, 2).then(|| i128::from(vsim::spread_u32()) * 1_000_000_000),
    env: if vsim::chance(1, 2) { vsim::range(1, 1 << 20) } else { 0 },
    out: vsim::pick(&[OUT, OUT, "/simfs/out/", "/simfs/./out", "/simfs/other place/deep", "/simfs/other place/b\u{f7ff}d", "/simfs/x/../out"]),
  }
}

/// What build tools put into the environment of a build script, and users into theirs.
const ENV: [&str; 16] = [
  "CARGO_PKG_NAME", "CARGO_PKG_VERSION", "CARGO_MANIFEST_DIR", "TARGET", "HOST", "PROFILE", "OPT_LEVEL", "DEBUG",
  "NUM_JOBS", "SOURCE_DATE_EPOCH", "LANG", "LC_ALL", "TZ", "USER", "RUSTFMT", "CARGO_CFG_WINDOWS",
];
fn environment(seed: u64) {
  let mut r = vsim::Rng::new(seed);
  for k in ENV {
    // SAFETY: the other threads of this process wait for this one.
    unsafe {
      match if seed == 0 { 0 } else { r.below(3) } {
        0 => std::env::remove_var(k),
        1 => std::env::set_var(k, ["1", "windows", "release", "/elsewhere", "de_DE.UTF-8", ""][r.below(6) as usize]),
        _ => std::env::set_var(k, format!("v{}", r.below(1000))),
      }
    }
  }
}

fn out_dir(d: &str) {
  // SAFETY: the other threads of this process wait for this one.
  unsafe { std::env::set_var("OUT_DIR", OsString::from_vec(simos::raw(d))) };
}

/// Runs `f` like a fresh process: new thread, its own kernel randomness. `Err` is a panic.
fn process<R: Send>(s: &Setup, f: impl FnOnce() -> R + Send) -> Result<R, String> {
  let (entropy, clock, env, out) = (s.entropy, s.clock, s.env, s.out);
  let r = std::thread::scope(|scope| {
    std::thread::Builder::new()
      .stack_size(4 << 20)
      .spawn_scoped(scope, || {
        simos::set_entropy(Some(entropy));
        environment(env);
        out_dir(out);
        simos::set_identity(Some(env));
        if let Some(c) = clock {
          simos::set_clock(Some(simos::Clock { mono_ns: c, wall_ns: c, read_cost: 1000 }));
          simos::use_clock(true);
        }
        let r = vsim::catch(f);
        simos::use_clock(false);
        simos::set_clock(None);
        simos::set_entropy(None);
        simos::set_identity(None);
        r
      })
      .expect("spawn")
      .join()
  });
  match r {
    Ok(Caught::Ok(x)) => Ok(x),
    Ok(Caught::Panic(m)) => Err(m),
    Ok(Caught::Injected(_)) => unreachable!(),
    Err(p) => std::panic::resume_unwind(p),
  }
}

fn generate(l: &Lang, s: &Setup) {
  let trivia: Vec<&str> = l.trivia.iter().map(String::as_str).collect();
  let junk: Vec<String> = (0..20).map(|i| format!("junk{i}")).collect();
  macro_rules! go {
    ($h:expr) => {{
      let doc = build(&l.doc, &junk, &s.doc, $h);
      let special = build(&l.special, &junk, &s.special, $h);
      syntax_gen::get(&Options {
        lang: &l.name,
        trivia: &trivia,
        grammar: &l.grammar,
        doc: &doc,
        special: &special,
        file: &l.file,
      });
    }};
  }
  if s.hashing == 3 {
    go!(RandomState::new());
  } else {
    go!(SimHash { mode: s.hashing, seed: s.seed });
  }
}

/// What generation produces on a clean disk without faults.
fn reference(l: &Lang) -> BTreeMap<String, Vec<u8>> {
  simos::boot(clean_disk(), Faults::default());
  let r = process(&plain(), || generate(l, &plain()));
  let (d, _) = simos::halt();
  if let Err(m) = r {
    vsim::violate("G01/panic", format!("generation without faults panicked: {m}\n{}", l.grammar));
  }
  files(&d).into_iter().filter(|(k, _)| k.starts_with(OUT)).collect()
}

fn clean_disk() -> Disk {
  let mut d = Disk::default();
  d.nodes.insert("/simfs".into(), Node::Dir);
  for x in [OUT, PRIOR, "/simfs/x", "/simfs/other place", "/simfs/other place/deep", "/simfs/other place/b\u{f7ff}d"] {
    d.nodes.insert(x.into(), Node::Dir);
  }
  // the output directory by another name
  d.nodes.insert("/simfs/l\u{f7ff}nk".into(), Node::Link(OUT.into()));
  d
}

fn files(d: &Disk) -> BTreeMap<String, Vec<u8>> {
  d.nodes.keys().filter_map(|k| Some((k.clone(), d.content(k)?))).collect()
}

/// What an output path held before.
fn leftover(d: &mut Disk, path: &str, good: &[u8]) {
  match vsim::weighted(&[3, 2, 2, 2, 2, 1]) {
    0 => {}
    1 => {
      let n = vsim::range(0, good.len() as u64) as usize;
      d.replace(path, &good[..n]);
      vsim::probe("output held a torn version");
    }
    2 => {
      let mut v = good.to_vec();
      v.extend(b"// the rest of a longer version\n".repeat(vsim::range(1, 300) as usize));
      d.replace(path, &v);
      vsim::probe("output held a longer version");
    }
    3 => d.replace(path, b""),
    4 => {
      // same length, other content
      let mut v = good.to_vec();
      if !v.is_empty() {
        match vsim::choose(3) {
          0 => v.fill(b'#'),
          // what is left of a write whose blocks never reached the disk
          1 => v[vsim::range(0, good.len() as u64 - 1) as usize..].fill(0),
          _ => v[vsim::range(0, good.len() as u64 - 1) as usize] ^= 1,
        }
      }
      d.replace(path, &v);
    }
    _ => d.replace(path, good),
  }
}

const BYSTANDERS: [&str; 4] = ["/simfs/out/other.rs", "/simfs/keep.txt", "/simfs/out/notes", "/simfs/out/ast.rs.orig"];

fn brief(b: Option<&Vec<u8>>, want: &[u8]) -> String {
  match b {
    None => "nothing".into(),
    Some(b) => {
      let same = b.iter().zip(want).take_while(|(x, y)| x == y).count();
      format!("{} bytes, the first {same} as wanted", b.len())
    }
  }
}

// --- G01 -------------------------------------------------------------------------------------

fn stream() -> (String, TokenStream) {
  let mut s = String::new();
  let n = match vsim::weighted(&[40, 20, 1]) {
    0 => vsim::range(0, 5),
    1 => vsim::range(6, 60),
    _ => vsim::range(1000, 4000),
  };
  let mut r = vsim::Rng::new(vsim::range(0, 1 << 20));
  for i in 0..n {
    let _ = match r.below(4) {
      0 => write!(s, "pub const C{i}: u32 = {};", r.below(1 << 20)),
      1 => write!(s, "fn f{i}(x: u8) -> &'static str {{ if x > 1 {{ \"été\\n\" }} else {{ r#\"a\"b\"# }} }}"),
      2 => write!(s, "#[derive(Debug, Clone)] pub struct S{i} {{ pub a: Vec<u8>, b: Option<Box<S{i}>> }}"),
      _ => write!(s, "pub enum E{i} {{ A, B(u32), C {{ x: i64 }} }} impl E{i} {{ const N: usize = 3; }}"),
    };
  }
  let t = s.parse().expect("tokens");
  (s, t)
}

fn g01() {
  const P: &str = "G01";
  // what to generate and what it must be
  let single = vsim::chance(1, 2);
  let l = lang();
  let (src, _) = stream();
  let base = vsim::pick(&["tokens.rs", "ast.rs", "a b.rs"]);
  let want: BTreeMap<String, Vec<u8>> = if single {
    let f = syn::parse2(src.parse::<TokenStream>().unwrap()).expect("items");
    [(format!("{OUT}/{base}"), prettyplease::unparse(&f).into_bytes())].into()
  } else {
    let w = reference(&l);
    // the reference itself is complete
    let names: Vec<&String> = w.keys().collect();
    check!(names == ["/simfs/out/ast.rs", "/simfs/out/kind.rs"], &format!("{P}/outputs"), "generation made {names:?}");
    for (k, v) in &w {
      let ok = std::str::from_utf8(v).ok().and_then(|t| syn::parse_file(t).ok()).map(|f| prettyplease::unparse(&f).into_bytes());
      check!(ok.as_ref() == Some(v), &format!("{P}/incomplete"), "{k} generated without faults is not complete formatted code: {} bytes", v.len());
    }
    w
  };
  let mut d = clean_disk();
  for b in BYSTANDERS {
    if vsim::chance(1, 3) {
      d.replace(b, format!("keep {b}").as_bytes());
    }
  }
  for (k, v) in &want {
    leftover(&mut d, k, v);
  }
  ev!("generate {:?} into {:?}", want.iter().map(|x| (x.0, x.1.len())).collect::<Vec<_>>(), files(&d).iter().map(|x| (x.0.clone(), x.1.len())).collect::<Vec<_>>());
  let before: BTreeMap<String, Vec<u8>> = files(&d).into_iter().filter(|(k, _)| !want.contains_key(k)).collect();
  let mut disturbed = false;
  let attempts = vsim::range(1, 3);
  for attempt in 0..=attempts {
    let last = attempt == attempts;
    let mut f = Faults { max_hard: 2, ..Faults::default() };
    let mut odd = false;
    if !last {
      f.eintr = vsim::pick(&[0, 40, 150]);
      f.short = vsim::pick(&[0, 60, 200]);
      match vsim::choose(7) {
        0 => f.io_error = vsim::pick(&[20, 80]),
        1 => f.no_space = vsim::pick(&[20, 120]),
        2 => {
          f.open_error = vsim::pick(&[0, 100]);
          f.stat_error = vsim::pick(&[0, 100]);
        }
        3 => {
          f.crash_at = Some(vsim::range(1, 12));
        }
        4 => {
          // something in the way
          odd = true;
          let k = want.keys().nth(vsim::choose(want.len())).unwrap().clone();
          match vsim::choose(3) {
            0 => {
              d.nodes.insert(k, Node::Dir);
              vsim::fault("a directory in place of the output");
            }
            1 => {
              let Node::File { data, .. } = Node::file(b"old") else { unreachable!() };
              d.nodes.insert(k, Node::File { data, readable: true, writable: false });
              vsim::fault("the output cannot be written");
            }
            _ => {
              d.nodes.retain(|k, _| !k.starts_with(OUT));
              vsim::fault("the output directory is missing");
            }
          }
        }
        _ => {}
      }
    }
    let missing = !d.nodes.contains_key(OUT);
    ev!("attempt {attempt}: {f:?}");
    simos::boot(d, f);
    let s = Setup { entropy: vsim::range(0, 1 << 20), out: vsim::pick(&[OUT, OUT, "/simfs/out/", "/simfs/./out", "/simfs/l\u{f7ff}nk"]), ..plain() };
    let prior = vsim::chance(1, 6);
    let r = process(&s, || {
      if prior {
        // the same file name elsewhere
        out_dir(PRIOR);
        write_rs_tokens::go("pub struct Prior;".parse().unwrap(), want.keys().next().unwrap().rsplit('/').next().unwrap());
        out_dir(s.out);
      }
      if single {
        write_rs_tokens::go(src.parse().unwrap(), base);
      } else {
        generate(&l, &s);
      }
    });
    let (hard, calls, crashed) = simos::with(|w| (w.hard, w.calls, w.crashed));
    d = simos::halt().0;
    ev!("-> {}, {calls} calls, {hard} failed", if crashed { "crashed" } else if r.is_ok() { "returned" } else { "panicked" });
    vsim::state(vsim::hash_debug(&(single, calls.min(40), hard, crashed, r.is_ok())));
    if crashed {
      // what was written last may be torn
      disturbed = true;
      for k in want.keys() {
        if let Some(c) = d.content(k) {
          if vsim::chance(1, 3) && !c.is_empty() {
            let n = vsim::range(0, c.len() as u64 - 1) as usize;
            let mut torn = c[..n].to_vec();
            if vsim::chance(1, 3) {
              torn.resize(c.len(), 0);
            }
            d.replace(k, &torn);
            vsim::fault("torn output after a crash");
          }
        }
      }
    } else {
      let now = files(&d);
      match r {
        Ok(()) => {
          for (k, v) in &want {
            check!(
              now.get(k) == Some(v),
              &format!("{P}/incomplete"),
              "generation returned but {k} holds {} of {} wanted", brief(now.get(k), v), v.len()
            );
          }
          let elsewhere: Vec<&String> = now.keys().filter(|k| k.starts_with(PRIOR)).collect();
          if prior {
            let b = elsewhere.first().map(|k| now[*k].as_slice());
            check!(b == Some(b"pub struct Prior;\n"), &format!("{P}/incomplete"), "another output returned but {elsewhere:?} holds {:?}", b.map(<[u8]>::len));
          }
          for k in now.keys() {
            check!(
              disturbed || k.starts_with(PRIOR) || want.contains_key(k) || before.contains_key(k),
              &format!("{P}/extra-file"),
              "generation left {k} behind"
            );
          }
        }
        Err(m) => {
          check!(hard > 0 || odd, &format!("{P}/panic"), "generation panicked though no call failed for good: {m}");
          vsim::probe("failure reported");
          disturbed = true;
        }
      }
      if !missing {
        for (k, v) in &before {
          check!(now.get(k) == Some(v), &format!("{P}/bystander"), "{k} was changed to {}", brief(now.get(k), v));
        }
      }
    }
    // the user clears what was in the way
    for k in want.keys() {
      if !matches!(d.nodes.get(k), Some(Node::File { writable: true, .. })) {
        d.nodes.remove(k);
      }
    }
    if missing {
      d.nodes.insert(OUT.into(), Node::Dir);
      for (k, v) in &before {
        d.replace(k, v);
      }
    }
  }
}

// --- G02 -------------------------------------------------------------------------------------

fn g02() {
  const P: &str = "G02";
  let l = lang();
  ev!("{} with {} docs, {} special", l.grammar.replace('\n', " "), l.doc.len(), l.special.len());
  let want = reference(&l);
  for _ in 0..vsim::range(1, 3) {
    vsim::span(|| {
      let s = setup();
      let mut d = clean_disk();
      let dirty = vsim::chance(1, 2);
      if dirty {
        for (k, v) in &want {
          leftover(&mut d, k, v);
        }
        vsim::fault("output directory held earlier files");
      }
      let earlier = if vsim::chance(1, 3) { vsim::range(1, 2) } else { 0 };
      let others: Vec<Lang> = (0..earlier).map(|_| vsim::span(lang)).collect();
      let elsewhere = earlier > 0 && vsim::chance(1, 2);
      if !s.out.ends_with("out") {
        vsim::fault("other output directory");
      }
      if earlier > 0 {
        vsim::fault("earlier generations in the same process");
      }
      vsim::fault(["other hashing", "all keys collide", "most keys collide", "randomly seeded hashing"][s.hashing]);
      if s.clock.is_some() {
        vsim::fault("other time");
      }
      if s.env > 0 {
        vsim::fault("other environment");
      }
      ev!("again: {s:?}");
      simos::boot(d, Faults::default());
      let r = process(&s, || {
        if elsewhere {
          out_dir(PRIOR);
        }
        for o in &others {
          generate(o, &s);
        }
        out_dir(s.out);
        generate(&l, &s);
      });
      let (d, _) = simos::halt();
      if let Err(m) = r {
        vsim::violate(&format!("{P}/panic"), format!("generation panicked: {m}"));
      }
      let dir = if s.out.contains("other place") { s.out } else { OUT };
      let now: BTreeMap<String, Vec<u8>> = files(&d)
        .into_iter()
        .filter_map(|(k, v)| {
          if dir != OUT && k.starts_with(OUT) || elsewhere && k.starts_with(PRIOR) {
            return None;
          }
          Some((k.strip_prefix(dir).map_or(k.clone(), |r| format!("{OUT}{r}")), v))
        })
        .collect();
      vsim::state(vsim::hash_debug(&(s.hashing, dirty, earlier, want.values().map(Vec::len).sum::<usize>() / 64)));
      for (k, v) in &want {
        let at = now.get(k).map(|n| n.iter().zip(v).take_while(|(x, y)| x == y).count());
        check!(
          now.get(k) == Some(v),
          &format!("{P}/differs"),
          "{k} differs from byte {at:?} on ({}); setup {s:?}", at.map_or(String::new(), |a| {
            let n = &now[k];
            format!("{:?} instead of {:?}", String::from_utf8_lossy(&n[a.min(n.len())..(a + 60).min(n.len())]), String::from_utf8_lossy(&v[a.min(v.len())..(a + 60).min(v.len())]))
          })
        );
      }
      for k in now.keys() {
        check!(want.contains_key(k), &format!("{P}/files"), "{k} was generated only this time");
      }
    });
  }
}

fn init() {
  // SAFETY: no other thread runs yet.
  unsafe { std::env::set_var("OUT_DIR", OUT) };
}

fn main() {
  let real: &[&str] = &["syntax_gen::get", "write_rs_tokens::go", "ungrammar, syn, quote, prettyplease", "Rust standard library above libc"];
  let stub: &[&str] = &["disk and descriptors (in memory, below libc's entry points)", "kernel randomness and clocks", "build-script processes (one fresh thread each)"];
  vsim::cli::main(&[
    vsim::cli::Prop {
      id: "G01",
      run: g01,
      quick: 20_000,
      thorough_factor: 40,
      rule: "each case generates one random grammar or token stream up to 4 times over the same disk, all but the last time with seeded faults; non-trivial: a fault fired; distinct: by event-log hash",
      state_measure: "distinct (kind of generation, system calls made, failures, crash, outcome) per attempt",
      real,
      stub,
      faults: &[
        "EINTR on open", "EINTR on write", "short write", "I/O error on write", "ENOSPC on write", "ENOSPC on create", "open failed", "crash",
        "torn output after a crash", "a directory in place of the output", "the output cannot be written", "the output directory is missing",
      ],
      probes: &["failure reported", "output held a torn version", "output held a longer version"],
      init,
    },
    vsim::cli::Prop {
      id: "G02",
      run: g02,
      quick: 16_000,
      thorough_factor: 40,
      rule: "each case generates one random grammar up to 4 times in processes that differ in hashing, map history, randomness, clock, earlier work and disk; every case is non-trivial; distinct: by event-log hash",
      state_measure: "distinct (hashing, leftovers, earlier generations, size of the output)",
      real,
      stub,
      faults: &["other hashing", "all keys collide", "most keys collide", "randomly seeded hashing", "other time", "other environment", "other output directory", "earlier generations in the same process", "output directory held earlier files"],
      probes: &["language of many tokens and nodes"],
      init,
    },
  ])
}

//! Simulation of X01: a language server built from the library's parts agrees with the editor.
//!
//! An editor, a lossy link, a disk other processes write to, and a server (`server.rs`) whose
//! workers are lost and which crashes. What the server publishes is compared with a reference
//! (`model.rs`) that evaluates the editor's UTF-16 text with ordinary maps.

#[allow(dead_code)]
mod ast {
  include!(concat!(env!("OUT_DIR"), "/ast.rs"));
}
#[allow(dead_code)]
mod kind {
  include!(concat!(env!("OUT_DIR"), "/kind.rs"));
}
mod model;
mod server;

use apply_changes::Change;
use model::{Exports, File, Status};
use server::{K, Log, Pass, ROOT, Server};
use simos::{Disk, Faults, Node};
use std::collections::{BTreeMap, BTreeSet};
use std::sync::{Arc, Mutex};
use text_pos::RangeUtf16;
use vsim::{check, ev};

pub const BUILTIN: [&str; 2] = ["zero", "one"];

const FILES: [&str; 6] = ["m0", "m1", "m2", "m3", "\u{e9}t\u{e9}", "\u{30e1}"];
const NAMES: [&str; 11] =
  ["a", "b", "x1", "\u{e9}t\u{e9}", "\u{30e1}", "zero", "one", "_", "a_rather_long_name_for_a_binding", "a_rather_long_name_for_a_binding_", "a_rather_long_name_for_a_bindings"];

thread_local! {
  /// which of the names and files the run uses: the first, and how many
  static USED: std::cell::Cell<[usize; 4]> = const { std::cell::Cell::new([0; 4]) };
}
fn name() -> &'static str {
  let [at, n, ..] = USED.get();
  NAMES[(at + vsim::choose(n)) % NAMES.len()]
}
fn file() -> &'static str {
  let [.., at, n] = USED.get();
  FILES[(at + vsim::choose(n)) % FILES.len()]
}

/// Lower-case words.
pub fn is_snake(s: &str) -> bool {
  s.split('_').all(|w| w.starts_with(|c: char| c.is_ascii_lowercase()) && w.chars().all(|c| c.is_ascii_lowercase() || c.is_ascii_digit()))
}

fn path(f: &str) -> String {
  format!("{ROOT}/{f}")
}

// --- texts ------------------------------------------------------------------------------------

fn space(s: &mut String) {
  s.push_str(match vsim::weighted(&[12, 3, 2, 2, 1, 1]) {
    0 => " ",
    1 => "\n",
    2 => "  \t",
    3 => " # \u{1F600}\u{e9} comment\n",
    4 => "\n\n\n# c\n# d\n",
    _ => "\r\n",
  });
}

fn expr(s: &mut String, depth: u32) {
  match vsim::weighted(&if depth > 3 { [3, 1, 0, 0, 0, 0, 0, 0, 0, 1] } else { [4, 2, 2, 2, 2, 2, 1, 1, 1, 1] }) {
    0 => s.push_str(name()),
    1 => s.push_str(if vsim::chance(1, 4) { vsim::pick(&["0", "00", "65535", "65536", "4294967296", "032768"]) } else { "12" }),
    2 => {
      s.push('(');
      expr(s, depth + 1);
      s.push(')');
    }
    3 => {
      expr(s, depth + 1);
      s.push_str(vsim::pick(&[
        " +", " *", "++", "==", "===", "..", ",", "/", "`", "-", "->", "<", " <=", "<->", ">", ">=", "!", "!=", "&", " &&", "%", "^", "~", "$",
        "|>", "@@", "-.-",
      ]));
      space(s);
      expr(s, depth + 1);
    }
    4 => {
      s.push('(');
      for i in 0..vsim::range(1, 3) {
        if i > 0 {
          s.push(' ');
        }
        s.push_str(name());
      }
      s.push_str(") =>");
      space(s);
      expr(s, depth + 1);
    }
    6 => {
      s.push_str("if ");
      expr(s, depth + 1);
      s.push_str(" then ");
      expr(s, depth + 2);
      space(s);
      s.push_str("else ");
      expr(s, depth + 2);
    }
    7 => {
      s.push('[');
      for _ in 0..vsim::range(2, 4) {
        s.push_str(name());
        space(s);
      }
      s.push(']');
    }
    9 => {
      s.push('?');
      for _ in 0..vsim::weighted(&[1, 4, 8]) {
        space(s);
        s.push_str(vsim::pick(&["+", "*", "==", "..", "->", "-.-", "`"]));
      }
    }
    8 => {
      expr(s, depth + 1);
      s.push('.');
      if vsim::chance(3, 4) {
        s.push_str(name());
      }
    }
    _ => {
      expr(s, depth + 1);
      s.push_str(": ");
      s.push_str(name());
    }
  }
}

fn pat(s: &mut String, depth: u32) {
  match vsim::weighted(&[4, 4, if depth > 0 { 6 } else { 0 }, 2]) {
    0 => s.push('?'),
    1 => s.push_str(if depth > 0 { "0" } else { vsim::pick(&["0", "1", "2"]) }),
    2 => {
      s.push('[');
      for _ in 0..2 - vsim::weighted(&[16, 2, 1]) {
        pat(s, depth - 1);
        space(s);
      }
      s.push(']');
    }
    _ => {
      pat(s, depth);
      s.push_str(" | ");
      pat(s, depth.saturating_sub(vsim::chance(1, 30) as u32));
    }
  }
}

fn case(s: &mut String) {
  let depth = vsim::weighted(&[4, 6, 3]) as u32;
  s.push_str(&format!("case {depth} {{"));
  for _ in 0..vsim::range(0, 5) {
    if vsim::chance(1, 12) {
      s.push_str(vsim::pick(&["\\", "\u{1F600} ", "'"]));
    }
    pat(s, depth);
    s.push_str(" => ");
    expr(s, 3);
    s.push(';');
    space(s);
  }
  s.push('}');
}

fn item(s: &mut String, depth: u32) {
  match vsim::weighted(&if depth > 2 { [4, 2, 1, 0, 2, 0, 1] } else { [16, 6, 4, 4, 5, 1, 3] }) {
    0 => {
      for _ in 0..vsim::weighted(&[12, 2, 1, 1]) {
        s.push_str(vsim::pick(&["pub ", "fast "]));
      }
      s.push_str("let ");
      s.push_str(name());
      if vsim::chance(1, 8) {
        s.push_str(": ");
        s.push_str(name());
      }
      s.push_str(" = ");
      expr(s, 0);
      s.push(';');
    }
    1 => {
      s.push_str("use ");
      s.push_str(file());
      s.push(';');
    }
    2 => {
      s.push_str("del ");
      s.push_str(name());
      s.push(';');
    }
    4 => {
      for _ in 0..vsim::weighted(&[0, 4, 2, 1]) {
        s.push_str(name());
        s.push(' ');
      }
      s.push_str("= ");
      expr(s, 1);
      s.push(';');
    }
    5 => s.push_str("del_all;"),
    6 => case(s),
    _ => {
      s.push('{');
      for _ in 0..vsim::range(0, 3) {
        space(s);
        item(s, depth + 1);
      }
      s.push('}');
    }
  }
  if vsim::chance(1, 10) {
    s.push_str(";;");
  }
  space(s);
}

const BITS: [&str; 62] = [
  "(", ")", "=>", "+", ";", "let ", "use ", "del ", "{", "}", "#c\n", "\u{1F600}", "\u{e9}", "\n", " ", "0", "@", ":",
  "=", "a", "\u{2028}", "\0", "\u{feff}", "*", "++", "==", "==>", "del_all;", ";;", "a b =", "007", "((", "let a = (a b) => a: a;", "# ",
  ".", "[", "]", "?", "|", "===", "if ", "pub fast ", "case 1 { [? 1] | 0 => a; 0 => b; }", "then a else ",
  "<", "-", ">", "<-", "<->", "!", "a!=b", "&", "@@@", "|>", "`", "```", "%", "\"", "'", "\\", "-.-", "-.",
];

fn text() -> String {
  let mut s = String::new();
  match vsim::weighted(&[10, 60, 12]) {
    0 => {}
    1 => {
      if vsim::chance(1, 2) {
        s.push_str("use ");
        s.push_str(file());
        s.push(';');
        space(&mut s);
      }
      for _ in 0..vsim::range(0, 5) {
        item(&mut s, 0);
      }
    }
    _ => {
      for _ in 0..vsim::range(1, 12) {
        s.push_str(vsim::pick(&BITS));
      }
    }
  }
  if vsim::chance(1, 100) {
    large(&mut s);
  }
  s
}

fn large(s: &mut String) {
  vsim::probe("large text");
  let n = vsim::pick(&[20, 70, 300, 1100, 9_000, 70_000]);
  match vsim::choose(10) {
    // many cases
    9 => {
      let n = n.min(300);
      s.push_str("case 1 {");
      for i in 0..n {
        s.push_str(&format!("[{} {}]{}", i % 3, i / 3 % 3, if i % 80 == 79 || i + 1 == n { " => a;" } else { " | " }));
      }
      s.push_str(vsim::pick(&["}", "? => b;}", "0 => b;}"]));
    }
    // a long line before something
    3 => {
      s.push_str(&"\t".repeat(n));
      s.push_str("let b = a;");
    }
    // assignments with many targets
    6 => {
      for k in [3, 30, 69, 70, 71] {
        s.push_str(&"a ".repeat(k));
        s.push_str("= zero;\n");
      }
    }
    // an import among many bindings
    8 => {
      for (i, at) in [(0, 1), (1, 40), (2, 70), (3, 300)].into_iter().take(vsim::range(1, 4) as usize) {
        for k in 0..at {
          if k < 3 {
            s.push_str(&format!("let {} = zero;", name()));
          } else {
            s.push_str(&format!("let n{i}_{k} = {};\n", name()));
          }
        }
        s.push_str(&format!("use {};\n", file()));
      }
    }
    // few names bound over and over, in scopes and out of them
    7 => {
      let n = n.min(300);
      for i in 0..n {
        s.push_str(["let a = b;", "let b = a: a;", "{ let a = a;", "b = a;"][vsim::choose(4)]);
        if i % 40 == 39 {
          s.push('}');
        }
      }
    }
    // many bindings, so many layers
    0 => {
      for i in 0..n.min(1_200) {
        s.push_str(&format!("let n{i} = {};\n", if i == 0 { "a".to_owned() } else { format!("n{}: n{}", i / 2, i / 3) }));
      }
    }
    1 => {
      let n = n.min(300);
      s.push_str("let a = ");
      s.push_str(&"(".repeat(n));
      s.push('b');
      s.push_str(&")".repeat(n));
      s.push(';');
    }
    2 => {
      s.push_str("let a = 0");
      for _ in 0..n.min(3_000) {
        s.push_str(" + zero");
      }
      s.push(';');
    }
    4 => {
      for _ in 0..n {
        s.push('\n');
      }
      s.push_str("let b = c;");
    }
    _ => {
      s.push_str("let ");
      s.push_str(&"\u{30e1}".repeat(n.min(30_000)));
      s.push_str(" = a; ");
      s.push_str(&"# \n".repeat(n.min(400)));
    }
  }
}

// --- the editor -------------------------------------------------------------------------------

#[derive(Default)]
struct Open {
  units: Vec<u16>,
  version: u64,
}

fn boundary(d: &[u16], i: usize) -> bool {
  i == d.len() || !(0xdc00..0xe000).contains(&d[i])
}
fn cursor(d: &[u16]) -> usize {
  let mut i = vsim::range(0, d.len() as u64) as usize;
  while !boundary(d, i) {
    i -= 1;
  }
  i
}
fn position(d: &[u16], i: usize) -> text_pos::PositionUtf16 {
  let line = d[..i].iter().filter(|&&u| u == 10).count();
  let start = d[..i].iter().rposition(|&u| u == 10).map_or(0, |x| x + 1);
  text_pos::PositionUtf16 { line: line as u32, col: (i - start) as u32 }
}

/// Edits made at once, at one place or several, in order.
fn edits(d: &mut Vec<u16>) -> Vec<Change> {
  let mut out = Vec::new();
  let n = vsim::weighted(&[0, 8, 3, 2, 1]);
  for _ in 0..n {
    let a = cursor(d);
    let mut b = match vsim::weighted(&[5, 3, 1]) {
      0 => a,
      1 => (a + vsim::range(1, 8) as usize).min(d.len()),
      _ => d.len(),
    };
    while !boundary(d, b) {
      b += 1;
    }
    let mut s = String::new();
    match vsim::weighted(&[4, 3, 2]) {
      0 => s.push_str(vsim::pick(&BITS)),
      1 => item(&mut s, 2),
      _ => {}
    }
    out.push(Change { range: Some(RangeUtf16 { start: position(d, a), end: position(d, b) }), text: s.clone() });
    d.splice(a..b, s.encode_utf16());
  }
  out
}

fn copy(c: &[Change]) -> Vec<Change> {
  c.iter().map(|c| Change { range: c.range, text: c.text.clone() }).collect()
}

enum Msg {
  Full(String, u64, String),
  Edit(String, u64, Vec<Change>),
  Close(String, u64),
}

struct World {
  editor: BTreeMap<String, Open>,
  /// the text of each version
  old: BTreeMap<(String, u64), Vec<u16>>,
  /// versions never repeat, so that a closed and reopened document is not mistaken
  clock: u64,
  link: Vec<Msg>,
  inbox: Vec<Msg>,
  /// documents the server asked for
  asked: Vec<String>,
  server: Server,
  /// what the disk held, per path
  history: Arc<Mutex<BTreeMap<String, Vec<Vec<u8>>>>>,
}

fn note(h: &Mutex<BTreeMap<String, Vec<Vec<u8>>>>, d: &Disk) {
  let mut h = h.lock().unwrap();
  for f in FILES {
    let p = path(f);
    if let Some(c) = d.content(&p) {
      let v = h.entry(p).or_default();
      if v.last() != Some(&c) {
        v.push(c);
      }
    }
  }
}

impl World {
  fn full(&self, p: &str) -> Msg {
    let o = &self.editor[p];
    Msg::Full(p.to_owned(), o.version, String::from_utf16(&o.units).expect("documents are well formed"))
  }

  fn edit(&mut self) {
    let open: Vec<&String> = self.editor.keys().collect();
    let p = if open.is_empty() || vsim::chance(1, 2) { path(file()) } else { open[vsim::choose(open.len())].clone() };
    for _ in 0..vsim::weighted(&[0, 6, 2, 1]) {
      self.edit_one(&p);
    }
  }

  fn edit_one(&mut self, p: &str) {
    let p = p.to_owned();
    self.clock += 1;
    match self.editor.get_mut(&p) {
      None => {
        let d = match simos::with(|w| w.disk.content(&p)).map(String::from_utf8) {
          Some(Ok(s)) if vsim::chance(3, 4) => s,
          _ => text(),
        };
        ev!("editor opens {p}: {:?}", short(&d));
        let units: Vec<u16> = d.encode_utf16().collect();
        self.old.insert((p.clone(), self.clock), units.clone());
        self.editor.insert(p.clone(), Open { units, version: self.clock });
        let m = self.full(&p);
        self.link.push(m);
      }
      Some(o) if vsim::chance(1, 8) => {
        let s = String::from_utf16(&o.units).expect("documents are well formed");
        ev!("editor closes {p}");
        simos::with(|w| w.disk.replace(&p, s.as_bytes()));
        self.note();
        self.editor.remove(&p);
        self.link.push(Msg::Close(p, self.clock));
      }
      Some(o) => {
        let mut c = edits(&mut o.units);
        if vsim::chance(1, 12) {
          let s = text();
          o.units = s.encode_utf16().collect();
          c.push(Change { range: None, text: s });
          if vsim::chance(1, 2) {
            c.extend(edits(&mut o.units));
          }
        }
        // consecutive, so that the server can tell whether it missed one
        o.version += 1;
        self.clock = self.clock.max(o.version);
        self.old.insert((p.clone(), o.version), o.units.clone());
        ev!("editor edits {p} v{}: {c:?}", o.version);
        let v = o.version;
        self.link.push(Msg::Edit(p, v, c));
      }
    }
  }

  fn note(&self) {
    simos::with(|w| note(&self.history, &w.disk));
  }

  /// The link delivers something, or fails to.
  fn deliver(&mut self, faults: bool) {
    if self.link.is_empty() {
      return;
    }
    let i = if faults && vsim::chance(1, 8) {
      vsim::fault("message overtook another");
      vsim::choose(self.link.len())
    } else {
      0
    };
    if faults && vsim::chance(1, 12) {
      vsim::fault("message repeated");
      let m = match &self.link[i] {
        Msg::Full(p, v, s) => Msg::Full(p.clone(), *v, s.clone()),
        Msg::Edit(p, v, c) => Msg::Edit(p.clone(), *v, copy(c)),
        Msg::Close(p, v) => Msg::Close(p.clone(), *v),
      };
      self.inbox.push(m);
      return;
    }
    let m = self.link.remove(i);
    if faults && vsim::chance(1, 12) {
      vsim::fault("message lost");
      ev!("lost");
      return;
    }
    self.inbox.push(m);
  }

  /// The server takes in what arrived; consecutive edits of a document may go in together.
  fn receive(&mut self) {
    let mut inbox: std::collections::VecDeque<Msg> = std::mem::take(&mut self.inbox).into();
    let together = vsim::chance(1, 2);
    while let Some(m) = inbox.pop_front() {
      match m {
        Msg::Full(p, v, s) => {
          if self.server.docs.get(&p).is_none_or(|d| d.version < v) {
            ev!("server has {p} v{v} in full");
            match self.server.docs.get(&p).is_some() && vsim::chance(1, 2) {
              true => self.server.change(&p, v, vec![Change { range: None, text: s }]),
              false => drop(self.server.docs.insert(p.clone(), server::Doc { version: v, text: s })),
            }
          }
          self.server.ask.remove(&p);
        }
        Msg::Edit(p, mut v, mut c) => {
          let have = self.server.docs.get(&p).map(|d| d.version);
          if have.is_none_or(|h| v > h + 1) {
            ev!("server misses something before {p} v{v}");
            self.server.ask.insert(p);
          } else if have == Some(v - 1) {
            while together
              && let Some(Msg::Edit(q, w, _)) = inbox.front()
              && *q == p
              && *w == v + 1
            {
              let Some(Msg::Edit(_, w, more)) = inbox.pop_front() else { unreachable!() };
              vsim::probe("notifications applied together");
              v = w;
              c.extend(more);
            }
            ev!("server applies {} changes: {p} v{v}", c.len());
            vsim::no_panic("X01/panic", "applying changes", || self.server.change(&p, v, c));
          }
        }
        Msg::Close(p, v) => {
          if self.server.docs.get(&p).is_none_or(|d| d.version < v) {
            ev!("server closes {p}");
            self.server.docs.remove(&p);
          }
          self.server.ask.remove(&p);
        }
      }
    }
    for p in &self.server.ask {
      if !self.asked.contains(p) {
        self.asked.push(p.clone());
      }
    }
  }

  /// The editor answers what the server asked.
  fn answer(&mut self) {
    for p in std::mem::take(&mut self.asked) {
      self.clock += 1;
      let m = if self.editor.contains_key(&p) { self.full(&p) } else { Msg::Close(p, self.clock) };
      self.link.push(m);
    }
  }

  /// All messages are delivered, and all questions answered, within so many rounds.
  fn settle(&mut self) {
    let mut rounds = 0;
    while !(self.link.is_empty() && self.inbox.is_empty() && self.asked.is_empty()) {
      rounds += 1;
      check!(rounds < 8, "X01/liveness", "not settled after {rounds} rounds");
      self.answer();
      while !self.link.is_empty() {
        self.deliver(false);
      }
      self.receive();
    }
  }

  fn crash(&mut self) {
    ev!("server crashes");
    vsim::fault("server crashed");
    self.server = Server::new();
    self.inbox.clear();
    self.asked = self.editor.keys().cloned().collect();
  }

  /// The server analyses everything; what it says is compared with the reference.
  fn analyse(&mut self, quiet: bool) {
    let start: BTreeMap<String, usize> =
      self.history.lock().unwrap().iter().map(|(p, v)| (p.clone(), v.len().saturating_sub(1))).collect();
    simos::with(|w| {
      w.hard = 0;
      w.calls = 0;
    });
    ev!("analysis");
    let r = vsim::no_panic("X01/panic", "an analysis", || self.server.pass());
    let hard = simos::with(|w| w.hard);
    let hist = self.history.lock().unwrap();
    // the texts it was made from
    let mut files: BTreeMap<String, File> = BTreeMap::new();
    for (p, d) in &self.server.docs {
      let units = &self.old[&(p.clone(), d.version)];
      let want = String::from_utf16(units).expect("documents are well formed");
      check!(d.text == want, "X01/text", "{p} v{} is {:?}, the editor has {:?}", d.version, short(&d.text), short(&want));
      files.insert(p.clone(), File::new(p, units));
    }
    for (p, s) in &r.read {
      let since = start.get(p).copied().unwrap_or(0);
      let was = hist.get(p).is_some_and(|v| v[since.min(v.len())..].iter().any(|c| c == s.as_bytes()));
      check!(was, "X01/read", "{p} was read as {:?}, which it never was", short(s));
      files.insert(p.clone(), File::new(p, &s.encode_utf16().collect::<Vec<_>>()));
    }
    drop(hist);
    compare(&r, &files);
    if quiet {
      let mut all: BTreeSet<String> = self.editor.keys().cloned().collect();
      simos::with(|w| all.extend(w.disk.nodes.keys().filter(|p| w.disk.content(p).is_some()).cloned()));
      check!(r.roots == all, "X01/roots", "the project is {all:?}, the server has {:?}", r.roots);
      for p in &all {
        let text = simos::with(|w| w.disk.content(p));
        let readable = self.editor.contains_key(p) || text.is_some_and(|t| String::from_utf8(t).is_ok());
        check!(r.done.contains(p) == readable, "X01/not-analysed", "{p}: readable {readable}, analysed {}", r.done.contains(p));
      }
    }
    vsim::state(vsim::hash_debug(&(&r.done, r.cycle.is_some(), hard.min(2), r.found.values().map(|f| (f.diags.len().min(6), f.refs.len().min(6))).collect::<Vec<_>>())));
    // ask about a place in a document
    if let Some(p) = self.server.docs.keys().nth(vsim::choose(self.server.docs.len().max(1))) {
      let text: Vec<u16> = self.server.docs[p].text.encode_utf16().collect();
      let i = cursor(&text);
      let pos = files[p].position(i);
      let got = vsim::no_panic("X01/panic", "asking about a place", || self.server.token_at(p, pos));
      let want = files[p].token_at(i);
      check!(got == want, "X01/token-at", "at {pos} of {p} the server has {got:?}, the editor {want:?}");
    }
  }
}

fn short(s: &str) -> String {
  if s.len() < 400 {
    return s.to_owned();
  }
  format!("{}... ({} bytes)", s.chars().take(80).collect::<String>(), s.len())
}

/// Whether importing can lead from a file back to it.
fn on_cycle(files: &BTreeMap<String, Vec<String>>, p: &str) -> bool {
  let mut todo: Vec<&String> = files.get(p).into_iter().flatten().collect();
  let mut seen = BTreeSet::new();
  while let Some(x) = todo.pop() {
    if x == p {
      return true;
    }
    if seen.insert(x) {
      todo.extend(files.get(x).into_iter().flatten());
    }
  }
  false
}

fn compare(r: &Pass, files: &BTreeMap<String, File>) {
  for (p, root) in &r.parsed {
    tree(p, root, &files[p]);
  }
  let imports: BTreeMap<String, Vec<String>> = files.iter().map(|(p, f)| (p.clone(), f.imports())).collect();
  // the order of the analysis
  let mut cur: Vec<(String, BTreeSet<String>)> = Vec::new();
  let mut done: BTreeMap<String, Exports> = BTreeMap::new();
  let mut failed: BTreeSet<String> = BTreeSet::new();
  let mut followed: BTreeMap<String, Vec<String>> = BTreeMap::new();
  for l in &r.log {
    match l {
      Log::Enter(p, ok) => {
        if !*ok {
          failed.insert(p.clone());
          for c in &mut cur {
            c.1.insert(p.clone());
          }
        }
      }
      Log::Process(p) => {
        check!(!done.contains_key(p) && cur.iter().all(|c| c.0 != *p), "X01/order", "{p} is analysed again");
        cur.push((p.clone(), BTreeSet::new()));
      }
      Log::Exit(p, level) => {
        let Some((q, unread)) = cur.pop() else { vsim::violate("X01/order", format!("{p} finished, never started")) };
        check!(q == *p, "X01/order", "{p} finished before {q}");
        check!(cur.len() == *level, "X01/order", "{p} finished at level {level} with {} under way", cur.len());
        for i in &imports[p] {
          let fine = done.contains_key(i) || unread.contains(i) || i == p || cur.iter().any(|c| c.0 == *i);
          check!(fine, "X01/order", "{p} finished before its import {i}");
        }
        // what could not be read when it was asked for does not make a cycle
        followed.insert(p.clone(), imports[p].iter().filter(|i| !unread.contains(*i)).cloned().collect());
        let import = |i: &str| {
          if let Some(e) = done.get(i) {
            (Status::Done, Some(e.clone()))
          } else if i == p || cur.iter().any(|c| c.0 == i) {
            (Status::UnderWay, None)
          } else {
            (Status::Unreadable, None)
          }
        };
        let (want, exports) = files[p].eval(&import);
        let Some(got) = r.found.get(p) else { vsim::violate("X01/lost", format!("nothing is published about {p}")) };
        check!(got.diags == want.diags, "X01/diagnostics", "diagnostics of {p}: {:?}, want {:?}", got.diags, want.diags);
        check!(got.worst == want.worst, "X01/worst", "the worst about {p}: {:?}, want {:?}", got.worst, want.worst);
        check!(got.refs == want.refs, "X01/references", "references in {p}: {:?}, want {:?}", got.refs, want.refs);
        check!(got.scope == want.scope, "X01/scope", "bound in {p}: {:?}, want {:?}", got.scope, want.scope);
        if !want.diags.is_empty() {
          vsim::probe("diagnostics compared");
        }
        check!(got.ops == want.ops, "X01/operators", "operators in {p}: {:?}, want {:?}", got.ops, want.ops);
        if want.refs.iter().any(|r| matches!(&r.1, Some(Some(d)) if d.0 != *p)) {
          vsim::probe("reference into another file");
        }
        done.insert(p.clone(), exports);
      }
    }
  }
  check!(cur.is_empty(), "X01/order", "never finished: {:?}", cur.len());
  let names: BTreeSet<String> = done.keys().cloned().collect();
  check!(r.done == names, "X01/done", "finished {names:?}, the result says {:?}", r.done);
  check!(r.found.len() == done.len(), "X01/found", "published about {:?}", r.found.keys());
  for p in &r.roots {
    check!(done.contains_key(p) || failed.contains(p), "X01/left-out", "{p} was neither analysed nor found unreadable");
  }
  let loaded: BTreeMap<String, Vec<String>> = imports.into_iter().filter(|(p, _)| done.contains_key(p)).collect();
  match &r.cycle {
    Some(c) => {
      check!(on_cycle(&loaded, c), "X01/cycle", "{c} is reported as on a cycle of {loaded:?}");
      vsim::probe("import cycle");
    }
    None => {
      let c = followed.keys().find(|p| on_cycle(&followed, p));
      check!(c.is_none(), "X01/cycle", "no cycle is reported, though {c:?} is on one");
    }
  }
}

/// The tree holds the text, has the right shape, and no inner node starts or ends with trivia.
fn tree(p: &str, root: &server::Node, f: &File) {
  use token::Triviable as _;
  fn dump(n: &server::Node, out: &mut String) {
    out.push_str(&format!("{:?}[", n.kind()));
    for c in n.children_with_tokens() {
      match c {
        rowan::NodeOrToken::Node(n) => dump(&n, out),
        rowan::NodeOrToken::Token(t) if t.kind().is_trivia() => continue,
        rowan::NodeOrToken::Token(t) => out.push_str(t.text()),
      }
      out.push(' ');
    }
    out.push(']');
  }
  let text = root.text().to_string();
  let want = f.text();
  check!(text == want, "X01/tree-text", "the tree of {p} holds {:?}, the text is {:?}", short(&text), short(&want));
  let mut got = String::new();
  dump(root, &mut got);
  // constructs without tokens are not delivered
  let want = f.dump();
  check!(got == want, "X01/tree", "the tree of {p} is {got}, want {want}");
  for n in root.descendants().skip(1) {
    for t in [n.first_token(), n.last_token()].into_iter().flatten() {
      check!(!t.kind().is_trivia(), "X01/trivia", "{:?} of {p} begins or ends with {:?}", n.kind(), t.text());
    }
    check!(!matches!(n.kind(), K::Root | K::Script), "X01/tree", "a root inside of the tree of {p}");
  }
}

fn run() {
  check!(!cfg!(generation_failed), "X01/generation", "the syntax of the language could not be generated, or does not compile");
  let few = |n: usize| if vsim::chance(1, 2) { vsim::range(1, 3) as usize } else { n };
  USED.set([vsim::choose(NAMES.len()), few(NAMES.len()), vsim::choose(FILES.len()), few(FILES.len())]);
  let mut d = Disk::default();
  d.nodes.insert("/simfs".into(), Node::Dir);
  d.nodes.insert(ROOT.into(), Node::Dir);
  if vsim::chance(1, 4) {
    d.nodes.insert(path("dir"), Node::Dir);
    d.nodes.insert(path("pipe"), Node::Fifo);
  }
  for f in FILES {
    if vsim::chance(1, 2) {
      let mut t = text().into_bytes();
      if vsim::chance(1, 30) {
        t.push(0xff);
      }
      d.replace(&path(f), &t);
    }
  }
  let mut history = BTreeMap::new();
  if vsim::chance(1, 700) {
    vsim::probe("many files");
    for i in 0..vsim::pick(&[30, 300, 1_100, 2_100]) {
      let p = path(&format!("z{i}"));
      let c = if i % 97 == 0 { "use z1;" } else { "" };
      d.replace(&p, c.as_bytes());
      history.insert(p, vec![c.as_bytes().to_vec()]);
    }
  }
  let history = Arc::new(Mutex::new(history));
  note(&history, &d);
  let f = |on: u64| if vsim::chance(1, 2) { on } else { 0 };
  let faults = Faults {
    eintr: f(12),
    short: f(24),
    io_error: f(8),
    open_error: f(8),
    stat_error: f(8),
    readdir_error: f(8),
    unknown_type: f(16),
    size_lie: f(12),
    env: f(12),
    max_hard: 3,
    ..Faults::default()
  };
  simos::boot(d, faults);
  let h = history.clone();
  simos::with(|w| {
    w.env = Some(Box::new(move |d: &mut Disk| {
      let p = path(file());
      vsim::fault("another process changed the disk");
      if vsim::chance(1, 5) {
        d.nodes.remove(&p);
        ev!("another process removes {p}");
      } else {
        let t = text();
        ev!("another process writes {p}: {:?}", short(&t));
        d.replace(&p, t.as_bytes());
      }
      note(&h, d);
    }));
  });
  let mut w = World {
    editor: BTreeMap::new(),
    old: BTreeMap::new(),
    clock: 0,
    link: Vec::new(),
    inbox: Vec::new(),
    asked: Vec::new(),
    server: Server::new(),
    history,
  };
  let steps = vsim::range(2, if vsim::chance(1, 10) { 60 } else { 24 });
  for _ in 0..steps {
    vsim::span(|| match vsim::weighted(&[10, 10, 8, 4, 1, 3]) {
      0 => w.edit(),
      1 => w.deliver(true),
      2 => w.receive(),
      3 => w.analyse(false),
      4 => w.crash(),
      _ => w.answer(),
    });
  }
  // faults stop: everything arrives within so many rounds
  simos::with(|s| {
    s.faults = Faults::default();
    s.env = None;
  });
  ev!("faults stop");
  w.settle();
  // the editor tells what is open, once
  for p in w.server.docs.keys().cloned().collect::<Vec<_>>() {
    if !w.editor.contains_key(&p) {
      w.clock += 1;
      w.link.push(Msg::Close(p, w.clock));
    }
  }
  for p in w.editor.keys().cloned().collect::<Vec<_>>() {
    let m = w.full(&p);
    w.link.push(m);
  }
  w.settle();
  let have: Vec<(&String, u64)> = w.server.docs.iter().map(|(p, d)| (p, d.version)).collect();
  let want: Vec<(&String, u64)> = w.editor.iter().map(|(p, d)| (p, d.version)).collect();
  check!(have == want, "X01/converged", "the server has {have:?}, the editor {want:?}");
  vsim::span(|| w.analyse(true));
  // the answers do not depend on what was computed before
  if vsim::chance(1, 6) {
    w.crash();
    w.settle();
    w.analyse(true);
  }
  let (_, left) = simos::halt();
  check!(left == 0, "X01/descriptors", "{left} descriptors are left open");
  vsim::nontrivial();
}

fn main() {
  vsim::cli::main(&[vsim::cli::Prop {
    id: "X01",
    run,
    quick: 60_000,
    thorough_factor: 60,
    rule: "each case is a session of up to 60 steps of an editor, a lossy link, a disk that others write to and a server with workers, ended by a fault-free settlement and analysis; all are non-trivial; distinct: by event-log hash",
    state_measure: "distinct (files analysed, cycle found, failures, diagnostics and references per file) per analysis",
    real: &[
      "apply_changes", "text_pos", "str_process", "event_parse::Parser", "event_parse::rowan_sink", "rowan",
      "paths::RealFileSystem", "paths::Store", "topo_sort::Work", "chain_map", "str_util::Name", "uniq", "idx", "fast_hash", "identifier_case", "text_size_util", "pattern_match", "diagnostic", "fmt_util", "syntax_gen", "write_rs_tokens", "code_h2_md_map",
      "the generated syntax",
      "Rust standard library above libc",
    ],
    stub: &["editor", "link", "disk (in memory, below libc's entry points)", "other processes", "the toy language's grammar and evaluator"],
    faults: &[
      "message lost", "message repeated", "message overtook another", "server crashed", "worker lost",
      "another process changed the disk", "EINTR on open", "EINTR on read", "short read", "I/O error on read", "open failed", "fstat failed",
      "opendir failed", "readdir failed", "stat failed", "entry of unknown type", "wrong size reported",
    ],
    probes: &["large text", "many files", "never reached", "not exhaustive", "long history", "an attempt at a whole file was rolled back", "notifications applied together", "an attempt was rolled back", "import cycle", "reference into another file", "diagnostics compared"],
    init: || {},
  }])
}

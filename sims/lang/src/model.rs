//! The reference: the same language, evaluated on the editor's UTF-16 units with ordinary maps.

use crate::server::{Def, Found, ROOT};
use std::collections::{BTreeMap, HashMap, HashSet};
use text_pos::{PositionUtf16, RangeUtf16};

/// The kinds, by the names they ought to have.
type Kind = &'static str;

const PUNCTUATION: [(&str, Kind); 40] = [
  ("(", "LRound"), (")", "RRound"), ("{", "LCurly"), ("}", "RCurly"), (";", "Semicolon"), (":", "Colon"), ("=", "Eq"),
  ("=>", "EqGt"), ("==", "EqEq"), ("+", "Plus"), ("++", "PlusPlus"), ("*", "Star"),
  ("===", "EqEqEq"), (".", "Dot"), ("..", "DotDot"), ("[", "LSquare"), ("]", "RSquare"), ("?", "Question"), ("|", "Bar"),
  (",", "Comma"), ("/", "Slash"), ("`", "Tick"), ("-", "Minus"), ("->", "MinusGt"), ("<", "Lt"), ("<=", "LtEq"), ("<->", "LtMinusGt"), (">", "Gt"), (">=", "GtEq"), ("!", "Bang"),
  ("!=", "BangEq"), ("&", "And"), ("&&", "AndAnd"), ("%", "Percent"), ("^", "Carat"), ("~", "Tilde"), ("$", "Dollar"), ("|>", "BarGt"), ("@@", "AtAt"), ("-.-", "MinusDotMinus"),
];
const KEYWORDS: [(&str, Kind); 10] = [
  ("let", "LetKw"), ("use", "UseKw"), ("del", "DelKw"), ("del_all", "DelAllKw"), ("pub", "PubKw"), ("fast", "FastKw"),
  ("case", "CaseKw"), ("if", "IfKw"), ("then", "ThenKw"), ("else", "ElseKw"),
];
const SPECIAL: [(&str, &str); 3] = [("Name", "a name"), ("Num", "a number"), ("Bad", "a bad character")];
const ITEM: [Kind; 8] = ["LetKw", "PubKw", "FastKw", "UseKw", "DelKw", "DelAllKw", "CaseKw", "LCurly"];
const EXPR: [Kind; 6] = ["Name", "Num", "LRound", "LSquare", "IfKw", "Question"];
const PAT: [Kind; 3] = ["Question", "Num", "LSquare"];
const OPS: [Kind; 27] = [
  "Plus", "Star", "PlusPlus", "EqEq", "EqEqEq", "DotDot", "Comma", "Slash", "Tick", "Minus", "MinusGt", "Lt", "LtEq", "LtMinusGt", "Gt", "GtEq", "Bang",
  "BangEq", "And", "AndAnd", "Percent", "Carat", "Tilde", "Dollar", "BarGt", "AtAt", "MinusDotMinus",
];

/// How a kind is written in the grammar.
fn spelling(k: Kind) -> Option<&'static str> {
  PUNCTUATION.iter().chain(&KEYWORDS).find(|x| x.1 == k).map(|x| x.0)
}
fn desc(k: Kind) -> Option<String> {
  let special = SPECIAL.iter().find(|x| x.0 == k).map(|x| x.1.to_owned());
  special.or_else(|| Some(format!("`{}`", spelling(k)?)))
}
fn show(k: Kind) -> String {
  desc(k).unwrap_or(k.to_owned())
}
/// The documentation of a kind.
fn doc(k: Kind) -> String {
  let what = spelling(k).unwrap_or(k);
  let mut lines = include_str!("../doc.md").lines().skip_while(|l| *l != if what == "`" { "## `` ` ``".to_owned() } else { format!("## `{what}`") });
  if lines.next().is_none() || !(spelling(k).is_some() || SPECIAL.iter().any(|x| x.0 == k)) {
    return String::new();
  }
  let mut s = if what == "pub" { String::new() } else { format!("On {what}.\n") };
  for l in lines.take_while(|l| !(l.starts_with("## `") && l.ends_with('`'))) {
    s.push('\n');
    s.push_str(l);
  }
  s
}

/// A tree: tokens by number, trivia left out.
pub enum T {
  Tok(usize),
  Node(Kind, Vec<T>),
}

pub struct Tok {
  pub kind: Kind,
  pub text: String,
  /// in UTF-16 units
  pub start: usize,
  pub end: usize,
}

/// A file as the editor sees it.
pub struct File {
  pub path: String,
  units: Vec<u16>,
  /// where lines start, in units
  lines: Vec<usize>,
  all: Vec<Tok>,
  toks: Vec<usize>,
  pub tree: T,
  errors: Vec<(Vec<Kind>, usize)>,
}

fn lex(text: &str) -> Vec<Tok> {
  let cs: Vec<char> = text.chars().collect();
  let word = |c: char| c.is_ascii_alphanumeric() || c == '_' || (!c.is_ascii() && c.is_alphabetic());
  let mut out = Vec::new();
  let (mut i, mut at) = (0, 0);
  while i < cs.len() {
    let c = cs[i];
    let many = |ok: &dyn Fn(char) -> bool| cs[i..].iter().take_while(|&&c| ok(c)).count();
    let (n, mut kind) = match c {
      '\n' => (1, "Whitespace"),
      ' ' | '\t' | '\r' => (many(&|c| matches!(c, ' ' | '\t' | '\r')), "Whitespace"),
      '#' => (many(&|c| c != '\n'), "Comment"),
      '0'..='9' => (many(&|c| c.is_ascii_digit()), "Num"),
      _ if word(c) => (many(&word), "Name"),
      _ => {
        let fits = |p: &str| p.chars().eq(cs[i..].iter().copied().take(p.len()));
        let found = PUNCTUATION.iter().filter(|x| fits(x.0)).max_by_key(|x| x.0.len());
        found.map_or((1, "Bad"), |x| (x.0.len(), x.1))
      }
    };
    let text: String = cs[i..i + n].iter().collect();
    if let Some(x) = KEYWORDS.iter().find(|x| x.0 == text) {
      kind = x.1;
    }
    let end = at + text.encode_utf16().count();
    out.push(Tok { kind, text, start: at, end });
    at = end;
    i += n;
  }
  out
}

/// A recursive descent that returns its trees.
struct Parse<'a> {
  kinds: &'a [Kind],
  at: usize,
  errors: Vec<(Vec<Kind>, usize)>,
}

impl Parse<'_> {
  fn look(&self) -> Option<Kind> {
    self.kinds.get(self.at).copied()
  }
  fn error(&mut self, wanted: &[Kind]) {
    self.errors.push((wanted.to_vec(), self.at));
  }
  fn take(&mut self, into: &mut Vec<T>) {
    into.push(T::Tok(self.at));
    self.at += 1;
  }
  fn want(&mut self, k: Kind, into: &mut Vec<T>) -> bool {
    if self.look() == Some(k) {
      self.take(into);
      return true;
    }
    self.error(&[k]);
    false
  }
  fn item(&mut self) -> T {
    let mut v = Vec::new();
    let targets = self.kinds[self.at..].iter().take_while(|&&k| k == "Name").count();
    let assigns = (1..=crate::server::TARGETS).contains(&targets) && self.kinds.get(self.at + targets) == Some(&"Eq");
    let kind = match self.look().expect("not at the end") {
      k @ ("UseKw" | "DelKw") => {
        self.take(&mut v);
        self.want("Name", &mut v);
        self.want("Semicolon", &mut v);
        if k == "UseKw" { "UseItem" } else { "DelItem" }
      }
      "DelAllKw" => {
        self.take(&mut v);
        self.want("Semicolon", &mut v);
        "DelAllItem"
      }
      "LetKw" | "PubKw" | "FastKw" => {
        while matches!(self.look(), Some("PubKw" | "FastKw")) {
          self.take(&mut v);
        }
        self.want("LetKw", &mut v);
        self.want("Name", &mut v);
        if self.look() == Some("Colon") {
          let mut ann = Vec::new();
          self.take(&mut ann);
          self.want("Name", &mut ann);
          v.push(T::Node("Ann", ann));
        }
        self.want("Eq", &mut v);
        v.extend(self.expr());
        self.want("Semicolon", &mut v);
        "LetItem"
      }
      "Name" if assigns => {
        for _ in 0..=targets {
          self.take(&mut v);
        }
        v.extend(self.expr());
        self.want("Semicolon", &mut v);
        "SetItem"
      }
      "CaseKw" => {
        self.take(&mut v);
        self.want("Num", &mut v);
        self.want("LCurly", &mut v);
        while self.look().is_some_and(|k| k != "RCurly") {
          let mut arm = Vec::new();
          if self.look() == Some("Bad") {
            self.error(&PAT);
            self.take(&mut arm);
            v.push(T::Node("ErrItem", arm));
            continue;
          }
          match self.pat() {
            Some(t) => arm.push(t),
            None => {
              self.error(&PAT);
              self.take(&mut arm);
            }
          }
          self.want("EqGt", &mut arm);
          arm.extend(self.expr());
          self.want("Semicolon", &mut arm);
          v.push(T::Node("Arm", arm));
        }
        self.want("RCurly", &mut v);
        "CaseItem"
      }
      "LCurly" => {
        self.take(&mut v);
        while self.look().is_some_and(|k| k != "RCurly") {
          let t = self.item();
          v.push(t);
        }
        self.want("RCurly", &mut v);
        "Block"
      }
      _ => {
        self.error(&ITEM);
        self.take(&mut v);
        "ErrItem"
      }
    };
    let mut trail = Vec::new();
    let ends = self.kinds[self.at..].iter().find(|&&k| k != "Semicolon");
    while self.look() == Some("Semicolon") && ends != Some(&"Bad") {
      self.take(&mut trail);
    }
    if !trail.is_empty() {
      v.push(T::Node("Trail", trail));
    }
    T::Node(kind, v)
  }
  fn pat(&mut self) -> Option<T> {
    let mut left = self.one_pat()?;
    while self.look() == Some("Bar") {
      let mut v = vec![left];
      self.take(&mut v);
      match self.one_pat() {
        Some(t) => v.push(t),
        None => self.error(&PAT),
      }
      left = T::Node("OrPat", v);
    }
    Some(left)
  }
  fn one_pat(&mut self) -> Option<T> {
    let mut v = Vec::new();
    let kind = match self.look()? {
      "Question" => "AnyPat",
      "Num" => "NumPat",
      "LSquare" => "NodePat",
      _ => return None,
    };
    self.take(&mut v);
    if kind == "NodePat" {
      while let Some(t) = self.pat() {
        v.push(t);
      }
      self.want("RSquare", &mut v);
    }
    Some(T::Node(kind, v))
  }
  fn need_atom(&mut self) -> Option<T> {
    let t = self.atom();
    if t.is_none() {
      self.error(&EXPR);
    }
    t
  }
  fn expr(&mut self) -> Option<T> {
    let mut left = self.need_atom()?;
    loop {
      let mut v = vec![left];
      match self.look() {
        Some(k) if OPS.contains(&k) => {
          self.take(&mut v);
          v.extend(self.need_atom());
          left = T::Node("Bin", v);
        }
        Some("Colon") => {
          self.take(&mut v);
          self.want("Name", &mut v);
          left = T::Node("Typed", v);
        }
        Some("Dot") => {
          self.take(&mut v);
          if self.look() == Some("Name") {
            self.take(&mut v);
          }
          left = T::Node("Pick", v);
        }
        _ => return v.pop(),
      }
    }
  }
  fn atom(&mut self) -> Option<T> {
    let mut v = Vec::new();
    match self.look()? {
      "Name" => {
        self.take(&mut v);
        Some(T::Node("NameRef", v))
      }
      "Num" => {
        self.take(&mut v);
        Some(T::Node("NumLit", v))
      }
      "IfKw" => {
        self.take(&mut v);
        v.extend(self.expr());
        self.want("ThenKw", &mut v);
        v.extend(self.expr());
        self.want("ElseKw", &mut v);
        v.extend(self.expr());
        Some(T::Node("Cond", v))
      }
      "LSquare" => {
        self.take(&mut v);
        self.want("Name", &mut v);
        self.want("Name", &mut v);
        for _ in 0..2 {
          if self.look() == Some("Name") {
            self.take(&mut v);
          }
        }
        self.want("RSquare", &mut v);
        Some(T::Node("Triple", v))
      }
      "Question" => {
        self.take(&mut v);
        for _ in 0..2 {
          if self.look().is_some_and(|k| OPS.contains(&k)) {
            self.take(&mut v);
          }
        }
        if v.len() == 1 {
          self.error(&OPS);
        }
        Some(T::Node("Fold", v))
      }
      "LRound" => {
        // a lambda, if all of it is well formed
        let names = self.kinds[self.at + 1..].iter().take_while(|&&k| k == "Name").count();
        let next = self.at + 1 + names;
        if names > 0 && self.kinds.get(next..next + 2) == Some(&["RRound", "EqGt"]) {
          let (at, errors) = (self.at, self.errors.len());
          self.take(&mut v);
          let mut ps = Vec::new();
          for _ in 0..names {
            self.take(&mut ps);
          }
          v.push(T::Node("Params", ps));
          self.take(&mut v);
          self.take(&mut v);
          v.extend(self.expr());
          if self.errors.len() == errors {
            return Some(T::Node("Lambda", v));
          }
          v.clear();
          self.at = at;
          self.errors.truncate(errors);
        }
        self.take(&mut v);
        v.extend(self.expr());
        self.want("RRound", &mut v);
        Some(T::Node("Paren", v))
      }
      _ => None,
    }
  }
}

#[derive(Clone)]
struct B {
  def: Def,
  uses: u32,
}
type Env = HashMap<String, B>;

/// What became of an import.
pub enum Status {
  Done,
  UnderWay,
  Unreadable,
}

impl File {
  pub fn new(path: &str, units: &[u16]) -> File {
    let text = String::from_utf16(units).expect("documents are well formed");
    let all = lex(&text);
    let toks: Vec<usize> = (0..all.len()).filter(|&i| !matches!(all[i].kind, "Whitespace" | "Comment")).collect();
    let kinds: Vec<Kind> = toks.iter().map(|&i| all[i].kind).collect();
    let mut p = Parse { kinds: &kinds, at: 0, errors: Vec::new() };
    let mut items = Vec::new();
    while p.look().is_some() {
      let t = p.item();
      items.push(t);
    }
    let errors = p.errors;
    let script = errors.is_empty() && !items.is_empty() && items.iter().all(|t| matches!(t, T::Node("LetItem" | "SetItem", _)));
    let root = if script { "Script" } else { "Root" };
    let mut lines = vec![0];
    lines.extend(units.iter().enumerate().filter(|x| *x.1 == 10).map(|x| x.0 + 1));
    File { path: path.to_owned(), units: units.to_vec(), lines, all, toks, tree: T::Node(root, items), errors }
  }

  pub fn text(&self) -> String {
    String::from_utf16(&self.units).expect("documents are well formed")
  }
  fn tok(&self, i: usize) -> &Tok {
    &self.all[self.toks[i]]
  }
  pub fn position(&self, i: usize) -> PositionUtf16 {
    let line = self.lines.partition_point(|&s| s <= i) - 1;
    PositionUtf16 { line: line as u32, col: (i - self.lines[line]) as u32 }
  }
  fn place(&self, t: &Tok) -> RangeUtf16 {
    RangeUtf16 { start: self.position(t.start), end: self.position(t.end) }
  }
  /// The token at a place.
  pub fn token_at(&self, i: usize) -> Option<(String, RangeUtf16)> {
    let t = self.all.iter().find(|t| t.start <= i && i < t.end).or_else(|| self.all.last().filter(|t| t.end == i))?;
    let k = t.kind;
    Some((format!("{k}, {}, {:?}: {}", show(k), desc(k), doc(k)), self.place(t)))
  }

  /// The tree as text.
  pub fn dump(&self) -> String {
    fn go(f: &File, t: &T, out: &mut String) {
      match t {
        T::Tok(i) => out.push_str(&f.tok(*i).text),
        T::Node(k, v) => {
          out.push_str(&format!("{k}["));
          for t in v {
            go(f, t, out);
            out.push(' ');
          }
          out.push(']');
        }
      }
    }
    let mut s = String::new();
    go(self, &self.tree, &mut s);
    s
  }

  pub fn imports(&self) -> Vec<String> {
    fn go(f: &File, t: &T, out: &mut Vec<String>) {
      let T::Node(k, v) = t else { return };
      if *k == "UseItem" {
        out.extend(f.name(v).map(|t| format!("{ROOT}/{}", t.text)));
      }
      for t in v {
        go(f, t, out);
      }
    }
    let mut v = Vec::new();
    go(self, &self.tree, &mut v);
    v
  }

  fn name(&self, v: &[T]) -> Option<&Tok> {
    self.tokens(v).find(|t| t.kind == "Name")
  }
  fn tokens(&self, v: &[T]) -> impl Iterator<Item = &Tok> {
    v.iter().filter_map(|t| match t {
      T::Tok(i) => Some(self.tok(*i)),
      T::Node(..) => None,
    })
  }
  /// From the first to the last token.
  fn extent(&self, t: &T) -> RangeUtf16 {
    fn ends<'f>(f: &'f File, t: &T) -> (&'f Tok, &'f Tok) {
      match t {
        T::Tok(i) => (f.tok(*i), f.tok(*i)),
        T::Node(_, v) => (ends(f, &v[0]).0, ends(f, v.last().expect("not empty")).1),
      }
    }
    let (a, b) = ends(self, t);
    RangeUtf16 { start: self.place(a).start, end: self.place(b).end }
  }

  fn diag(&self, r: RangeUtf16, severity: &str, msg: &str) -> String {
    let (s, e) = (r.start, r.end);
    let end = if s.line == e.line { format!("{}", e.col + 1) } else { format!("{}:{}", e.line + 1, e.col + 1) };
    format!("{}:{}-{end}: {severity}: {msg}", s.line + 1, s.col + 1)
  }

  /// What is to be published about the file, and what it exports.
  pub fn eval(&self, import: &dyn Fn(&str) -> (Status, Option<Exports>)) -> (Found, Exports) {
    let mut e = Eval { f: self, import, out: Found::default() };
    for (wanted, at) in &self.errors {
      let w: Vec<String> = wanted.iter().map(|k| show(k)).collect();
      let w = w.join(", ");
      let t = self.toks.get(*at).map(|&i| &self.all[i]).or(self.all.last());
      let d = match t {
        Some(t) => self.diag(self.place(t), "error", &format!("expected {w} at {}", show(t.kind))),
        None => self.diag(RangeUtf16::zero(self.position(0)), "error", &format!("expected {w} in nothing")),
      };
      e.out.diags.push(d);
    }
    let mut env: Env = crate::BUILTIN.iter().map(|n| ((*n).to_owned(), B { def: None, uses: 0 })).collect();
    let mut exports = Env::new();
    let T::Node(_, items) = &self.tree else { unreachable!() };
    e.items(items, &mut env, Some(&mut exports));
    if exports.is_empty() {
      let r = RangeUtf16::zero(self.position(self.units.len()));
      e.warn(r, "exports nothing");
    }
    let worst = ["error", "warning"].into_iter().find(|w| e.out.diags.iter().any(|d| d.contains(&format!(": {w}: "))));
    e.out.worst = worst.map(str::to_owned);
    e.out.scope = env.into_iter().map(|(k, b)| (k, (b.def, b.uses))).collect();
    (e.out, Exports(exports))
  }
}

#[derive(Clone)]
pub struct Exports(Env);

#[derive(Clone)]
enum Val {
  Num(u32),
  Pair(Box<(Val, Val)>),
}

fn number(t: &Tok) -> Option<u32> {
  t.text.parse().ok()
}

fn values(depth: u32) -> Vec<Val> {
  if depth == 0 {
    return (0..3).map(Val::Num).collect();
  }
  let below = values(depth - 1);
  let mut out = vec![Val::Num(0)];
  for a in &below {
    out.extend(below.iter().map(|b| Val::Pair(Box::new((a.clone(), b.clone())))));
  }
  out
}

struct Eval<'a> {
  f: &'a File,
  import: &'a dyn Fn(&str) -> (Status, Option<Exports>),
  out: Found,
}

impl Eval<'_> {
  fn warn(&mut self, r: RangeUtf16, msg: &str) {
    self.out.diags.push(self.f.diag(r, "warning", msg));
  }
  fn err(&mut self, r: RangeUtf16, msg: &str) {
    self.out.diags.push(self.f.diag(r, "error", msg));
  }
  fn bind(&self, t: &Tok) -> B {
    B { def: Some((self.f.path.clone(), self.f.place(t))), uses: 0 }
  }
  fn items(&mut self, items: &[T], env: &mut Env, mut exports: Option<&mut Env>) {
    let mut last = None;
    for t in items {
      let T::Node(k, v) = t else { continue };
      let name = self.f.name(v);
      let first = self.f.tokens(v).next();
      match (*k, name) {
        ("UseItem", Some(t)) => {
          let r = self.f.place(t);
          let (status, ex) = (self.import)(&format!("{ROOT}/{}", t.text));
          match status {
            Status::Done => {
              let Exports(ex) = ex.expect("a finished module has exports");
              if ex.is_empty() {
                self.warn(r, &format!("{} exports nothing", t.text));
              }
              env.extend(ex);
            }
            Status::UnderWay => self.err(r, &format!("{} is being imported", t.text)),
            Status::Unreadable => self.err(r, &format!("{} cannot be read", t.text)),
          }
        }
        ("DelItem", Some(t)) => {
          let r = self.f.place(t);
          if let Some(e) = exports.as_deref_mut() {
            e.remove(&t.text);
          }
          match env.remove(&t.text) {
            Some(b) => self.warn(r, &format!("deleted after {} uses", b.uses)),
            None => self.err(r, &format!("{} is not bound", t.text)),
          }
        }
        ("DelAllItem", _) => {
          let r = self.f.place(first.expect("it begins with a keyword"));
          if env.is_empty() {
            self.warn(r, "nothing is bound");
          }
          if env.values().any(|b| b.uses > 0) {
            self.warn(r, "used names are deleted");
          }
          env.clear();
          if let Some(e) = exports.as_deref_mut() {
            e.clear();
          }
        }
        ("LetItem", name) => {
          let f = self.f;
          for t in v {
            if let T::Node("Ann", v) = t
              && let Some(t) = f.name(v)
            {
              self.used(t, env, 5);
            }
          }
          self.nodes(v, env);
          let Some(t) = name else { continue };
          let mut b = self.bind(t);
          if last == Some(&t.text) {
            self.warn(self.f.place(t), &format!("{} follows itself", t.text));
          }
          last = Some(&t.text);
          if t.text.chars().all(|c| c == '_') {
            self.warn(self.f.place(t), "a blank");
          }
          if crate::is_snake(&t.text) {
            let words: Vec<String> = t.text.split('_').map(|w| w[..1].to_uppercase() + &w[1..]).collect();
            self.out.ops.push((format!("{} {}", words.concat(), t.text), vec![Some(self.f.place(t))]));
          }
          for t in f.tokens(v) {
            match t.kind {
              "PubKw" => b.uses = b.uses.wrapping_mul(2).wrapping_add(100),
              "FastKw" => b.uses = b.uses.wrapping_add(1),
              _ => {}
            }
          }
          if let Some(e) = exports.as_deref_mut() {
            e.insert(t.text.clone(), b.clone());
          }
          if env.insert(t.text.clone(), b).is_some() {
            self.warn(self.f.place(t), &format!("{} is bound again", t.text));
          }
        }
        ("SetItem", _) => {
          self.nodes(v, env);
          let f = self.f;
          for t in f.tokens(v).filter(|t| t.kind == "Name") {
            self.used(t, env, 10);
          }
        }
        ("CaseItem", _) => {
          self.case(v);
          for t in v {
            if let T::Node("Arm", v) = t {
              self.nodes(v, env);
            }
          }
        }
        ("Block", _) => self.items(v, &mut env.clone(), None),
        ("ErrItem", _) => {
          if let Some(t) = first.filter(|t| t.kind == "Bad") {
            self.err(self.f.place(t), &format!("{:?} means nothing", t.text));
          }
        }
        _ => {}
      }
    }
  }
  fn used(&mut self, t: &Tok, env: &mut Env, n: u32) {
    match env.get_mut(&t.text) {
      Some(b) => b.uses += n,
      None => self.err(self.f.place(t), &format!("{} is not bound", t.text)),
    }
  }
  fn nodes(&mut self, v: &[T], env: &mut Env) {
    for t in v {
      self.expr(t, env);
    }
  }
  fn case(&mut self, v: &[T]) {
    let f = self.f;
    let Some(num) = f.tokens(v).find(|t| t.kind == "Num") else { return };
    let depth = match number(num) {
      Some(n) if n <= 3 => n,
      _ => return self.err(f.place(num), "too deep"),
    };
    let is_pat = |t: &&T| matches!(t, T::Node("AnyPat" | "NumPat" | "NodePat" | "OrPat", _));
    let arms = v.iter().filter_map(|t| match t {
      T::Node("Arm", v) => v.iter().find(is_pat),
      _ => None,
    });
    let arms: Vec<&T> = arms.collect();
    let wrong: Vec<&&T> = arms.iter().filter(|t| !self.fits(t, depth)).collect();
    for t in &wrong {
      self.err(f.extent(t), "does not fit");
    }
    if !wrong.is_empty() {
      return;
    }
    fn split<'t>(t: &'t T, out: &mut Vec<&'t T>) {
      match t {
        T::Node("OrPat", v) => v.iter().for_each(|t| split(t, out)),
        T::Node(..) => out.push(t),
        T::Tok(_) => {}
      }
    }
    let mut alts = Vec::new();
    for t in &arms {
      split(t, &mut alts);
    }
    // what parts each value gets to see
    let mut reached = HashSet::new();
    let mut left = false;
    for v in values(depth) {
      match alts.iter().find(|t| self.matches(t, &v)) {
        Some(t) => self.reach(t, &v, &mut reached),
        None => left = true,
      }
    }
    fn parts<'t>(t: &'t T, out: &mut Vec<&'t T>) {
      if let T::Node(k, v) = t {
        if *k != "OrPat" {
          out.push(t);
        }
        v.iter().for_each(|t| parts(t, out));
      }
    }
    let mut all = Vec::new();
    arms.iter().for_each(|t| parts(t, &mut all));
    for t in all {
      if !reached.contains(&std::ptr::from_ref(t)) {
        self.warn(f.extent(t), "never reached");
      }
    }
    if left {
      self.err(f.place(num), "not exhaustive");
    }
  }
  fn reach(&self, t: &T, val: &Val, out: &mut HashSet<*const T>) {
    let T::Node(k, v) = t else { return };
    match (*k, val) {
      ("OrPat", _) => {
        if let Some(t) = v.iter().find(|t| self.matches(t, val)) {
          self.reach(t, val, out);
        }
      }
      ("NodePat", Val::Pair(p)) => {
        out.insert(std::ptr::from_ref(t));
        let pats = v.iter().filter(|t| matches!(t, T::Node(..)));
        for (t, v) in pats.zip([&p.0, &p.1]) {
          self.reach(t, v, out);
        }
      }
      _ => {
        out.insert(std::ptr::from_ref(t));
      }
    }
  }
  fn fits(&self, t: &T, depth: u32) -> bool {
    let T::Node(k, v) = t else { return true };
    match *k {
      "NumPat" => number(self.f.tokens(v).next().expect("it has digits")).is_some_and(|n| n <= if depth == 0 { 2 } else { 0 }),
      "NodePat" => {
        let pats = v.iter().filter(|t| matches!(t, T::Node(..))).count();
        depth > 0 && pats <= 2 && v.iter().all(|t| self.fits(t, depth - 1))
      }
      "OrPat" => v.iter().all(|t| self.fits(t, depth)),
      _ => true,
    }
  }
  fn matches(&self, t: &T, val: &Val) -> bool {
    let T::Node(k, v) = t else { return false };
    match (*k, val) {
      ("AnyPat", _) => true,
      ("NumPat", Val::Num(n)) => number(self.f.tokens(v).next().expect("it has digits")) == Some(*n),
      ("NodePat", Val::Pair(p)) => {
        let pats = v.iter().filter(|t| matches!(t, T::Node(..)));
        pats.zip([&p.0, &p.1]).all(|(t, v)| self.matches(t, v))
      }
      ("OrPat", _) => v.iter().any(|t| self.matches(t, val)),
      _ => false,
    }
  }

  fn expr(&mut self, t: &T, env: &mut Env) {
    let T::Node(k, v) = t else { return };
    match *k {
      "AnyPat" | "NumPat" | "NodePat" | "OrPat" | "Ann" => {}
      "Cond" => {
        let parts: Vec<&T> = v.iter().filter(|t| matches!(t, T::Node(..))).collect();
        for i in [0, 2, 1] {
          if let Some(t) = parts.get(i) {
            self.expr(t, env);
          }
        }
        let places = (0..3).map(|i| parts.get(i).map(|t| self.f.extent(t))).collect();
        let words: Vec<&str> = self.f.tokens(v).map(|t| t.text.as_str()).collect();
        self.out.ops.push((words.join(" "), places));
      }
      "Triple" => {
        let f = self.f;
        let names: Vec<&Tok> = f.tokens(v).filter(|t| t.kind == "Name").collect();
        for (i, n) in [(2, 7), (0, 11), (3, 17), (1, 13)] {
          if let Some(t) = names.get(i) {
            self.used(t, env, n);
          }
        }
      }
      "Pick" => {
        let f = self.f;
        self.nodes(v, env);
        match f.name(v) {
          Some(t) => self.used(t, env, 3),
          None => self.warn(f.place(f.tokens(v).next().expect("it has a dot")), "picks nothing"),
        }
      }
      "NameRef" => {
        let t = self.f.name(v).expect("a reference has a name");
        self.out.refs.push((self.f.place(t), env.get(&t.text).map(|b| b.def.clone())));
      }
      "NumLit" => {
        let t = self.f.tokens(v).next().expect("a number has digits");
        if t.text.starts_with('0') && t.text != "0" {
          self.warn(self.f.place(t), "leading zero");
        }
        let what = match t.text.parse::<u64>() {
          Ok(n @ ..65_536) => format!("code {n} {}", 3 * n),
          _ => "no code".to_owned(),
        };
        self.out.ops.push((what, vec![Some(self.f.place(t))]));
      }
      "Lambda" => {
        let mut inner = env.clone();
        for t in v {
          if let T::Node("Params", ps) = t {
            let f = self.f;
            let sorted: BTreeMap<&str, &Tok> = f.tokens(ps).map(|t| (t.text.as_str(), t)).collect();
            self.out.ops.push(("parameters".to_owned(), sorted.values().map(|t| Some(f.place(t))).collect()));
            for t in f.tokens(ps) {
              inner.insert(t.text.clone(), self.bind(t));
            }
          }
        }
        self.nodes(v, &mut inner);
      }
      "Fold" => {
        let ops: Vec<&Tok> = self.f.tokens(v).skip(1).collect();
        let words: Vec<&str> = ops.iter().rev().map(|t| t.text.as_str()).collect();
        self.out.ops.push((words.join(" "), ops.iter().rev().map(|t| Some(self.f.place(t))).collect()));
      }
      "Bin" => {
        let sides = [v.first(), v.get(2)];
        for x in sides.iter().rev().flatten() {
          self.expr(x, env);
        }
        let T::Tok(op) = v[1] else { unreachable!() };
        let op = &self.f.tok(op).text;
        let places = sides.iter().map(|x| x.map(|x| self.f.extent(x))).collect();
        self.out.ops.push((format!("{op} {op}"), places));
      }
      "Typed" => {
        self.nodes(v, env);
        if let Some(t) = self.f.name(v) {
          self.used(t, env, 1);
        }
      }
      _ => self.nodes(v, env),
    }
  }
}

//! The language server under simulation: everything in it that is not glue is the library's.

use crate::ast::{self, AstNode as _};
use apply_changes::Change;
use chain_map::ChainMap;
use diagnostic::{Code, Diagnostic, Severity};
use fast_hash::FxHashMap;
use idx::Idx;
use event_parse::{Entered, Exited, Expected, Parser, rowan_sink};
use paths::{CleanPathBuf, FileSystem as _, PathId, PathMap, PathSet, RealFileSystem, Store};
use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet};
use std::fmt;
use std::rc::Rc;
use str_util::Name;
use text_pos::{PositionDb, PositionUtf16, RangeUtf16};
use text_size_util::{TextRange, WithRange, mk_text_size};
use token::Token;
use topo_sort::{Visitor, Work};
use uniq::{Uniq, UniqMk};
use vsim::ev;

pub const ROOT: &str = "/simfs/p";

// --- the language -----------------------------------------------------------------------------

pub use crate::kind::{Lang, SyntaxKind as K, SyntaxNode as Node, SyntaxToken};

pub const ITEM: [K; 8] = [K::LetKw, K::PubKw, K::FastKw, K::UseKw, K::DelKw, K::DelAllKw, K::CaseKw, K::LCurly];
pub const EXPR: [K; 6] = [K::Name, K::Num, K::LRound, K::LSquare, K::IfKw, K::Question];
pub const PAT: [K; 3] = [K::Question, K::Num, K::LSquare];
const OPS: [K; 27] = [
  K::Plus, K::Star, K::PlusPlus, K::EqEq, K::EqEqEq, K::DotDot, K::Comma, K::Slash, K::Tick, K::Minus, K::MinusGt, K::Lt, K::LtEq, K::LtMinusGt, K::Gt, K::GtEq, K::Bang,
  K::BangEq, K::And, K::AndAnd, K::Percent, K::Carat, K::Tilde, K::Dollar, K::BarGt, K::AtAt, K::MinusDotMinus,
];
/// How many names are assigned to at most.
pub const TARGETS: usize = 70;

#[derive(Debug, Clone)]
pub struct Er(Vec<K>);
impl Expected<K> for Er {
  fn expected(k: K) -> Self {
    Er(vec![k])
  }
}
impl fmt::Display for Er {
  fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
    f.write_str("expected ")?;
    fmt_util::comma_seq(f, self.0.iter())
  }
}

pub fn lex(text: &str) -> Vec<Token<'_, K>> {
  let mut st = str_process::St::new(text);
  let mut ret = Vec::new();
  let word = |b: u8| b.is_ascii_alphanumeric() || b == b'_';
  let wide = |idx: usize| text[idx..].chars().next().is_some_and(|c| !c.is_ascii() && c.is_alphabetic());
  while let Some(b) = st.cur() {
    let start = st.cur_idx();
    let m = st.mark();
    let kind = match b {
      b'\n' => {
        st.bump();
        K::Whitespace
      }
      b' ' | b'\t' | b'\r' => {
        st.bump_while(|b| matches!(b, b' ' | b'\t' | b'\r'));
        K::Whitespace
      }
      b'#' => {
        st.bump_while(|b| b != b'\n');
        K::Comment
      }
      b'0'..=b'9' => {
        st.bump_while(|b| b.is_ascii_digit());
        K::Num
      }
      _ if word(b) || wide(start) => {
        loop {
          st.bump_while(word);
          if st.cur().is_some() && wide(st.cur_idx()) {
            st.next_str();
          } else {
            break;
          }
        }
        K::keyword(&text.as_bytes()[start..st.cur_idx()]).unwrap_or(K::Name)
      }
      _ => {
        let here = st.mark();
        let found = K::PUNCTUATION.iter().find(|(p, _)| st.eat_prefix(p));
        if st.did_bump_since(here) {
          found.expect("only what is found is eaten").1
        } else {
          st.next_str();
          K::Bad
        }
      }
    };
    vsim::check!(st.since(st.mark()).is_empty(), "X01/slice", "a slice of nothing holds something");
    if kind == K::Comment {
      let all = st.since(m);
      ret.push(Token { kind, text: std::str::from_utf8(all).expect("a comment is text") });
      continue;
    }
    let bytes = st.non_empty_since(m);
    let text = std::str::from_utf8(bytes).expect("a token is text");
    ret.push(Token { kind, text });
  }
  ret
}

type P<'a> = Parser<'a, K, Er>;

fn root(p: &mut P<'_>) {
  if p.peek().is_some() {
    // all of it bindings and assignments, without an error
    let save = p.save();
    let en = p.enter();
    while p.peek().is_some() {
      if !item(p) {
        p.error(Er(vec![K::LetKw]));
      }
    }
    p.exit(en, K::Script);
    if p.ok_since(save) {
      return;
    }
    vsim::probe("an attempt at a whole file was rolled back");
  }
  // these two are empty, so nobody gets to see them
  let before = p.enter();
  let before = p.exit(before, K::Trail);
  let en = p.precede(before);
  while p.peek().is_some() {
    item(p);
  }
  let after = p.enter();
  p.exit(after, K::Trail);
  p.exit(en, K::Root);
}

fn assigns(p: &mut P<'_>) -> bool {
  let mut n = 0;
  while n < TARGETS && p.at_n(n, K::Name) {
    n += 1;
  }
  n > 0 && p.at_n(n, K::Eq)
}

/// Whether it binds or assigns.
fn item(p: &mut P<'_>) -> bool {
  let en = p.enter();
  let kind = match p.peek().expect("not at the end").kind {
    K::UseKw => {
      p.bump();
      p.eat(K::Name);
      p.eat(K::Semicolon);
      K::UseItem
    }
    K::DelKw => {
      p.bump();
      p.eat(K::Name);
      p.eat(K::Semicolon);
      K::DelItem
    }
    K::DelAllKw => {
      p.bump();
      p.eat(K::Semicolon);
      K::DelAllItem
    }
    K::LetKw | K::PubKw | K::FastKw => {
      while p.at(K::PubKw) || p.at(K::FastKw) {
        p.bump();
      }
      p.eat(K::LetKw);
      p.eat(K::Name);
      let ann = p.enter();
      if p.at(K::Colon) {
        p.bump();
        p.eat(K::Name);
        p.exit(ann, K::Ann);
      } else {
        p.abandon(ann);
      }
      p.eat(K::Eq);
      expr(p);
      p.eat(K::Semicolon);
      K::LetItem
    }
    K::Name if assigns(p) => {
      while p.at(K::Name) {
        p.bump();
      }
      p.bump();
      expr(p);
      p.eat(K::Semicolon);
      K::SetItem
    }
    K::CaseKw => {
      p.bump();
      p.eat(K::Num);
      p.eat(K::LCurly);
      while p.peek().is_some_and(|t| t.kind != K::RCurly) {
        if p.at(K::Bad) {
          let en = p.enter();
          p.error(Er(PAT.to_vec()));
          p.bump();
          p.exit(en, K::ErrItem);
        } else {
          arm(p);
        }
      }
      p.eat(K::RCurly);
      K::CaseItem
    }
    K::LCurly => {
      p.bump();
      while p.peek().is_some_and(|t| t.kind != K::RCurly) {
        item(p);
      }
      p.eat(K::RCurly);
      K::Block
    }
    _ => {
      p.error(Er(ITEM.to_vec()));
      p.bump();
      K::ErrItem
    }
  };
  let trail = p.enter();
  let save = p.save();
  let mut n = 0;
  while p.at(K::Semicolon) {
    p.bump();
    n += 1;
  }
  if p.at(K::Bad) {
    p.error(Er(vec![K::Semicolon]));
  }
  if !p.ok_since(save) {
    n = 0;
  }
  let trail = p.exit(trail, K::Trail);
  vsim::check!(trail.is_empty() == (n == 0), "X01/empty", "a trail of {n} tokens said whether it is empty: {}", trail.is_empty());
  p.exit(en, kind);
  matches!(kind, K::LetItem | K::SetItem)
}

fn arm(p: &mut P<'_>) {
  let en = p.enter();
  if pat(p).is_none() {
    p.error(Er(PAT.to_vec()));
    p.bump();
  }
  p.eat(K::EqGt);
  expr(p);
  p.eat(K::Semicolon);
  p.exit(en, K::Arm);
}

fn pat(p: &mut P<'_>) -> Option<Exited> {
  let mut ex = pat_atom(p)?;
  while p.at(K::Bar) {
    let en = p.precede(ex);
    p.bump();
    if pat_atom(p).is_none() {
      p.error(Er(PAT.to_vec()));
    }
    ex = p.exit(en, K::OrPat);
  }
  Some(ex)
}

fn pat_atom(p: &mut P<'_>) -> Option<Exited> {
  let en = p.enter();
  let kind = if p.at(K::Question) {
    p.bump();
    K::AnyPat
  } else if p.at(K::Num) {
    p.bump();
    K::NumPat
  } else if p.at(K::LSquare) {
    p.bump();
    while pat(p).is_some() {}
    p.eat(K::RSquare);
    K::NodePat
  } else {
    p.abandon(en);
    return None;
  };
  done(p, en, kind)
}

fn need_atom(p: &mut P<'_>) -> Option<Exited> {
  let ret = atom(p);
  if ret.is_none() {
    p.error(Er(EXPR.to_vec()));
  }
  ret
}

fn expr(p: &mut P<'_>) -> Option<Exited> {
  let mut ex = need_atom(p)?;
  loop {
    let en = p.precede(ex);
    if OPS.into_iter().any(|k| p.at(k)) {
      p.bump();
      need_atom(p);
      ex = p.exit(en, K::Bin);
      continue;
    }
    // something else may be its parent
    p.abandon(en);
    let en = p.precede(ex);
    if p.at(K::Colon) {
      p.bump();
      p.eat(K::Name);
      ex = p.exit(en, K::Typed);
    } else if p.at(K::Dot) {
      p.bump();
      if p.at(K::Name) {
        p.bump();
      }
      ex = p.exit(en, K::Pick);
    } else {
      p.abandon(en);
      return Some(ex);
    }
  }
}

fn done(p: &mut P<'_>, en: Entered, k: K) -> Option<Exited> {
  Some(p.exit(en, k))
}

fn atom(p: &mut P<'_>) -> Option<Exited> {
  let en = p.enter();
  if p.at(K::Name) {
    p.bump();
    return done(p, en, K::NameRef);
  }
  if p.at(K::Num) {
    p.bump();
    return done(p, en, K::NumLit);
  }
  if p.at(K::IfKw) {
    p.bump();
    expr(p);
    p.eat(K::ThenKw);
    expr(p);
    p.eat(K::ElseKw);
    expr(p);
    return done(p, en, K::Cond);
  }
  if p.at(K::LSquare) {
    p.bump();
    p.eat(K::Name);
    p.eat(K::Name);
    for _ in 0..2 {
      if p.at(K::Name) {
        p.bump();
      }
    }
    p.eat(K::RSquare);
    return done(p, en, K::Triple);
  }
  if p.at(K::Question) {
    p.bump();
    let mut n = 0;
    while n < 2 && OPS.into_iter().any(|k| p.at(k)) {
      p.bump();
      n += 1;
    }
    if n == 0 {
      p.error(Er(OPS.to_vec()));
    }
    return done(p, en, K::Fold);
  }
  if !p.at(K::LRound) {
    p.abandon(en);
    return None;
  }
  let save = p.save();
  let lam = p.enter();
  p.bump();
  let params = p.enter();
  while p.at(K::Name) {
    p.bump();
  }
  let params = p.exit(params, K::Params);
  if params.is_empty() {
    p.error(Er(vec![K::Name]));
  } else if p.eat(K::RRound).is_some() && p.eat(K::EqGt).is_some() {
    expr(p);
  }
  let lam = p.exit(lam, K::Lambda);
  if p.ok_since(save) {
    p.abandon(en);
    return Some(lam);
  }
  vsim::probe("an attempt was rolled back");
  p.bump();
  expr(p);
  p.eat(K::RRound);
  done(p, en, K::Paren)
}

// --- parsed files -----------------------------------------------------------------------------

pub struct Parsed {
  pub root: Node,
  errors: Vec<rowan_sink::Error<K, Er>>,
  imports: Vec<PathId>,
  db: PositionDb,
  len: usize,
}

fn parse(store: &mut Store, text: &str) -> Parsed {
  let tokens = lex(text);
  let mut p = Parser::new(&tokens);
  root(&mut p);
  let mut sink = rowan_sink::RowanSink::default();
  p.finish(&mut sink);
  let (root, errors) = sink.finish::<Lang>();
  let mut imports = Vec::new();
  for u in root.descendants().filter_map(ast::UseItem::cast) {
    if let Some(t) = u.name() {
      imports.push(import(store, t.text()));
    }
  }
  Parsed { root, errors, imports, db: PositionDb::new(text), len: text.len() }
}

fn import(store: &mut Store, name: &str) -> PathId {
  let mut p = CleanPathBuf::new(ROOT).expect("the root is absolute");
  p.push(name);
  store.get_id_owned(p)
}

// --- the server -------------------------------------------------------------------------------

pub struct Doc {
  pub version: u64,
  pub text: String,
}

/// What is published about a file.
#[derive(Debug, PartialEq, Eq, Clone, Default)]
pub struct Found {
  pub diags: Vec<String>,
  /// the worst of them
  pub worst: Option<String>,
  /// each name, and what it refers to
  pub refs: Vec<(RangeUtf16, Option<Def>)>,
  /// what is bound at the end, and how often it was used
  pub scope: BTreeMap<String, (Def, u32)>,
  /// what operators are between
  pub ops: Vec<(String, Vec<Option<RangeUtf16>>)>,
}

/// A file and a place in it, none for what is built in.
pub type Def = Option<(String, RangeUtf16)>;

#[derive(Clone, Copy)]
struct Binding {
  uniq: Uniq,
  uses: u32,
}
type Env = ChainMap<Name, Binding>;

pub enum Log {
  Enter(String, bool),
  Process(String),
  Exit(String, usize),
}

/// The outcome of one analysis.
pub struct Pass {
  pub log: Vec<Log>,
  pub found: BTreeMap<String, Found>,
  pub parsed: BTreeMap<String, Node>,
  /// what was read of files that are not open
  pub read: BTreeMap<String, String>,
  pub roots: BTreeSet<String>,
  pub done: BTreeSet<String>,
  pub cycle: Option<String>,
}

pub struct Server {
  store: Store,
  pub docs: BTreeMap<String, Doc>,
  /// documents whose content we do not know
  pub ask: BTreeSet<String>,
  mk: UniqMk,
  defs: FxHashMap<Uniq, Idx>,
  /// where things are defined, none for what is built in
  places: Vec<Option<(PathId, TextRange)>>,
  builtins: Env,
}

fn clean(path: &str) -> CleanPathBuf {
  CleanPathBuf::new(path).expect("paths are absolute")
}

impl Server {
  pub fn new() -> Server {
    let mut s = Server {
      store: Store::new(),
      docs: BTreeMap::new(),
      ask: BTreeSet::new(),
      mk: UniqMk::default(),
      defs: fast_hash::map_with_capacity(vsim::pick(&[0, 1, 40])),
      places: Vec::new(),
      builtins: Env::default(),
    };
    let all = crate::BUILTIN.map(|n| {
      let uniq = s.define(None);
      (Name::new(n), Binding { uniq, uses: 0 })
    });
    match vsim::choose(3) {
      0 => s.builtins = all.into(),
      1 => s.builtins = all.into_iter().collect(),
      _ => {
        for (k, b) in all {
          s.builtins.insert(k, b);
        }
      }
    }
    if vsim::chance(1, 400) {
      vsim::probe("long history");
      let n = vsim::pick(&[70, 252, 5_000, 65_532, 70_000]) - vsim::range(0, 4);
      for i in 0..n {
        s.store.get_id_owned(clean(&format!("{ROOT}/old/{i}")));
        s.define(None);
      }
    }
    s
  }

  fn define(&mut self, place: Option<(PathId, TextRange)>) -> Uniq {
    let uniq = self.mk.mk();
    let old = self.defs.insert(uniq, Idx::new(self.places.len()));
    vsim::check!(old.is_none(), "X01/unique", "{uniq} was there already");
    self.places.push(place);
    uniq
  }

  pub fn change(&mut self, path: &str, version: u64, changes: Vec<Change>) {
    let d = self.docs.get_mut(path).expect("the document is open");
    apply_changes::get(&mut d.text, changes);
    d.version = version;
  }

  /// The kind, what to show about it, and the place of the token at a position.
  pub fn token_at(&self, path: &str, pos: PositionUtf16) -> Option<(String, RangeUtf16)> {
    let text = &self.docs[path].text;
    let db = PositionDb::new(text);
    let at = db.text_size_utf16(pos)?;
    let mut store = Store::new();
    let t = parse(&mut store, text).root.token_at_offset(at).right_biased()?;
    let k = t.kind();
    let what = format!("{k:?}, {k}, {:?}: {}", k.token_desc(), k.token_doc().unwrap_or_default());
    Some((what, db.range_utf16(t.text_range())?))
  }

  /// Analyses everything.
  pub fn pass(&mut self) -> Pass {
    let fs = RealFileSystem::default();
    let mut roots: BTreeSet<String> = self.docs.keys().cloned().collect();
    let dir = clean(ROOT);
    match fs.read_dir(dir.as_path()) {
      Ok(v) => {
        for p in v {
          if fs.is_file(&p) {
            roots.insert(p.to_str().expect("all names are text").to_owned());
          }
        }
      }
      Err(e) => ev!("cannot list: {:?}", e.kind()),
    }
    let mut an = An {
      store: RefCell::new(std::mem::take(&mut self.store)),
      srv: self,
      parsed: RefCell::default(),
      read: RefCell::default(),
      log: RefCell::default(),
      cur: PathSet::default(),
      modules: PathMap::default(),
      found: PathMap::default(),
    };
    // workers parse some of the files
    let mut todo: Vec<String> = roots.iter().cloned().collect();
    let mut workers: Vec<Worker> = (0..vsim::range(0, 3)).map(|_| Worker::default()).collect();
    while !workers.is_empty() {
      let w = vsim::choose(workers.len());
      match vsim::weighted(&[3, 10, 1]) {
        1 if !todo.is_empty() => {
          let path = todo.swap_remove(vsim::choose(todo.len()));
          if let Some(text) = an.text(&path) {
            workers[w].parse(&path, &text);
          }
        }
        2 => {
          ev!("worker {w} lost");
          vsim::fault("worker lost");
          workers.swap_remove(w);
        }
        _ => {
          let w = workers.swap_remove(w);
          an.merge(w);
        }
      }
    }
    // analyse in order of the imports
    let mut order: Vec<PathId> = {
      let store = an.store.get_mut();
      roots.iter().map(|r| store.get_id(clean(r).as_clean_path())).collect()
    };
    if order.len() > 1 {
      let k = vsim::choose(order.len());
      order.rotate_left(k);
    }
    let work: Work<PathId> = order.into_iter().collect();
    let (done, cycle): (Vec<PathId>, _) = if vsim::chance(1, 2) {
      let mut v = ByHash(an);
      let r = work.run(&mut v);
      an = v.0;
      (r.done.into_iter().collect(), r.cycle)
    } else {
      let mut v = ByOrder(an);
      let r = work.run(&mut v);
      an = v.0;
      (r.done.into_iter().collect(), r.cycle)
    };
    let parsed = std::mem::take(an.parsed.get_mut());
    let found = std::mem::take(&mut an.found);
    let ret = Pass {
      found: found.into_iter().map(|(id, f)| (an.path(id), f)).collect(),
      parsed: parsed.into_iter().map(|(id, p)| (an.path(id), p.root.clone())).collect(),
      done: done.iter().map(|&id| an.path(id)).collect(),
      cycle: cycle.map(|id| an.path(id)),
      log: std::mem::take(an.log.get_mut()),
      read: std::mem::take(an.read.get_mut()),
      roots,
    };
    let store = an.store.into_inner();
    self.store = store;
    ret
  }
}

/// Parses files on its own, with paths of its own.
#[derive(Default)]
struct Worker {
  store: Store,
  files: Vec<(PathId, Parsed)>,
}

impl Worker {
  fn parse(&mut self, path: &str, text: &str) {
    let path = clean(path);
    let id =
      if vsim::chance(1, 2) { self.store.get_id_owned(path) } else { self.store.get_id(path.as_clean_path()) };
    let parsed = parse(&mut self.store, text);
    self.files.push((id, parsed));
  }
}

/// An analysis under way.
struct An<'s> {
  srv: &'s mut Server,
  store: RefCell<Store>,
  parsed: RefCell<PathMap<Rc<Parsed>>>,
  read: RefCell<BTreeMap<String, String>>,
  log: RefCell<Vec<Log>>,
  cur: PathSet,
  /// what finished modules export
  modules: PathMap<Env>,
  found: PathMap<Found>,
}

impl An<'_> {
  fn path(&self, id: PathId) -> String {
    self.store.borrow().get_path(id).as_path().to_str().expect("all paths are text").to_owned()
  }

  fn text(&self, path: &str) -> Option<String> {
    if let Some(d) = self.srv.docs.get(path) {
      return Some(d.text.clone());
    }
    let (fs, at) = (RealFileSystem::default(), clean(path));
    let read = if vsim::chance(1, 2) {
      fs.read_to_string(&at.into_path_buf())
    } else {
      fs.read_to_bytes(at.as_path()).and_then(|b| String::from_utf8(b).map_err(std::io::Error::other))
    };
    match read {
      Ok(s) => {
        self.read.borrow_mut().insert(path.to_owned(), s.clone());
        Some(s)
      }
      Err(e) => {
        ev!("cannot read {path}: {:?}", e.kind());
        None
      }
    }
  }

  fn merge(&self, w: Worker) {
    let mut new = PathMap::<PathId>::default();
    self.store.borrow_mut().combine(w.store, &mut |a, b| {
      new.insert(a, b);
    });
    for (id, mut p) in w.files {
      for i in &mut p.imports {
        *i = new[i];
      }
      self.parsed.borrow_mut().insert(new[&id], Rc::new(p));
    }
  }

  fn enter(&self, id: PathId) -> Option<Rc<Parsed>> {
    let path = self.path(id);
    let have = self.parsed.borrow().get(&id).cloned();
    let ret = have.or_else(|| {
      let text = self.text(&path)?;
      let mut w = Worker::default();
      w.parse(&path, &text);
      self.merge(w);
      self.parsed.borrow().get(&id).cloned()
    });
    ev!("enter {path} {}", ret.is_some());
    self.log.borrow_mut().push(Log::Enter(path, ret.is_some()));
    ret
  }

  fn process(&mut self, id: PathId, p: &Parsed, work: &mut Work<PathId>) {
    self.cur.insert(id);
    if p.imports.len() == 1 {
      work.push(p.imports[0]);
    } else {
      work.extend(p.imports.iter().copied());
    }
    let path = self.path(id);
    ev!("process {path}, {} imports", p.imports.len());
    self.log.get_mut().push(Log::Process(path));
  }

  fn exit(&mut self, id: PathId, level: usize) {
    let path = self.path(id);
    ev!("exit {path} level {level}");
    self.log.get_mut().push(Log::Exit(path, level));
    let p = self.parsed.borrow()[&id].clone();
    let mut m = Eval { worst: None, an: self, id, p: &p, found: Found::default() };
    for e in &p.errors {
      let what = match e.kind {
        Some(k) => format!("{} at {k}", e.inner),
        None => format!("{} in nothing", e.inner),
      };
      m.diag(e.range, Severity::Error, what);
    }
    let mut env = m.an.srv.builtins.clone();
    let mut exports = Env::default();
    if let Some(r) = ast::Root::cast(p.root.clone()) {
      let same = r.clone();
      vsim::check!(
        *same.syntax() == p.root && (p.db.len() > 400.into() || format!("{same:?} {same:#?}") == format!("{0:?} {0:#?}", p.root)),
        "X01/root", "the root of {} is shown as {same:?}, not {:?}", m.an.path(id), p.root
      );
      m.items(r.items(), &mut env, Some(&mut exports));
    } else {
      let r = ast::Script::cast(p.root.clone()).expect("a file is one or the other");
      vsim::check!(r.items().all(|i| matches!(i, ast::Item::LetItem(_) | ast::Item::SetItem(_))), "X01/script", "other items in a script");
      m.items(r.items(), &mut env, Some(&mut exports));
    }
    if vsim::chance(1, 4) {
      exports.consolidate();
    }
    if exports.is_empty() {
      m.diag(TextRange::empty(mk_text_size(p.len)), Severity::Warning, "exports nothing".to_owned());
    }
    let scope: BTreeMap<String, (Def, u32)> =
      env.iter().map(|(k, b)| (k.as_str().to_owned(), (m.an.def(b.uniq), b.uses))).collect();
    let listed = env.iter().count();
    let again: BTreeMap<String, (Def, u32)> =
      env.into_iter().map(|(k, b)| (k.to_string(), (m.an.def(b.uniq), b.uses))).collect();
    vsim::check!(again == scope && listed == scope.len(), "X01/scope", "{scope:?} listed as {listed} names, then {again:?}");
    m.found.scope = scope;
    m.found.worst = m.worst.map(|s| s.to_string());
    let found = m.found;
    self.found.insert(id, found);
    self.modules.insert(id, exports);
    self.cur.remove(&id);
  }

  fn def(&self, u: Uniq) -> Def {
    let (id, range) = self.srv.places[self.srv.defs[&u].to_usize()]?;
    let range = self.parsed.borrow()[&id].db.range_utf16(range).expect("a name has a place");
    Some((self.path(id), range))
  }
}

struct Eval<'a, 's, 'p> {
  worst: Option<Severity>,
  an: &'a mut An<'s>,
  id: PathId,
  p: &'p Parsed,
  found: Found,
}

impl Eval<'_, '_, '_> {
  fn place(&self, r: TextRange) -> RangeUtf16 {
    self.p.db.range_utf16(r).expect("the range is in the text")
  }
  fn diag(&mut self, r: TextRange, severity: Severity, message: String) {
    let d = Diagnostic { range: self.place(r), message, severity };
    self.found.diags.push(d.to_string());
    self.worst = self.worst.max(Some(severity));
  }
  fn bind(&mut self, t: &SyntaxToken) -> (Name, Binding) {
    let uniq = self.an.srv.define(Some((self.id, t.text_range())));
    (Name::new(t.text()), Binding { uniq, uses: 0 })
  }
  fn used(&mut self, t: &SyntaxToken, env: &mut Env, n: u32) {
    match env.get_mut(t.text()) {
      Some(b) => b.uses += n,
      None => self.diag(t.text_range(), Severity::Error, format!("{} is not bound", t.text())),
    }
  }

  fn items(&mut self, items: impl Iterator<Item = ast::Item>, env: &mut Env, mut exports: Option<&mut Env>) {
    let mut last = None::<Name>;
    for item in items {
      match item {
        ast::Item::UseItem(u) => {
          let Some(t) = u.name() else { continue };
          let x = import(self.an.store.get_mut(), t.text());
          if let Some(e) = self.an.modules.get(&x) {
            let mut e = e.clone();
            if e.is_empty() {
              self.diag(t.text_range(), Severity::Warning, format!("{} exports nothing", t.text()));
            }
            env.append(&mut e);
            vsim::check!(e.is_empty() && e.iter().next().is_none(), "X01/appended", "what was appended is left non-empty");
          } else {
            let why = if self.an.cur.contains(&x) { "is being imported" } else { "cannot be read" };
            self.diag(t.text_range(), Severity::Error, format!("{} {why}", t.text()));
          }
        }
        ast::Item::DelItem(d) => {
          let Some(t) = d.name() else { continue };
          if let Some(e) = exports.as_deref_mut() {
            e.remove(t.text());
          }
          match env.remove(t.text()) {
            Some(b) => self.diag(t.text_range(), Severity::Warning, format!("deleted after {} uses", b.uses)),
            None => self.diag(t.text_range(), Severity::Error, format!("{} is not bound", t.text())),
          }
        }
        ast::Item::DelAllItem(d) => {
          let Some(t) = d.del_all_kw() else { continue };
          if env.is_empty() {
            self.diag(t.text_range(), Severity::Warning, "nothing is bound".to_owned());
          }
          // as soon as one is seen, the rest does not matter
          let used = env.drain().any(|(_, b)| b.uses > 0);
          if let Some(e) = exports.as_deref_mut() {
            let _ = e.drain();
          }
          if used {
            self.diag(t.text_range(), Severity::Warning, "used names are deleted".to_owned());
          }
        }
        ast::Item::LetItem(l) => {
          if let Some(t) = l.ann().and_then(|a| a.ty()) {
            self.used(&t, env, 5);
          }
          if let Some(x) = l.expr() {
            self.expr(&x, env);
          }
          let Some(t) = l.name() else { continue };
          let (k, mut b) = self.bind(&t);
          if last.as_ref() == Some(&k) {
            self.diag(t.text_range(), Severity::Warning, format!("{k} follows itself"));
          }
          last = Some(k.clone());
          if Name::try_new(t.text().trim_matches('_')).is_none() {
            self.diag(t.text_range(), Severity::Warning, "a blank".to_owned());
          }
          if crate::is_snake(t.text()) {
            let pascal = identifier_case::snake_to_pascal(t.text());
            let back = identifier_case::pascal_to_snake(&pascal);
            let range = Some(self.place(t.text_range()));
            self.found.ops.push((format!("{pascal} {back}"), vec![range]));
          }
          for m in l.mods() {
            b.uses = match m.kind {
              ast::ModKind::PubKw => b.uses.wrapping_mul(2).wrapping_add(100),
              ast::ModKind::FastKw => b.uses.wrapping_add(1),
            };
          }
          if let Some(e) = exports.as_deref_mut() {
            e.insert(k.clone(), b);
          }
          if !env.insert(k, b) {
            self.diag(t.text_range(), Severity::Warning, format!("{} is bound again", t.text()));
          }
        }
        ast::Item::SetItem(s) => {
          if let Some(x) = s.expr() {
            self.expr(&x, env);
          }
          for t in s.names() {
            self.used(&t, env, 10);
          }
        }
        ast::Item::CaseItem(c) => {
          self.case(&c);
          for a in c.arms() {
            if let Some(x) = a.expr() {
              self.expr(&x, env);
            }
          }
        }
        ast::Item::Block(b) => {
          let mut inner = env.clone();
          self.items(b.items(), &mut inner, None);
        }
        ast::Item::ErrItem(e) => {
          if let Some(t) = e.bad() {
            self.diag(t.text_range(), Severity::Error, format!("{:?} means nothing", t.text()));
          }
        }
      }
    }
  }

  /// Whether the arms tell all there is apart.
  fn case(&mut self, c: &ast::CaseItem) {
    let Some(t) = c.num() else { return };
    let Some(depth @ 0..=3) = t.text().parse::<u32>().ok() else {
      self.diag(t.text_range(), Severity::Error, "too deep".to_owned());
      return;
    };
    let pats: Vec<ast::Pat> = c.arms().filter_map(|a| a.pat()).collect();
    let mut out = Vec::new();
    for p in &pats {
      match matching::pat(p, depth) {
        Some(p) => out.push(p),
        None => self.diag(p.syntax().text_range(), Severity::Error, "does not fit".to_owned()),
      }
    }
    if out.len() < pats.len() {
      return;
    }
    let parts: Vec<TextRange> = out.iter().flat_map(matching::parts).collect();
    let again = out.clone();
    let r = pattern_match::check::<matching::L>(&mut (), out, depth).expect("the patterns fit");
    let mut seen = fast_hash::set_with_capacity(parts.len());
    for r in parts.into_iter().filter(|t| r.unreachable.contains(t) && seen.insert(*t)) {
      vsim::probe("never reached");
      self.diag(r, Severity::Warning, "never reached".to_owned());
    }
    if !r.missing.is_empty() {
      vsim::probe("not exhaustive");
      self.diag(t.text_range(), Severity::Error, "not exhaustive".to_owned());
      // with them added it is
      let mut all = again;
      all.extend(r.missing);
      let r = pattern_match::check::<matching::L>(&mut (), all, depth).expect("the patterns fit");
      vsim::check!(r.missing.is_empty(), "X01/missing", "with what is missing there is still missing {:?}", r.missing);
    }
  }

  fn expr(&mut self, x: &ast::Expr, env: &mut Env) {
    match x {
      ast::Expr::NameRef(n) => {
        let t = n.name().expect("a reference has a name");
        let d = env.get(t.text()).map(|b| self.an.def(b.uniq));
        let r = self.place(t.text_range());
        self.found.refs.push((r, d));
      }
      ast::Expr::NumLit(n) => {
        let t = n.num().expect("a number has digits");
        if t.text().len() > 1 && t.text().starts_with('0') {
          self.diag(t.text_range(), Severity::Warning, "leading zero".to_owned());
        }
        let digits = WithRange { val: t.text(), range: t.text_range() };
        let code = digits.wrap(digits.val.parse::<Code>());
        let range = Some(self.place(code.range));
        let what = match code.val {
          Ok(c) => format!("code {c} {}", c.as_i32() * 3),
          Err(_) => "no code".to_owned(),
        };
        self.found.ops.push((what, vec![range]));
      }
      ast::Expr::Lambda(l) => {
        let mut inner = env.clone();
        let names: Vec<SyntaxToken> = l.params().into_iter().flat_map(|p| p.names()).collect();
        let new: Vec<(Name, Binding)> = names.iter().map(|t| self.bind(t)).collect();
        // in the order of their names
        let sorted: BTreeMap<&Name, &SyntaxToken> = new.iter().map(|x| &x.0).zip(&names).collect();
        let ranges = sorted.values().map(|t| Some(self.place(t.text_range()))).collect();
        self.found.ops.push(("parameters".to_owned(), ranges));
        inner.extend(new);
        if let Some(x) = l.body() {
          self.expr(&x, &mut inner);
        }
      }
      ast::Expr::Typed(y) => {
        if let Some(x) = y.expr() {
          self.expr(&x, env);
        }
        if let Some(t) = y.ty() {
          self.used(&t, env, 1);
        }
      }
      ast::Expr::Paren(y) => {
        if let Some(x) = y.inner() {
          self.expr(&x, env);
        }
      }
      ast::Expr::Cond(c) => {
        for x in [c.test(), c.no(), c.yes()].iter().flatten() {
          self.expr(x, env);
        }
        let at = |x: Option<ast::Expr>| x.map(|x| self.place(x.syntax().text_range()));
        let ranges = vec![at(c.test()), at(c.yes()), at(c.no())];
        let words: Vec<String> =
          [c.if_kw(), c.then_kw(), c.else_kw()].into_iter().flatten().map(|t| t.text().to_owned()).collect();
        self.found.ops.push((words.join(" "), ranges));
      }
      ast::Expr::Triple(y) => {
        for (t, n) in [(y.thd(), 7), (y.fst(), 11), (y.name(), 17), (y.snd(), 13)] {
          if let Some(t) = t {
            self.used(&t, env, n);
          }
        }
      }
      ast::Expr::Pick(y) => {
        if let Some(x) = y.expr() {
          self.expr(&x, env);
        }
        match (y.name(), y.dot()) {
          (Some(t), _) => self.used(&t, env, 3),
          (None, Some(t)) => self.diag(t.text_range(), Severity::Warning, "picks nothing".to_owned()),
          (None, None) => unreachable!("it has a dot"),
        }
      }
      ast::Expr::Fold(f) => {
        let at = |o: &ast::Op| Some(self.place(o.token.text_range()));
        let ops = [f.op(), f.fst()];
        let ranges = ops.iter().flatten().map(at).collect();
        let words: Vec<&str> = ops.iter().flatten().map(|o| o.kind.to_str()).collect();
        self.found.ops.push((words.join(" "), ranges));
      }
      ast::Expr::Bin(b) => {
        // right to left
        let sides = [b.lhs(), b.rhs()];
        for x in sides.iter().rev().flatten() {
          self.expr(x, env);
        }
        if let Some(op) = b.op() {
          let at = |x: &Option<ast::Expr>| x.as_ref().map(|x| self.place(x.syntax().text_range()));
          let ranges = sides.iter().map(at).collect();
          self.found.ops.push((format!("{} {}", op.kind.to_str(), op.token.text()), ranges));
        }
      }
    }
  }
}

mod matching {
  use crate::ast::{self, AstNode as _};
  use pattern_match::{CheckError, ConPat, Pat, RawPat, Result};
  use text_size_util::TextRange;

  /// Numbers up to 2 at depth 0; below that 0 or a pair.
  pub enum L {}

  #[derive(Debug, Clone, Copy, PartialEq, Eq)]
  pub enum Con {
    Any,
    Num(u32),
    Pair,
  }

  fn cons(depth: u32) -> Vec<Con> {
    if depth == 0 { vec![Con::Num(0), Con::Num(1), Con::Num(2)] } else { vec![Con::Num(0), Con::Pair] }
  }

  impl pattern_match::Lang for L {
    type Cx = ();
    type PatIdx = TextRange;
    type Con = Con;
    type Ty = u32;
    fn any() -> Con {
      Con::Any
    }
    fn split<'a, I>(_: &mut (), ty: &u32, con: &Con, _: I, _: usize) -> Result<Vec<Con>>
    where
      I: Iterator<Item = &'a Con>,
    {
      match con {
        Con::Any => Ok(cons(*ty)),
        c if cons(*ty).contains(c) => Ok(vec![*c]),
        _ => Err(CheckError("not of the type")),
      }
    }
    fn get_arg_tys(_: &mut (), ty: &u32, con: &Con) -> Result<Vec<u32>> {
      match con {
        Con::Any | Con::Num(_) => Ok(Vec::new()),
        Con::Pair => Ok(vec![ty.checked_sub(1).ok_or(CheckError("not of the type"))?; 2]),
      }
    }
    fn covers(lhs: &Con, rhs: &Con) -> bool {
      *lhs == Con::Any || lhs == rhs
    }
  }

  /// None if it does not fit.
  pub fn pat(p: &ast::Pat, depth: u32) -> Option<Pat<L>> {
    let idx = Some(p.syntax().text_range());
    let con = |con, args| RawPat::Con(ConPat { con, args });
    let raw = match p {
      ast::Pat::AnyPat(_) => con(Con::Any, Vec::new()),
      ast::Pat::NumPat(n) => {
        let c = Con::Num(n.num()?.text().parse().ok()?);
        con(cons(depth).contains(&c).then_some(c)?, Vec::new())
      }
      ast::Pat::NodePat(n) => {
        let depth = depth.checked_sub(1)?;
        let args: Option<Vec<_>> = n.pats().map(|p| pat(&p, depth)).collect();
        con(Con::Pair, args.filter(|a| a.len() <= 2)?)
      }
      ast::Pat::OrPat(o) => {
        let sides = [o.lhs(), o.rhs()];
        let pats: Option<Vec<_>> = sides.iter().flatten().map(|p| pat(p, depth)).collect();
        return Some(Pat { raw: RawPat::Or(pats?), idx: None });
      }
    };
    Some(Pat { raw, idx })
  }

  /// All parts, in order.
  pub fn parts(p: &Pat<L>) -> Vec<TextRange> {
    let below = match &p.raw {
      RawPat::Or(ps) => ps,
      RawPat::Con(c) => &c.args,
    };
    p.idx.into_iter().chain(below.iter().flat_map(parts)).collect()
  }
}

macro_rules! visitor {
  ($name:ident, $set:ty) => {
    struct $name<'s>(An<'s>);
    impl Visitor for $name<'_> {
      type Elem = PathId;
      type Data = Rc<Parsed>;
      type Set = $set;
      fn enter(&self, id: PathId) -> Option<Rc<Parsed>> {
        self.0.enter(id)
      }
      fn process(&mut self, id: PathId, p: Rc<Parsed>, work: &mut Work<PathId>) {
        self.0.process(id, &p, work);
      }
      fn exit(&mut self, id: PathId, level: usize) {
        self.0.exit(id, level);
      }
    }
  };
}
visitor!(ByHash, PathSet);
visitor!(ByOrder, BTreeSet<PathId>);

//! Simulated parse sessions.
//!
//! A session is a simulated grammar driver that opens, closes, abandons and re-parents constructs,
//! looks ahead, consumes, records errors and makes (nested) speculative attempts, all as drawn from
//! the tape. Errors hit at any instant; the grammar code and the sink may panic at any instant.
//!
//! E01: the session is repeated without the attempts that failed (and without the saves around those
//! that did not); everything observed must be the same.
//! E02: the sink's log is judged against a tree model of the session.

use event_parse::rowan_sink::RowanSink;
use event_parse::{Entered, Exited, Expected, Parser, Sink};
use std::collections::BTreeMap;
use token::{Token, Triviable};
use vsim::{check, ev};

// ---------------------------------------------------------------------------------------------
// Kinds, errors

#[derive(Debug, Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash)]
struct K(u16);

const TRIVIA: u16 = 3;
const TOKENS: u16 = 5;
const NODE: u16 = 100;

impl Triviable for K {
  fn is_trivia(&self) -> bool {
    self.0 < TRIVIA
  }
}

impl From<K> for rowan::SyntaxKind {
  fn from(k: K) -> Self {
    rowan::SyntaxKind(k.0)
  }
}

#[derive(Debug, Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash)]
enum Lang {}

impl rowan::Language for Lang {
  type Kind = K;
  fn kind_from_raw(raw: rowan::SyntaxKind) -> K {
    K(raw.0)
  }
  fn kind_to_raw(kind: K) -> rowan::SyntaxKind {
    kind.into()
  }
}

#[derive(Debug, Clone, Copy, PartialEq, Eq)]
enum E {
  Own(u32),
  Expected(K),
}

impl Expected<K> for E {
  fn expected(kind: K) -> Self {
    E::Expected(kind)
  }
}

// ---------------------------------------------------------------------------------------------
// A session on the real parser

#[derive(Debug, Clone, Copy)]
enum Op {
  Peek,
  PeekN(usize),
  At(K),
  AtN(usize, K),
  Eat(K),
  Bump,
  Error(u32),
  Enter,
  Exit(K, u32),
  Abandon,
  Precede(u32),
  IsEmpty(u32),
}

#[derive(Debug, Clone, PartialEq, Eq)]
enum Obs {
  Unit,
  Tok(Option<(K, String)>),
  Bool(bool),
}

struct Sess<'a> {
  // dropped before the parser, like locals of grammar functions
  open: Vec<Entered>,
  exits: BTreeMap<u32, Exited>,
  p: Parser<'a, K, E>,
}

fn tok(t: Option<Token<'_, K>>) -> Obs {
  Obs::Tok(t.map(|t| (t.kind, t.text.to_owned())))
}

impl<'a> Sess<'a> {
  fn new(tokens: &'a [Token<'a, K>]) -> Self {
    Sess { open: Vec::new(), exits: BTreeMap::new(), p: Parser::new(tokens) }
  }

  fn apply(&mut self, op: Op) -> Obs {
    let p = &mut self.p;
    match op {
      Op::Peek => tok(p.peek()),
      Op::PeekN(n) => tok(p.peek_n(n)),
      Op::At(k) => Obs::Bool(p.at(k)),
      Op::AtN(n, k) => Obs::Bool(p.at_n(n, k)),
      Op::Eat(k) => tok(p.eat(k)),
      Op::Bump => tok(Some(p.bump())),
      Op::Error(n) => {
        p.error(E::Own(n));
        Obs::Unit
      }
      Op::Enter => {
        let en = p.enter();
        self.open.push(en);
        Obs::Unit
      }
      Op::Exit(k, id) => {
        let en = self.open.pop().unwrap();
        let ex = p.exit(en, k);
        self.exits.insert(id, ex);
        Obs::Bool(ex.is_empty())
      }
      Op::Abandon => {
        let en = self.open.pop().unwrap();
        p.abandon(en);
        Obs::Unit
      }
      Op::Precede(id) => {
        let en = p.precede(self.exits[&id]);
        self.open.push(en);
        Obs::Unit
      }
      Op::IsEmpty(id) => Obs::Bool(self.exits[&id].is_empty()),
    }
  }
}

// ---------------------------------------------------------------------------------------------
// The sink

#[derive(Debug, Clone, PartialEq, Eq)]
enum Call {
  Enter(K),
  Token(K, String),
  Exit,
  Error(E),
}

struct Log {
  calls: Vec<Call>,
  panic_at: Option<usize>,
  rowan: Option<RowanSink<K, E>>,
}

impl Log {
  fn new(rowan: bool) -> Self {
    Log { calls: Vec::new(), panic_at: None, rowan: rowan.then(RowanSink::default) }
  }

  fn got(&mut self, c: Call) {
    if self.panic_at == Some(self.calls.len()) {
      vsim::fault("sink panicked");
      std::panic::panic_any(vsim::Injected(2));
    }
    if self.calls.len() > 1_000_000 {
      vsim::violate("E02/flood", "the sink got more than 1000000 calls".to_owned());
    }
    self.calls.push(c);
  }
}

impl Sink<K, E> for Log {
  fn enter(&mut self, kind: K) {
    self.got(Call::Enter(kind));
    if let Some(r) = self.rowan.as_mut() {
      r.enter(kind);
    }
  }
  fn token(&mut self, token: Token<'_, K>) {
    self.got(Call::Token(token.kind, token.text.to_owned()));
    if let Some(r) = self.rowan.as_mut() {
      r.token(token);
    }
  }
  fn exit(&mut self) {
    self.got(Call::Exit);
    if let Some(r) = self.rowan.as_mut() {
      r.exit();
    }
  }
  fn error(&mut self, error: E) {
    self.got(Call::Error(error));
    if let Some(r) = self.rowan.as_mut() {
      r.error(error);
    }
  }
}

// ---------------------------------------------------------------------------------------------
// The model

#[derive(Debug, Clone)]
enum Item {
  /// Index among the non-trivia tokens.
  Tok(usize),
  Node(u32, K, Vec<Item>),
}

impl Item {
  fn is_empty(&self) -> bool {
    match self {
      Item::Tok(_) => false,
      Item::Node(_, _, items) => items.iter().all(Item::is_empty),
    }
  }
}

#[derive(Debug, Clone, Default)]
struct Frame {
  items: Vec<Item>,
  preceded: Option<u32>,
}

#[derive(Debug, Clone)]
struct Model {
  /// Consumed non-trivia tokens.
  pos: usize,
  frames: Vec<Frame>,
  /// Errors and how many tokens were consumed before each.
  errors: Vec<(E, usize)>,
}

struct World<'a> {
  /// The non-trivia tokens.
  solid: Vec<(K, &'a str)>,
  m: Model,
  /// What was done that still counts, with what was observed.
  kept: Vec<(Op, Obs)>,
  next_exit: u32,
  next_kind: u16,
  next_error: u32,
  budget: usize,
  /// Countdown to a panic of the grammar code.
  panic_in: Option<usize>,
  failed_attempts: u32,
  /// Much is done in this session.
  big: bool,
  other: Option<Other<'a>>,
}

impl World<'_> {
  fn expect(&self, op: Op) -> Obs {
    let at = |n: usize| self.solid.get(self.m.pos + n).map(|&(k, t)| (k, t.to_owned()));
    match op {
      Op::Peek | Op::Bump => Obs::Tok(at(0)),
      Op::PeekN(n) => Obs::Tok(at(n)),
      Op::At(k) => Obs::Bool(at(0).is_some_and(|x| x.0 == k)),
      Op::AtN(n, k) => Obs::Bool(at(n).is_some_and(|x| x.0 == k)),
      Op::Eat(k) => Obs::Tok(at(0).filter(|x| x.0 == k)),
      Op::Exit(..) => Obs::Bool(self.m.frames.last().unwrap().items.iter().all(Item::is_empty)),
      Op::IsEmpty(id) => Obs::Bool(
        self
          .m
          .frames
          .iter()
          .flat_map(|f| &f.items)
          .find_map(|i| match i {
            Item::Node(x, _, _) if *x == id => Some(i.is_empty()),
            _ => None,
          })
          .unwrap(),
      ),
      Op::Error(_) | Op::Enter | Op::Abandon | Op::Precede(_) => Obs::Unit,
    }
  }

  fn advance(&mut self, op: Op) {
    let ate = match op {
      Op::Bump => true,
      Op::Eat(k) => self.solid.get(self.m.pos).is_some_and(|x| x.0 == k),
      _ => false,
    };
    let m = &mut self.m;
    match op {
      Op::Bump | Op::Eat(_) if ate => {
        m.frames.last_mut().unwrap().items.push(Item::Tok(m.pos));
        m.pos += 1;
      }
      Op::Eat(k) => m.errors.push((E::Expected(k), m.pos)),
      Op::Error(n) => m.errors.push((E::Own(n), m.pos)),
      Op::Enter => m.frames.push(Frame::default()),
      Op::Exit(k, id) => {
        let f = m.frames.pop().unwrap();
        m.frames.last_mut().unwrap().items.push(Item::Node(id, k, f.items));
      }
      Op::Abandon => {
        let f = m.frames.pop().unwrap();
        m.frames.last_mut().unwrap().items.extend(f.items);
      }
      Op::Precede(id) => {
        let top = m.frames.last_mut().unwrap();
        let at = top.items.iter().position(|i| matches!(i, Item::Node(x, _, _) if *x == id)).unwrap();
        let items = top.items.split_off(at);
        m.frames.push(Frame { items, preceded: Some(id) });
      }
      _ => {}
    }
  }

  /// Completed constructs that may be re-parented now, made at or after `from`.
  fn candidates(&self, from: u32) -> Vec<u32> {
    let top = self.m.frames.last().unwrap();
    top
      .items
      .iter()
      .filter_map(|i| match i {
        Item::Node(id, _, _) if *id >= from && top.preceded != Some(*id) => Some(*id),
        _ => None,
      })
      .collect()
  }
}

/// How far to look ahead.
fn ahead(w: &World<'_>) -> usize {
  if vsim::chance(1, 16) {
    vsim::probe("far look ahead");
    vsim::choose(w.solid.len() - w.m.pos + 3)
  } else {
    vsim::choose(5)
  }
}

fn kind_near(w: &World<'_>, n: usize) -> K {
  // likely the kind that is there
  match w.solid.get(w.m.pos + n) {
    Some(&(k, _)) if vsim::chance(2, 3) => k,
    _ => K(vsim::choose(usize::from(TRIVIA + TOKENS)) as u16),
  }
}

/// Performs one operation on the real session and the model.
fn step(prop: &str, s: &mut Sess<'_>, w: &mut World<'_>, op: Op) {
  if let Some(n) = w.panic_in.as_mut() {
    if *n == 0 {
      vsim::fault("grammar code panicked");
      if s.open.len() > 1 {
        vsim::probe("panic with several constructs open");
      }
      std::panic::panic_any(vsim::Injected(1));
    }
    *n -= 1;
  }
  if let Some(o) = w.other.as_mut() {
    if vsim::chance(1, 3) {
      o.step();
    }
  }
  let want = w.expect(op);
  let obs = s.apply(op);
  ev!("{op:?} -> {obs:?}");
  if prop == "E02" {
    match op {
      Op::Exit(..) | Op::IsEmpty(_) => {
        check!(obs == want, "E02/is-empty", "{op:?}: reported empty = {obs:?}, expected {want:?}");
      }
      Op::Bump | Op::Eat(_) => {
        check!(obs == want, "E02/consumed", "{op:?}: consumed {obs:?}, expected {want:?}");
      }
      _ => check!(obs == want, "E02/lookahead", "{op:?}: saw {obs:?}, expected {want:?}"),
    }
  }
  match op {
    Op::Abandon => {
      vsim::fault("construct abandoned");
      if w.m.frames.last().unwrap().preceded.is_some() {
        vsim::probe("re-parenting abandoned");
      }
    }
    Op::Error(_) => vsim::fault("error recorded"),
    Op::Eat(_) if obs == Obs::Tok(None) => vsim::fault("expected token missing"),
    _ => {}
  }
  w.advance(op);
  w.kept.push((op, obs));
}

/// Performs drawn operations on constructs opened at depth `base` or deeper and completed at or
/// after `from`, and closes what it opened.
fn body(prop: &str, s: &mut Sess<'_>, w: &mut World<'_>, base: usize, from: u32, attempts: usize, calm: bool) {
  let n = match vsim::weighted(if attempts == 0 && !calm { &[1, 3, 4] } else { &[4, 3, 2] }) {
    0 => vsim::range(0, 4),
    1 => vsim::range(3, 12),
    _ if w.big => vsim::range(10, 1200),
    _ => vsim::range(10, 40),
  };
  for _ in 0..n {
    if w.budget == 0 {
      break;
    }
    w.budget -= 1;
    vsim::span(|| one(prop, s, w, base, from, attempts, calm));
  }
  while w.m.frames.len() > base {
    if vsim::chance(1, 4) {
      step(prop, s, w, Op::Abandon);
    } else {
      exit(prop, s, w);
    }
  }
}

fn exit(prop: &str, s: &mut Sess<'_>, w: &mut World<'_>) {
  let k = K(w.next_kind);
  w.next_kind += 1;
  let id = w.next_exit;
  w.next_exit += 1;
  step(prop, s, w, Op::Exit(k, id));
}

fn one(prop: &str, s: &mut Sess<'_>, w: &mut World<'_>, base: usize, from: u32, attempts: usize, calm: bool) {
  // `calm`: no errors of its own, so that attempts can succeed
  let err = u64::from(!calm);
  match vsim::weighted(&[8, 6, 6, 2, 5, 2, err, 3, 1, 1, 1, 1, 2, if attempts < 4 { 3 } else { 0 }, u64::from(w.big)]) {
    0 => {
      if w.m.pos < w.solid.len() {
        step(prop, s, w, Op::Bump);
      } else {
        step(prop, s, w, Op::Peek);
      }
    }
    1 => step(prop, s, w, Op::Enter),
    2 => {
      if w.m.frames.len() > base {
        exit(prop, s, w);
      }
    }
    3 => {
      if w.m.frames.len() > base {
        step(prop, s, w, Op::Abandon);
      }
    }
    4 => {
      let c = w.candidates(from);
      if !c.is_empty() {
        let i = if vsim::chance(1, 4) { vsim::choose(c.len()) } else { c.len() - 1 };
        if i + 1 < c.len() {
          vsim::probe("older construct re-parented");
        }
        step(prop, s, w, Op::Precede(c[i]));
      }
    }
    5 => {
      let k = if calm { w.solid.get(w.m.pos).map(|x| x.0) } else { Some(kind_near(w, 0)) };
      if let Some(k) = k {
        step(prop, s, w, Op::Eat(k));
      }
    }
    6 => {
      let n = w.next_error;
      w.next_error += 1;
      step(prop, s, w, Op::Error(n));
    }
    7 => step(prop, s, w, Op::Peek),
    8 => {
      let n = ahead(w);
      step(prop, s, w, Op::PeekN(n));
    }
    9 => {
      let k = kind_near(w, 0);
      step(prop, s, w, Op::At(k));
    }
    10 => {
      let n = ahead(w);
      let k = kind_near(w, n);
      step(prop, s, w, Op::AtN(n, k));
    }
    11 => {
      let c = w.candidates(0);
      if !c.is_empty() {
        step(prop, s, w, Op::IsEmpty(vsim::pick(&c)));
      }
    }
    12 => {
      // a chain: abandoned re-parenting, then a real one
      let c = w.candidates(from);
      if let Some(&id) = c.last() {
        for _ in 0..=vsim::choose(2) {
          step(prop, s, w, Op::Precede(id));
          if vsim::chance(1, 2) && w.m.pos < w.solid.len() {
            step(prop, s, w, Op::Bump);
          }
          step(prop, s, w, Op::Abandon);
        }
        step(prop, s, w, Op::Precede(id));
        exit(prop, s, w);
      }
    }
    13 => attempt(prop, s, w, attempts + 1),
    _ => {
      // a long chain of operators, or a deep nest
      let n = vsim::range(2, 400);
      let chain = vsim::chance(1, 2);
      vsim::probe("long chain or deep nest");
      if chain {
        let Some(&id) = w.candidates(from).last() else { return };
        let mut id = id;
        for _ in 0..n {
          step(prop, s, w, Op::Precede(id));
          if w.m.pos < w.solid.len() {
            step(prop, s, w, Op::Bump);
          }
          id = w.next_exit;
          exit(prop, s, w);
        }
      } else {
        for _ in 0..n {
          step(prop, s, w, Op::Enter);
        }
        if w.m.pos < w.solid.len() {
          step(prop, s, w, Op::Bump);
        }
        for _ in 0..n {
          exit(prop, s, w);
        }
      }
    }
  }
}

fn attempt(prop: &str, s: &mut Sess<'_>, w: &mut World<'_>, depth: usize) {
  speculate(prop, s, w, depth, |s, w| {
    let (base, from) = (w.m.frames.len(), w.next_exit);
    body(prop, s, w, base, from, depth, vsim::chance(2, 5));
  });
}

/// Runs `f` between a save and the judgement of the attempt, which it returns.
fn speculate<'a, 'b>(
  prop: &str,
  s: &mut Sess<'a>,
  w: &mut World<'b>,
  depth: usize,
  f: impl FnOnce(&mut Sess<'a>, &mut World<'b>),
) -> bool {
  let before = w.m.clone();
  let kept = w.kept.len();
  ev!("attempt {depth}");
  let save = s.p.save();
  let from = w.next_exit;
  f(s, w);
  let ok = s.p.ok_since(save);
  let want = w.m.errors.len() == before.errors.len();
  ev!("attempt {depth} ok = {ok}");
  check!(
    ok == want,
    &format!("{prop}/verdict"),
    "the attempt was judged ok = {ok}, but {} errors remain in it",
    w.m.errors.len() - before.errors.len()
  );
  if ok {
    vsim::probe("attempt kept");
  } else {
    vsim::fault("attempt rolled back");
    w.failed_attempts += 1;
    if depth > 1 {
      vsim::probe("attempt inside an attempt rolled back");
    }
    if w.m.pos > before.pos {
      vsim::probe("attempt that consumed rolled back");
    }
    w.m = before;
    w.kept.truncate(kept);
    s.exits.retain(|&id, _| id < from);
  }
  // what can be seen right after
  if vsim::chance(1, 2) {
    step(prop, s, w, Op::Peek);
  }
  ok
}

fn gen_tokens(big: bool) -> Vec<(K, String)> {
  if big && vsim::chance(1, 16) {
    return (0..65_660_u32).map(|i| (K(if i % 700 == 3 { 0 } else { TRIVIA + (i % u32::from(TOKENS)) as u16 }), format!("{}", i % 10))).map(|(k, t)| (k, if k.is_trivia() { " ".into() } else { t })).collect();
  }
  let n = if big { vsim::range(200, 3000) } else { match vsim::weighted(&[2, 4, 2]) {
    0 => vsim::range(0, 3),
    1 => vsim::range(2, 12),
    _ => vsim::range(8, 40),
  } };
  let triv = vsim::range(0, 3);
  // here and there much trivia in a row, and long texts
  let runs = vsim::chance(1, 60);
  let long = vsim::chance(1, 400);
  let mut toks = Vec::new();
  for _ in 0..n {
    let burst = if runs && vsim::chance(1, 8) { vsim::range(10, 300) } else { 0 };
    for _ in 0..burst {
      vsim::probe("much trivia in a row");
      let seen = toks.len();
      toks.push((K(vsim::choose(usize::from(TRIVIA)) as u16), format!("{}{seen}", [" ", "\n"][seen % 2])));
    }
    let seen = toks.len();
    let (k, t) = if vsim::chance(triv, 4) {
      let k = vsim::choose(usize::from(TRIVIA)) as u16;
      (k, format!("{}{seen}", [" ", "\n", "#\u{e9}"][usize::from(k)]))
    } else {
      let k = TRIVIA + vsim::choose(usize::from(TOKENS)) as u16;
      // now and then a token without text, as an interpolating lexer may make
      let t = if vsim::chance(1, 12) {
        String::new()
      } else {
        format!("{}{seen}", ["a", "\u{3b2}\u{3b3}", "+", "let", "\u{1f600}"][usize::from(k - TRIVIA)])
      };
      (k, t)
    };
    let t = if long && vsim::chance(1, 4) {
      vsim::probe("long token");
      t + &"\u{b5}".repeat(vsim::range(100, 40_000) as usize)
    } else {
      t
    };
    toks.push((K(k), t));
  }
  toks
}

/// Another parse under way in the same thread; nothing it does may matter to the one that is judged.
struct Other<'a> {
  p: Parser<'a, K, E>,
  open: Vec<Entered>,
  save: Option<(event_parse::Save, usize)>,
}

impl Other<'_> {
  fn step(&mut self) {
    vsim::probe("step of another parse");
    match vsim::choose(7) {
      0 => {
        let e = self.p.enter();
        self.open.push(e);
      }
      1 if self.save.as_ref().is_none_or(|s| self.open.len() > s.1) => {
        if let Some(e) = self.open.pop() {
          self.p.exit(e, K(NODE));
        }
      }
      2 => {
        if self.p.peek().is_some() {
          self.p.bump();
        }
      }
      3 => self.p.error(E::Own(0)),
      4 => {
        self.p.eat(K(TRIVIA));
      }
      5 => match self.save.take() {
        None => self.save = Some((self.p.save(), self.open.len())),
        Some((s, n)) => {
          // what was opened in an attempt is closed in it
          while self.open.len() > n {
            let e = self.open.pop().unwrap();
            self.p.abandon(e);
          }
          self.p.ok_since(s);
        }
      },
      _ => {
        self.p.peek_n(3);
      }
    }
  }
}

impl Drop for Other<'_> {
  fn drop(&mut self) {
    while let Some(e) = self.open.pop() {
      self.p.abandon(e);
    }
  }
}

fn session(prop: &str, s: &mut Sess<'_>, w: &mut World<'_>) {
  if vsim::chance(1, 6) {
    step(prop, s, w, Op::Peek);
  }
  beside(prop, s, w);
  // the whole input may be tried as one thing, and then as another
  for _ in 0..vsim::weighted(&[7, 2, 1]) {
    if vsim::span(|| {
      let calm = vsim::chance(1, 2);
      speculate(prop, s, w, 1, |s, w| root(prop, s, w, calm))
    }) {
      beside(prop, s, w);
      return;
    }
    vsim::probe("first attempt at the whole input rolled back");
    beside(prop, s, w);
  }
  root(prop, s, w, false);
  beside(prop, s, w);
}

/// What may happen before or after the outermost construct: nothing that keeps tokens or constructs.
fn beside(prop: &str, s: &mut Sess<'_>, w: &mut World<'_>) {
  if !vsim::chance(1, 8) {
    return;
  }
  vsim::probe("work outside of the outermost construct");
  for _ in 0..vsim::range(1, 3) {
    match vsim::choose(5) {
      0 => {
        let n = w.next_error;
        w.next_error += 1;
        step(prop, s, w, Op::Error(n));
      }
      1 => {
        step(prop, s, w, Op::Enter);
        step(prop, s, w, Op::Abandon);
      }
      2 => {
        if let Some(&id) = w.candidates(0).last() {
          step(prop, s, w, Op::Precede(id));
          step(prop, s, w, Op::Abandon);
        }
      }
      3 => {
        let n = ahead(w);
        step(prop, s, w, Op::PeekN(n));
      }
      _ => {
        // an attempt that comes to nothing
        speculate(prop, s, w, 1, |s, w| {
          let base = w.m.frames.len();
          match w.candidates(0).last() {
            Some(&id) if vsim::chance(1, 2) => {
              // the construct was there before, so this is taken back before the judgement
              step(prop, s, w, Op::Precede(id));
              step(prop, s, w, Op::Abandon);
            }
            _ => body(prop, s, w, base, w.next_exit, 2, false),
          }
          let n = w.next_error;
          w.next_error += 1;
          step(prop, s, w, Op::Error(n));
        });
      }
    }
  }
}

/// The outermost construct.
fn root(prop: &str, s: &mut Sess<'_>, w: &mut World<'_>, calm: bool) {
  step(prop, s, w, Op::Enter);
  let from = w.next_exit;
  if w.big && w.solid.len() > 260 {
    // so many tokens in one construct that a narrow counter comes round
    let n = if w.solid.len() > 65_540 { 65_535 + vsim::choose(4) } else { 254 + vsim::choose(4) };
    if n > 65_000 {
      vsim::probe("construct of over 65000 tokens");
    }
    if vsim::chance(1, 2) {
      step(prop, s, w, Op::Bump);
    }
    step(prop, s, w, Op::Enter);
    for _ in 0..n {
      if w.m.pos < w.solid.len() {
        step(prop, s, w, Op::Bump);
      }
    }
    exit(prop, s, w);
    step(prop, s, w, Op::Precede(w.next_exit - 1));
    exit(prop, s, w);
  }
  body(prop, s, w, 2, from, 0, calm);
  exit(prop, s, w);
  // it may come to be by re-parenting
  for _ in 0..vsim::weighted(&[6, 2, 1]) {
    let id = w.next_exit - 1;
    if vsim::chance(1, 3) {
      step(prop, s, w, Op::Precede(id));
      step(prop, s, w, Op::Abandon);
    }
    step(prop, s, w, Op::Precede(id));
    body(prop, s, w, 2, w.next_exit, 0, true);
    exit(prop, s, w);
  }
}

fn flat(toks: &[(K, String)], items: &[Item], solid: &[usize], out: &mut Vec<Call>) {
  for i in items {
    match i {
      Item::Tok(n) => {
        let (k, t) = &toks[solid[*n]];
        out.push(Call::Token(*k, t.clone()));
      }
      Item::Node(_, k, items) => {
        if !i.is_empty() {
          out.push(Call::Enter(*k));
          flat(toks, items, solid, out);
          out.push(Call::Exit);
        }
      }
    }
  }
}

/// Judges the sink's log against the model.
fn judge(toks: &[(K, String)], w: &World<'_>, calls: &[Call]) {
  let solid: Vec<usize> = toks.iter().enumerate().filter(|(_, t)| !t.0.is_trivia()).map(|x| x.0).collect();
  let root = &w.m.frames[0].items;
  let Item::Node(_, root_kind, _) = &root[0] else { unreachable!() };
  // balanced, one root
  let mut depth = 0usize;
  for (i, c) in calls.iter().enumerate() {
    match c {
      Call::Enter(_) => {
        check!(depth > 0 || !calls[..i].iter().any(|c| matches!(c, Call::Exit)), "E02/balance", "a second root at call {i}");
        depth += 1;
      }
      Call::Exit => {
        check!(depth > 0, "E02/balance", "exit without enter at call {i}");
        depth -= 1;
      }
      Call::Token(..) => check!(depth > 0, "E02/balance", "token outside of the root at call {i}"),
      Call::Error(_) => {}
    }
  }
  check!(depth == 0, "E02/balance", "{depth} constructs were never exited");
  // all tokens: what was consumed, the trivia before it and just after it
  let mut end = if w.m.pos == 0 { 0 } else { solid[w.m.pos - 1] + 1 };
  while end < toks.len() && toks[end].0.is_trivia() {
    end += 1;
  }
  let got: Vec<(K, String)> = calls
    .iter()
    .filter_map(|c| match c {
      Call::Token(k, t) => Some((*k, t.clone())),
      _ => None,
    })
    .collect();
  check!(got == toks[..end], "E02/tokens", "delivered tokens {got:?}, expected {:?}", &toks[..end]);
  // the tree of non-empty constructs
  let mut want = Vec::new();
  flat(toks, root, &solid, &mut want);
  if want.is_empty() {
    want = vec![Call::Enter(*root_kind), Call::Exit];
    vsim::probe("nothing consumed");
  }
  let tree: Vec<Call> = calls
    .iter()
    .filter(|c| match c {
      Call::Error(_) => false,
      Call::Token(k, _) => !k.is_trivia(),
      _ => true,
    })
    .cloned()
    .collect();
  check!(tree == want, "E02/tree", "delivered {tree:?}, expected {want:?}");
  // no trivia at the edges
  let plain: Vec<&Call> = calls.iter().filter(|c| !matches!(c, Call::Error(_))).collect();
  let mut depth = 0;
  let triv = |c: Option<&&Call>| matches!(c, Some(Call::Token(k, _)) if k.is_trivia());
  for (i, c) in plain.iter().enumerate() {
    match c {
      Call::Enter(k) => {
        depth += 1;
        check!(depth == 1 || !triv(plain.get(i + 1)), "E02/edge", "construct {k:?} begins with trivia");
      }
      Call::Exit => {
        check!(depth == 1 || !triv(i.checked_sub(1).and_then(|i| plain.get(i))), "E02/edge", "a construct ends with trivia");
        depth -= 1;
      }
      _ => {}
    }
  }
  // errors
  let mut n = 0;
  let mut errors = Vec::new();
  for c in calls {
    match c {
      Call::Token(k, _) if !k.is_trivia() => n += 1,
      Call::Error(e) => errors.push((*e, n)),
      _ => {}
    }
  }
  check!(errors == w.m.errors, "E02/errors", "delivered errors {errors:?}, expected {:?}", w.m.errors);
}

fn judge_rowan(calls: &[Call], w: &World<'_>, sink: RowanSink<K, E>) {
  let (root, errors) = vsim::no_panic("E02/rowan", "finishing the rowan sink", || sink.finish::<Lang>());
  // the tree says what the log says
  let mut got = Vec::new();
  for e in root.preorder_with_tokens() {
    match e {
      rowan::WalkEvent::Enter(rowan::NodeOrToken::Node(n)) => got.push(Call::Enter(n.kind())),
      rowan::WalkEvent::Enter(rowan::NodeOrToken::Token(t)) => got.push(Call::Token(t.kind(), t.text().to_owned())),
      rowan::WalkEvent::Leave(rowan::NodeOrToken::Node(_)) => got.push(Call::Exit),
      rowan::WalkEvent::Leave(_) => {}
    }
  }
  let want: Vec<Call> = calls.iter().filter(|c| !matches!(c, Call::Error(_))).cloned().collect();
  check!(got == want, "E02/rowan-tree", "the rowan tree is {got:?}, expected {want:?}");
  // an error is ranged at the token consumed next, or at the last one delivered
  let mut at = 0usize;
  let mut all = Vec::new();
  for c in &want {
    if let Call::Token(k, t) = c {
      all.push((*k, at, at + t.len()));
      at += t.len();
    }
  }
  let solid: Vec<_> = all.iter().filter(|x| !x.0.is_trivia()).copied().collect();
  let want: Vec<_> = w
    .m
    .errors
    .iter()
    .map(|&(e, n)| match solid.get(n).or(all.last()) {
      Some(&(k, s, t)) => (e, Some(k), s, t),
      None => (e, None, 0, 0),
    })
    .collect();
  let got: Vec<_> = errors
    .iter()
    .map(|e| (e.inner, e.kind, usize::from(e.range.start()), usize::from(e.range.end())))
    .collect();
  check!(got == want, "E02/error-range", "errors at {got:?}, expected {want:?}");
}

fn run(prop: &'static str) {
  let big = vsim::chance(1, 3000);
  if big {
    vsim::probe("large session");
  }
  let toks = gen_tokens(big);
  let views: Vec<Token<'_, K>> = toks.iter().map(|(k, t)| Token { kind: *k, text: t }).collect();
  ev!("tokens {toks:?}");
  let mut w = World {
    solid: toks.iter().filter(|t| !t.0.is_trivia()).map(|(k, t)| (*k, t.as_str())).collect(),
    m: Model { pos: 0, frames: vec![Frame::default()], errors: Vec::new() },
    kept: Vec::new(),
    next_exit: 0,
    next_kind: NODE,
    next_error: 0,
    budget: if big { 4000 } else { 160 },
    panic_in: (prop == "E02" && vsim::chance(1, 6)).then(|| vsim::choose(if big { 2000 } else { 40 })),
    failed_attempts: 0,
    big,
    other: vsim::chance(1, 24).then(|| Other { p: Parser::new(&views), open: Vec::new(), save: None }),
  };
  let cls = format!("{prop}/panic");
  // the session lives inside of the closure, so that its open constructs are dropped by unwinding
  let res = vsim::catch(|| {
    let mut s = Sess::new(&views);
    session(prop, &mut s, &mut w);
    s
  });
  let s = match res {
    vsim::Caught::Ok(s) => s,
    vsim::Caught::Injected(n) => {
      check!(n == 1 && w.panic_in == Some(0), "E02/panic", "injected panic {n} out of place");
      return;
    }
    vsim::Caught::Panic(m) => vsim::violate(&cls, format!("panicked: {m}")),
  };
  check!(w.panic_in != Some(0) || prop == "E01" || vsim::active(), "E02/panic", "the panic was swallowed");
  let mut log = Log::new(prop == "E02");
  let p = s.p;
  vsim::no_panic(&cls, "finish", || p.finish(&mut log));
  ev!("{:?}", log.calls);
  vsim::state(vsim::hash_debug(&log.calls));
  if prop == "E02" {
    let sink = log.rowan.take().unwrap();
    judge(&toks, &w, &log.calls);
    judge_rowan(&log.calls, &w, sink);
  }
  // once more, without what failed
  let replay = |log: &mut Log, panic_at: Option<usize>| {
    let mut t = Sess::new(&views);
    for (i, (op, want)) in w.kept.iter().enumerate() {
      let got = vsim::no_panic(&cls, "without the failed attempts", || t.apply(*op));
      if prop == "E01" {
        check!(
          got == *want,
          "E01/trace",
          "kept step {i}, {op:?}: observed {want:?} after failed attempts, but {got:?} without them"
        );
      }
    }
    log.panic_at = panic_at;
    let p = t.p;
    vsim::catch(|| p.finish(log))
  };
  if prop == "E01" {
    if w.failed_attempts > 0 {
      vsim::probe("compared with failed attempts");
    }
    let mut other = Log::new(false);
    match replay(&mut other, None) {
      vsim::Caught::Ok(()) => {}
      vsim::Caught::Injected(_) => unreachable!(),
      vsim::Caught::Panic(m) => vsim::violate(&cls, format!("finish: panicked: {m}")),
    }
    check!(
      log.calls == other.calls,
      "E01/result",
      "delivered {:?} after failed attempts, but {:?} without them",
      log.calls,
      other.calls
    );
  } else if vsim::chance(1, 6) {
    let at = vsim::choose(log.calls.len().max(1));
    let mut other = Log::new(false);
    match replay(&mut other, Some(at)) {
      vsim::Caught::Injected(2) => {
        check!(other.calls == log.calls[..at], "E02/sink-panic", "a panicking sink was called differently");
      }
      vsim::Caught::Panic(m) => vsim::violate(&cls, format!("finish: panicked: {m}")),
      _ => vsim::violate("E02/sink-panic", "the panic of the sink was swallowed".to_owned()),
    }
  }
}

fn e01() {
  run("E01");
}

fn e02() {
  run("E02");
}

fn main() {
  let stub: &[&str] = &["the grammar (simulated driver)", "the lexer (drawn tokens)", "the sink (recorder)"];
  vsim::cli::main(&[
    vsim::cli::Prop {
      id: "E01",
      run: e01,
      quick: 3_000_000,
      thorough_factor: 40,
      rule: "each case is one parse of up to 40 tokens by a drawn history of up to 160 steps with attempts nested up to 4 deep, repeated without the failed attempts; non-trivial: an error, abandoned construct or rolled-back attempt; distinct: by event-log hash",
      state_measure: "distinct sink logs",
      real: &["event_parse::Parser"],
      stub,
      faults: &["attempt rolled back", "construct abandoned", "error recorded", "expected token missing"],
      probes: &["large session", "much trivia in a row", "long token", "far look ahead", "step of another parse", "long chain or deep nest", 
        "attempt kept",
        "attempt inside an attempt rolled back",
        "attempt that consumed rolled back",
        "compared with failed attempts",
        "first attempt at the whole input rolled back",
        "older construct re-parented",
      ],
      init: || {},
    },
    vsim::cli::Prop {
      id: "E02",
      run: e02,
      quick: 3_000_000,
      thorough_factor: 40,
      rule: "each case is one parse of up to 40 tokens by a drawn history of up to 160 steps, with errors, abandoned and re-parented constructs, rollbacks and panics of grammar and sink; non-trivial: any of these; distinct: by event-log hash",
      state_measure: "distinct sink logs",
      real: &["event_parse::Parser", "event_parse::rowan_sink::RowanSink", "rowan"],
      stub,
      faults: &["attempt rolled back", "construct abandoned", "error recorded", "expected token missing", "grammar code panicked", "sink panicked"],
      probes: &["large session", "much trivia in a row", "long token", "far look ahead", "step of another parse", "long chain or deep nest", "re-parenting abandoned", "panic with several constructs open", "nothing consumed", "older construct re-parented"],
      init: || {},
    },
  ])
}

//! Simulation of P01 (right verdicts) and P02 (language errors).
//!
//! The real checker runs against a simulated language whose answers vary as the `Lang` trait allows
//! (order of constructors, listing or grouping them, per call) and whose calls fail at any point.
//! The reference matches every value of the type against the patterns, first match first.

use pattern_match::{CheckError, ConPat, Lang, Pat, RawPat};
use std::collections::BTreeSet;
use vsim::{Caught, check, ev};

// --- the language ----------------------------------------------------------------------------

#[derive(Clone, Debug, PartialEq)]
enum Ty {
  Void,
  Unit,
  Bool,
  Tri,
  Int,
  Opt(Box<Ty>),
  Pair(Box<Ty>, Box<Ty>),
  /// A(x) | B(y) | C(x, y)
  Sum(Box<Ty>, Box<Ty>),
  Bools,
  /// so many constructors without arguments
  Wide(u16),
  /// so many arguments, the first of them a Bool and the rest Units
  Tuple(u16),
}

#[derive(Clone, Debug, PartialEq)]
enum Con {
  Any,
  K(u16),
  I(u32),
}

impl Ty {
  fn cons(&self) -> Vec<Con> {
    let n = match self {
      Ty::Void | Ty::Int => 0,
      Ty::Unit | Ty::Pair(..) => 1,
      Ty::Bool | Ty::Opt(_) | Ty::Bools => 2,
      Ty::Tri | Ty::Sum(..) => 3,
      Ty::Wide(n) => *n,
      Ty::Tuple(_) => 1,
    };
    (0..n).map(Con::K).collect()
  }
  fn args(&self, con: &Con) -> Option<Vec<Ty>> {
    let some = |xs: &[&Ty]| Some(xs.iter().map(|&x| x.clone()).collect());
    match (self, con) {
      (_, Con::Any) | (Ty::Int, Con::I(_)) => Some(vec![]),
      (Ty::Unit | Ty::Opt(_) | Ty::Bools, Con::K(0)) | (Ty::Bool, Con::K(0 | 1)) | (Ty::Tri, Con::K(0..=2)) => Some(vec![]),
      (Ty::Opt(t), Con::K(1)) => some(&[t]),
      (Ty::Pair(a, b), Con::K(0)) | (Ty::Sum(a, b), Con::K(2)) => some(&[a, b]),
      (Ty::Sum(a, _), Con::K(0)) => some(&[a]),
      (Ty::Sum(_, b), Con::K(1)) => some(&[b]),
      (Ty::Wide(n), Con::K(k)) if k < n => Some(vec![]),
      (Ty::Tuple(n), Con::K(0)) => Some((0..*n).map(|i| if i == 0 { Ty::Bool } else { Ty::Unit }).collect()),
      (Ty::Bools, Con::K(1)) => Some(vec![Ty::Bool, Ty::Bools]),
      _ => None,
    }
  }
  fn inhabited(&self) -> bool {
    match self {
      Ty::Int => true,
      _ => self.cons().iter().any(|c| self.con_inhabited(c)),
    }
  }
  fn con_inhabited(&self, c: &Con) -> bool {
    if *self == Ty::Bools {
      return true;
    }
    self.args(c).is_some_and(|a| a.iter().all(Ty::inhabited))
  }
}

#[derive(Clone, Debug)]
struct Val(Con, Vec<Val>);

/// All values; lists up to a length beyond every pattern, integers up to one no pattern names.
fn values(t: &Ty, fuel: u32) -> Vec<Val> {
  if *t == Ty::Int {
    return (0..4).map(|i| Val(Con::I(i), vec![])).collect();
  }
  let mut r = Vec::new();
  for c in t.cons() {
    let args = t.args(&c).unwrap();
    if *t == Ty::Bools && c == Con::K(1) && fuel == 0 {
      continue;
    }
    let mut rows: Vec<Vec<Val>> = vec![vec![]];
    for a in &args {
      let f = if *t == Ty::Bools { fuel.saturating_sub(1) } else { fuel };
      let vs = values(a, f);
      rows = rows.iter().flat_map(|row| vs.iter().map(move |v| [row.clone(), vec![v.clone()]].concat())).collect();
    }
    r.extend(rows.into_iter().map(|row| Val(c.clone(), row)));
  }
  r
}

/// How many values there are.
fn count(t: &Ty) -> u64 {
  match t {
    Ty::Int => 4,
    Ty::Bools => 63,
    _ => t
      .cons()
      .iter()
      .map(|c| t.args(c).unwrap().iter().map(count).fold(1u64, u64::saturating_mul))
      .fold(0, u64::saturating_add),
  }
}

/// Which answers the language gives.
#[derive(Clone, Copy, Debug, Default)]
struct Style {
  shuffle: bool,
  /// of 256: group a column that needs no distinction
  group: u64,
  /// of 256: list the constructors present and let `Any` stand for the rest
  rest: u64,
}

#[derive(Default)]
struct Cx {
  style: Style,
  calls: u64,
  fail_at: Option<u64>,
  failed: Option<&'static str>,
  after_failure: u64,
  used_rest: bool,
  grouped: u64,
  /// a question that makes no sense
  bad_question: bool,
}

const ERRORS: [&str; 3] = ["the type was not resolved", "no such constructor", ""];

impl Cx {
  fn call(&mut self, what: &str) -> pattern_match::Result<()> {
    self.calls += 1;
    if self.failed.is_some() {
      self.after_failure += 1;
    }
    if self.fail_at.is_some_and(|n| self.calls >= n) && self.failed.is_none() {
      let e = vsim::pick(&ERRORS);
      self.failed = Some(e);
      vsim::fault(if what == "split" { "split failed" } else { "argument types failed" });
      return Err(CheckError(e));
    }
    Ok(())
  }
}

struct Sim;

impl Lang for Sim {
  type Cx = Cx;
  type PatIdx = u32;
  type Con = Con;
  type Ty = Ty;

  fn any() -> Con {
    Con::Any
  }

  fn split<'a, I>(cx: &mut Cx, ty: &Ty, con: &Con, cons: I, depth: usize) -> pattern_match::Result<Vec<Con>>
  where
    Con: 'a,
    I: Iterator<Item = &'a Con>,
  {
    cx.call("split")?;
    let mut present: Vec<Con> = Vec::new();
    for c in cons {
      if *c != Con::Any && !present.contains(c) {
        present.push(c.clone());
      }
    }
    if *con != Con::Any {
      if ty.args(con).is_none() {
        cx.bad_question = true;
        return Err(CheckError("constructor of another type"));
      }
      return Ok(vec![con.clone()]);
    }
    let mut all = ty.cons();
    // a list without distinctions must be grouped or there is no end
    let must = *ty == Ty::Bools && depth > 0;
    if *ty == Ty::Int {
      all = present;
      all.push(Con::Any);
      cx.used_rest = true;
    } else if present.is_empty() && ty.inhabited() && (must || (depth > 0 && vsim::chance(cx.style.group, 256))) {
      cx.grouped += 1;
      all = vec![Con::Any];
    } else if !present.is_empty() && vsim::chance(cx.style.rest, 256) {
      let rest = all.iter().any(|c| !present.contains(c) && ty.con_inhabited(c));
      all = present;
      if rest {
        cx.used_rest = true;
        all.push(Con::Any);
      }
    }
    if cx.style.shuffle {
      for i in (1..all.len()).rev() {
        let j = i - vsim::choose(i + 1);
        all.swap(i, j);
      }
    }
    Ok(all)
  }

  fn get_arg_tys(cx: &mut Cx, ty: &Ty, con: &Con) -> pattern_match::Result<Vec<Ty>> {
    cx.call("get_arg_tys")?;
    match ty.args(con) {
      Some(a) => Ok(a),
      None => {
        cx.bad_question = true;
        Err(CheckError("constructor of another type"))
      }
    }
  }

  fn covers(a: &Con, b: &Con) -> bool {
    *a == Con::Any || a == b
  }
}

// --- patterns --------------------------------------------------------------------------------

/// Stands for a pattern without an index.
const NO_IDX: u32 = u32::MAX;

/// A pattern as the user wrote it.
#[derive(Clone, Debug)]
enum P {
  Con(u32, Con, Vec<P>),
  Or(u32, Vec<P>),
}

impl P {
  fn real(&self) -> Pat<Sim> {
    match self {
      P::Con(NO_IDX, c, a) => {
        Pat { raw: RawPat::Con(ConPat { con: c.clone(), args: a.iter().map(P::real).collect() }), idx: None }
      }
      P::Or(NO_IDX, a) => Pat { raw: RawPat::Or(a.iter().map(P::real).collect()), idx: None },
      P::Con(i, c, a) if a.is_empty() => Pat::zero(c.clone(), *i),
      P::Con(i, c, a) => Pat::con(c.clone(), a.iter().map(P::real).collect(), *i),
      P::Or(i, a) => Pat::or(a.iter().map(P::real).collect(), *i),
    }
  }
  fn matches(&self, v: &Val) -> bool {
    match self {
      P::Con(_, Con::Any, _) => true,
      P::Con(_, c, a) => *c == v.0 && a.iter().zip(&v.1).all(|(p, v)| p.matches(v)),
      P::Or(_, a) => a.iter().any(|p| p.matches(v)),
    }
  }
  /// Takes note of what a matching value reaches.
  fn reach(&self, v: &Val, out: &mut BTreeSet<u32>) {
    match self {
      P::Con(i, c, a) => {
        out.insert(*i);
        if *c != Con::Any {
          for (p, v) in a.iter().zip(&v.1) {
            p.reach(v, out);
          }
        }
      }
      P::Or(i, a) => {
        out.insert(*i);
        if let Some(p) = a.iter().find(|p| p.matches(v)) {
          p.reach(v, out);
        }
      }
    }
  }
  fn all(&self, out: &mut BTreeSet<u32>) {
    match self {
      P::Con(i, _, a) | P::Or(i, a) => {
        out.insert(*i);
        a.iter().for_each(|p| p.all(out));
      }
    }
  }
  fn has_nothing(&self) -> bool {
    match self {
      P::Con(_, _, a) => a.iter().any(P::has_nothing),
      P::Or(_, a) => a.is_empty() || a.iter().any(P::has_nothing),
    }
  }
  fn show(&self) -> String {
    match self {
      P::Con(i, c, a) => {
        let head = match c {
          Con::Any => "_".to_owned(),
          Con::K(k) if *k < 26 => format!("{}", (b'A' + *k as u8) as char),
          Con::K(k) => format!("C{k}"),
          Con::I(n) => format!("{n}"),
        };
        let args: Vec<String> = a.iter().map(P::show).collect();
        if a.is_empty() { format!("{head}#{i}") } else { format!("{head}#{i}({})", args.join(", ")) }
      }
      P::Or(i, a) => format!("#{i}[{}]", a.iter().map(P::show).collect::<Vec<_>>().join(" | ")),
    }
  }
}

fn ty(fuel: u32, void: bool) -> Ty {
  match vsim::weighted(&[6, 4, 3, 1, if void { 1 } else { 0 }, if fuel > 0 { 4 } else { 0 }, if fuel > 0 { 6 } else { 0 }, if fuel > 0 { 5 } else { 0 }, 3]) {
    0 => Ty::Bool,
    1 => Ty::Tri,
    2 => Ty::Int,
    3 => Ty::Unit,
    4 => {
      if void {
        Ty::Void
      } else {
        Ty::Bool
      }
    }
    5 => Ty::Opt(Box::new(ty(fuel.saturating_sub(1), void))),
    6 => Ty::Pair(Box::new(ty(fuel.saturating_sub(1), void)), Box::new(ty(fuel.saturating_sub(1), void))),
    7 => Ty::Sum(Box::new(ty(fuel.saturating_sub(1), void)), Box::new(ty(fuel.saturating_sub(1), void))),
    _ => Ty::Bools,
  }
}

fn pat(t: &Ty, fuel: u32, next: &mut u32) -> P {
  // what is made from other code may have no index, or share one
  let i = match vsim::weighted(&[20, 1, 1]) {
    0 => *next,
    1 => NO_IDX,
    _ => vsim::range(0, u64::from(*next)) as u32,
  };
  *next += 1;
  match vsim::weighted(&[3, if fuel > 0 { 8 } else { 2 }, if fuel > 0 { 3 } else { 0 }]) {
    0 => P::Con(i, Con::Any, vec![]),
    2 if fuel > 0 => {
      let n = [2, 3, 1, 4, 0][vsim::weighted(&[8, 4, 1, 1, 1])];
      P::Or(i, (0..n).map(|_| pat(t, fuel - 1, next)).collect())
    }
    _ => {
      let c = match t {
        Ty::Int => Con::I(vsim::range(0, 2) as u32),
        Ty::Void => Con::Any,
        // patterns stay shorter than the longest list
        Ty::Bools if fuel == 0 => Con::K(0),
        _ => vsim::pick(&t.cons()),
      };
      let mut args: Vec<P> = t.args(&c).unwrap().iter().map(|a| pat(a, fuel.saturating_sub(1), next)).collect();
      if vsim::chance(1, 12) {
        // missing arguments stand for wildcards
        args.truncate(vsim::range(0, args.len() as u64) as usize);
      }
      P::Con(i, c, args)
    }
  }
}

/// Many constructors, arguments or alternatives, or much nesting.
fn large() -> (Ty, Vec<P>) {
  let mut next = 0;
  let mut leaf = move |c: Con, a: Vec<P>| {
    next += 1;
    P::Con(next - 1, c, a)
  };
  let mut or = 1_000_000;
  let mut pats = Vec::new();
  let t;
  match vsim::choose(4) {
    wide @ (0 | 1) => {
      let n = [vsim::range(20, 90), vsim::range(90, 140), vsim::range(240, 300)][vsim::weighted(&[6, 2, 1])] as u16;
      for _ in 0..vsim::range(1, 4) {
        let from = vsim::range(0, u64::from(n) - 1) as u16;
        let alts = vsim::range(1, u64::from(n) + 10) as u16;
        or += 1;
        let p = P::Or(or, (0..alts).map(|i| leaf(Con::K((from + i) % n), vec![])).collect());
        pats.push(if wide == 0 {
          p
        } else {
          let b = if vsim::chance(1, 2) { Con::Any } else { Con::K(vsim::choose(2) as u16) };
          let b = leaf(b, vec![]);
          leaf(Con::K(0), vec![b, p])
        });
      }
      t = if wide == 0 { Ty::Wide(n) } else { Ty::Pair(Box::new(Ty::Bool), Box::new(Ty::Wide(n))) };
    }
    2 => {
      let n = vsim::range(10, 300) as u16;
      t = Ty::Tuple(n);
      for _ in 0..vsim::range(1, 4) {
        let mut args = vec![leaf(if vsim::chance(1, 4) { Con::Any } else { Con::K(vsim::choose(2) as u16) }, vec![])];
        let every = vsim::range(1, 20) as u16;
        args.extend((1..n).map(|i| leaf(if i % every == 0 { Con::Any } else { Con::K(0) }, vec![])));
        if vsim::chance(1, 4) {
          args.truncate(vsim::range(0, u64::from(n)) as usize);
        }
        pats.push(leaf(Con::K(0), args));
      }
    }
    _ => {
      let n = vsim::range(10, 300);
      let mut opt = Ty::Bool;
      for _ in 0..n {
        opt = Ty::Opt(Box::new(opt));
      }
      t = opt;
      for _ in 0..vsim::range(1, 6) {
        // as deep as it goes, or not quite
        let k = if vsim::chance(1, 2) { vsim::range(0, n) } else { n };
        let c = if vsim::chance(1, 3) { Con::Any } else if k == n { Con::K(vsim::choose(2) as u16) } else { Con::K(0) };
        let mut p = leaf(c, vec![]);
        for _ in 0..k {
          p = leaf(Con::K(1), vec![p]);
        }
        pats.push(p);
      }
    }
  }
  if vsim::chance(1, 3) {
    pats.push(leaf(Con::Any, vec![]));
  }
  vsim::probe("large problem");
  (t, pats)
}

fn problem(void: bool) -> (Ty, Vec<P>, Vec<Val>) {
  if vsim::chance(1, 600) {
    let (t, pats) = large();
    let vs = values(&t, 5);
    return (t, pats, vs);
  }
  let mut fuel = vsim::range(0, 2) as u32;
  loop {
    let t = ty(fuel, void);
    if count(&t) <= 400 || fuel == 0 {
      let vs = values(&t, 5);
      let mut next = 0;
      let n = vsim::range(0, 6);
      let pats = (0..n).map(|_| vsim::span(|| pat(&t, 3, &mut next))).collect();
      return (t, pats, vs);
    }
    fuel -= 1;
  }
}

fn describe(w: &Pat<Sim>) -> P {
  match &w.raw {
    RawPat::Con(c) => P::Con(w.idx.unwrap_or(NO_IDX), c.con.clone(), c.args.iter().map(describe).collect()),
    RawPat::Or(a) => P::Or(w.idx.unwrap_or(NO_IDX), a.iter().map(describe).collect()),
  }
}

fn style() -> Style {
  Style { shuffle: vsim::chance(3, 4), group: vsim::pick(&[0, 256, 128]), rest: vsim::pick(&[0, 0, 256, 128]) }
}

type Outcome = pattern_match::Result<pattern_match::Check<Sim>>;

fn ask(class: &str, cx: &mut Cx, pats: &[P], t: &Ty) -> Outcome {
  cx.calls = 0;
  cx.failed = None;
  cx.after_failure = 0;
  cx.used_rest = false;
  cx.bad_question = false;
  let ps: Vec<Pat<Sim>> = pats.iter().map(P::real).collect();
  match vsim::catch(|| pattern_match::check::<Sim>(cx, ps, t.clone())) {
    Caught::Ok(r) => r,
    Caught::Injected(_) => unreachable!(),
    Caught::Panic(m) => vsim::violate(&format!("{class}/panic"), format!("the check panicked: {m}")),
  }
}

/// Compares a verdict with first-match matching of every value.
fn judge(class: &str, cx: &Cx, pats: &[P], vals: &[Val], r: &pattern_match::Check<Sim>) {
  let mut reached = BTreeSet::new();
  let mut unmatched = Vec::new();
  for v in vals {
    match pats.iter().find(|p| p.matches(v)) {
      Some(p) => p.reach(v, &mut reached),
      None => unmatched.push(v),
    }
  }
  let mut all = BTreeSet::new();
  pats.iter().for_each(|p| p.all(&mut all));
  all.remove(&NO_IDX);
  let want: BTreeSet<u32> = all.difference(&reached).copied().collect();
  let got: BTreeSet<u32> = r.unreachable.iter().copied().collect();
  ev!("unreachable {got:?}, missing {}", r.missing.len());
  if !want.is_empty() {
    vsim::probe("unreachable pattern");
  }
  if !unmatched.is_empty() {
    vsim::probe("missing pattern");
  }
  if cx.grouped > 0 {
    vsim::probe("grouped column");
  }
  check!(got == want, &format!("{class}/unreachable"), "unreachable are {want:?}, reported {got:?}");
  check!(
    r.missing.is_empty() == unmatched.is_empty(),
    &format!("{class}/missing"),
    "{} values are unmatched, {} missing patterns are reported", unmatched.len(), r.missing.len()
  );
  for w in &r.missing {
    let w = describe(w);
    let some = unmatched.iter().any(|v| w.matches(v));
    check!(some, &format!("{class}/witness"), "the missing pattern {} describes no unmatched value", w.show());
    if !cx.used_rest {
      let matched = vals.iter().find(|v| w.matches(v) && pats.iter().any(|p| p.matches(v)));
      check!(matched.is_none(), &format!("{class}/witness"), "the missing pattern {} describes {matched:?}, which is matched", w.show());
    }
  }
  vsim::state(vsim::hash_debug(&(pats.len(), vals.len(), want.len(), r.missing.len(), cx.calls.min(60))));
}

fn shown(pats: &[P]) -> String {
  pats.iter().map(P::show).collect::<Vec<_>>().join("; ")
}

fn p01() {
  let mut cx = Cx::default();
  for _ in 0..vsim::range(1, 3) {
    vsim::span(|| {
      let (t, pats, vals) = problem(true);
      ev!("match on {t:?}: {}", shown(&pats));
      for _ in 0..vsim::range(1, 2) {
        cx.style = style();
        ev!("{:?}", cx.style);
        if cx.style.shuffle {
          vsim::fault("constructors in another order");
        }
        let g = cx.grouped;
        match ask("P01", &mut cx, &pats, &t) {
          Ok(r) => judge("P01", &cx, &pats, &vals, &r),
          Err(e) => vsim::violate("P01/error", format!("the check failed with {:?}", e.0)),
        }
        if cx.grouped > g {
          vsim::fault("constructors grouped");
        }
        if cx.used_rest {
          vsim::fault("constructors listed in part");
        }
      }
    });
  }
}

/// Spoils one constructor pattern. Returns whether there was one.
fn spoil(p: &mut P, n: &mut usize, most: usize) -> bool {
  match p {
    P::Con(_, c, a) => {
      if *n == 0 {
        let k = u32::MAX - 1;
        if *c == Con::Any {
          a.push(P::Con(k, Con::Any, vec![]));
        } else {
          while a.len() <= most {
            a.push(P::Con(k - a.len() as u32, Con::Any, vec![]));
          }
        }
        return true;
      }
      *n -= 1;
      a.iter_mut().any(|p| spoil(p, n, most))
    }
    P::Or(_, a) => a.iter_mut().any(|p| spoil(p, n, most)),
  }
}

fn p02() {
  let mut cx = Cx::default();
  for _ in 0..vsim::range(1, 3) {
    vsim::span(|| {
      let (t, mut pats, vals) = problem(false);
      cx.style = style();
      let malformed = vsim::chance(1, 4) && !pats.is_empty() && {
        let i = vsim::choose(pats.len());
        let mut n = vsim::range(0, 4) as usize;
        let most = if let Ty::Tuple(n) = t { usize::from(n) } else { 2 };
        spoil(&mut pats[i], &mut n, most)
      };
      cx.fail_at = (!malformed || vsim::chance(1, 4)).then(|| if vsim::chance(1, 20) { vsim::range(1, 2000) } else { vsim::range(1, 40) });
      ev!("match on {t:?}: {}; fails at call {:?}", shown(&pats), cx.fail_at);
      let r = ask("P02", &mut cx, &pats, &t);
      let calls = cx.calls;
      ev!("-> {:?} after {calls} calls", r.as_ref().err().map(|e| e.0));
      check!(!cx.bad_question, "P02/question", "the check asked about a constructor of another type");
      vsim::state(vsim::hash_debug(&(malformed, cx.failed, calls.min(60), r.is_ok())));
      match (cx.failed, r) {
        (Some(e), Err(g)) => {
          check!(std::ptr::eq(g.0, e) || g.0 == e, "P02/other-error", "the language failed with {e:?}, the check with {:?}", g.0);
          check!(cx.after_failure == 0, "P02/went-on", "{} calls after the failure {e:?}", cx.after_failure);
        }
        (Some(e), Ok(_)) => vsim::violate("P02/swallowed", format!("the language failed with {e:?} at call {:?}, yet there is a verdict", cx.fail_at)),
        (None, Err(e)) => {
          check!(malformed, "P02/error", "the check failed with {:?} though every answer was fine", e.0);
          vsim::fault("pattern does not fit its type");
          vsim::probe("malformed pattern rejected");
        }
        (None, Ok(r)) => {
          // what stands beside an alternative of nothing is never looked at
          check!(!malformed || pats.iter().any(P::has_nothing), "P02/malformed-accepted", "patterns that do not fit their type got a verdict");
          if !malformed {
            judge("P02", &cx, &pats, &vals, &r);
          }
        }
      }
      // the language works again
      if !malformed {
        cx.fail_at = None;
        cx.style = style();
        match ask("P02", &mut cx, &pats, &t) {
          Ok(r) => judge("P02", &cx, &pats, &vals, &r),
          Err(e) => vsim::violate("P02/error", format!("the check failed with {:?} though every answer was fine", e.0)),
        }
      }
    });
  }
}

fn main() {
  let real: &[&str] = &["pattern_match::check", "pattern_match::Pat"];
  let stub: &[&str] = &["the language (types, constructors, its answers and failures)"];
  vsim::cli::main(&[
    vsim::cli::Prop {
      id: "P01",
      run: p01,
      quick: 700_000,
      thorough_factor: 40,
      rule: "each case is up to 3 matches of up to 6 patterns checked in one context with seeded answers; non-trivial: an answer differed from the plain one; distinct: by event-log hash",
      state_measure: "distinct (patterns, values, unreachable, missing, calls) per check",
      real,
      stub,
      faults: &["constructors in another order", "constructors grouped", "constructors listed in part"],
      probes: &["unreachable pattern", "missing pattern", "grouped column", "large problem"],
      init: || {},
    },
    vsim::cli::Prop {
      id: "P02",
      run: p02,
      quick: 700_000,
      thorough_factor: 40,
      rule: "each case is up to 3 matches of up to 6 patterns checked in one context, with a failing answer or a malformed pattern and a retry; non-trivial: an answer failed or a pattern was malformed; distinct: by event-log hash",
      state_measure: "distinct (malformed, error, calls, outcome) per check",
      real,
      stub,
      faults: &["split failed", "argument types failed", "pattern does not fit its type"],
      probes: &["malformed pattern rejected", "unreachable pattern", "missing pattern", "large problem"],
      init: || {},
    },
  ])
}

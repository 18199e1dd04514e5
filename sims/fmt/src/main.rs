//! Simulated rendering into writers that fail.
//!
//! The writer may fail at any call or fill up in the middle of one; elements may fail or panic in the
//! middle of their own rendering and iterators may panic. From the first failure on, nothing more may
//! be written or asked for.

use diagnostic::{Code, Diagnostic, ParseCodeError, Severity};
use pattern_match::{CheckError, Lang, Pat};
use std::cell::{Cell, RefCell};
use std::fmt::{self, Write as _};
use text_pos::{PositionUtf16, RangeUtf16};
use vsim::{check, ev};

// ---------------------------------------------------------------------------------------------
// What is under the control of the simulation during one rendering

#[derive(Default)]
struct Ctl {
  failed: Cell<bool>,
  /// Set by an element or iterator that panics.
  panicked: Cell<bool>,
  /// Things asked for: calls of the writer, elements and iterators.
  asked: Cell<usize>,
  /// Where elements or iterators fail.
  elem_fail: Cell<Option<usize>>,
  elem_panic: Cell<bool>,
  elem_calls: Cell<usize>,
}

thread_local! {
  static CTL: RefCell<std::rc::Rc<Ctl>> = RefCell::default();
}

fn ctl() -> std::rc::Rc<Ctl> {
  CTL.with(|c| c.borrow().clone())
}

fn asked(what: &str) {
  let c = ctl();
  if c.failed.get() {
    vsim::note_violation("W01/after-failure", format!("{what} was asked for after a failure"));
  }
  c.asked.set(c.asked.get() + 1);
  if c.asked.get() > 2_000_000 {
    vsim::violate("W01/endless", "a rendering asked for more than 2000000 things".to_owned());
  }
}

/// A point at which an element or iterator may fail.
fn elem_point(what: &'static str, may_err: bool) -> fmt::Result {
  let c = ctl();
  asked(what);
  let n = c.elem_calls.get();
  c.elem_calls.set(n + 1);
  if c.elem_fail.get() == Some(n) {
    c.failed.set(true);
    if c.elem_panic.get() || !may_err {
      c.panicked.set(true);
      vsim::fault(if may_err { "element panicked" } else { "iterator panicked" });
      std::panic::panic_any(vsim::Injected(1));
    }
    vsim::fault("element failed");
    return Err(fmt::Error);
  }
  Ok(())
}

// ---------------------------------------------------------------------------------------------
// The writer

#[derive(Default)]
struct Out {
  got: String,
  calls: usize,
  fail_at: Option<usize>,
  room: Option<usize>,
}

impl fmt::Write for Out {
  fn write_str(&mut self, s: &str) -> fmt::Result {
    asked("the writer");
    let n = self.calls;
    self.calls += 1;
    if self.fail_at == Some(n) {
      vsim::fault("writer failed");
      ctl().failed.set(true);
      return Err(fmt::Error);
    }
    if let Some(room) = self.room {
      if self.got.len() + s.len() > room {
        let mut k = room - self.got.len();
        while !s.is_char_boundary(k) {
          k -= 1;
        }
        self.got.push_str(&s[..k]);
        vsim::fault(if k == 0 { "writer full" } else { "writer full in the middle of a write" });
        ctl().failed.set(true);
        return Err(fmt::Error);
      }
    }
    self.got.push_str(s);
    Ok(())
  }
}

// ---------------------------------------------------------------------------------------------
// Things to render

/// An element of a sequence with its own way of writing itself.
#[derive(Debug, Clone)]
enum Elem {
  Chunks(Vec<String>),
  Chars(String),
  Args(String, u32),
  Pad(String),
  Seq(String, Vec<Elem>),
  Comma(Vec<Elem>),
}

impl Elem {
  fn full(&self, out: &mut String) {
    match self {
      Elem::Chunks(cs) => out.extend(cs.iter().map(String::as_str)),
      Elem::Chars(s) | Elem::Pad(s) => out.push_str(s),
      Elem::Args(s, n) => {
        let _ = write!(out, "{s}={n}");
      }
      Elem::Seq(sep, es) => seq_full(sep, es, out),
      Elem::Comma(es) => seq_full(", ", es, out),
    }
  }
}

fn seq_full(sep: &str, es: &[Elem], out: &mut String) {
  for (i, e) in es.iter().enumerate() {
    if i > 0 {
      out.push_str(sep);
    }
    e.full(out);
  }
}

impl fmt::Display for Elem {
  fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
    elem_point("an element", true)?;
    match self {
      Elem::Chunks(cs) => {
        for c in cs {
          f.write_str(c)?;
          elem_point("an element", true)?;
        }
        Ok(())
      }
      Elem::Chars(s) => {
        for c in s.chars() {
          f.write_char(c)?;
        }
        Ok(())
      }
      Elem::Args(s, n) => write!(f, "{s}={n}"),
      Elem::Pad(s) => f.pad(s),
      Elem::Seq(sep, es) => fmt_util::sep_seq(f, sep, Feed::new(es)),
      Elem::Comma(es) => fmt_util::comma_seq(f, Feed::new(es)),
    }
  }
}

/// An iterator that says what is asked of it.
struct Feed<'a> {
  es: &'a [Elem],
  at: usize,
  hint: bool,
}

impl<'a> Feed<'a> {
  fn new(es: &'a [Elem]) -> Self {
    Feed { es, at: 0, hint: es.len() % 2 == 0 }
  }
}

impl<'a> Iterator for Feed<'a> {
  type Item = &'a Elem;

  fn next(&mut self) -> Option<&'a Elem> {
    let _ = elem_point("the next element", false);
    let x = self.es.get(self.at);
    self.at += 1;
    x
  }

  fn size_hint(&self) -> (usize, Option<usize>) {
    let n = self.es.len().saturating_sub(self.at);
    if self.hint { (n, Some(n)) } else { (0, None) }
  }
}

struct SepSeq<'a>(&'a str, &'a [Elem], bool);

impl fmt::Display for SepSeq<'_> {
  fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
    if self.2 { fmt_util::comma_seq(f, Feed::new(self.1)) } else { fmt_util::sep_seq(f, self.0, Feed::new(self.1)) }
  }
}

/// A language whose constructors are elements.
enum L {}

impl Lang for L {
  type Cx = ();
  type PatIdx = u32;
  type Con = Elem;
  type Ty = ();

  fn any() -> Elem {
    Elem::Pad("_".to_owned())
  }

  fn split<'a, I>(_: &mut (), (): &(), _: &Elem, _: I, _: usize) -> pattern_match::Result<Vec<Elem>>
  where
    Elem: 'a,
    I: Iterator<Item = &'a Elem>,
  {
    Err(CheckError("not asked for"))
  }

  fn get_arg_tys(_: &mut (), (): &(), _: &Elem) -> pattern_match::Result<Vec<()>> {
    Err(CheckError("not asked for"))
  }

  fn covers(_: &Elem, _: &Elem) -> bool {
    false
  }
}

#[derive(Debug, Clone)]
enum P {
  Con(Elem, Vec<P>),
  Or(Vec<P>),
  Any,
}

impl P {
  fn pat(&self) -> Pat<L> {
    match self {
      P::Con(c, a) if a.is_empty() => Pat::zero(c.clone(), 0),
      P::Con(c, a) => Pat::con(c.clone(), a.iter().map(P::pat).collect(), 1),
      P::Or(a) => Pat::or(a.iter().map(P::pat).collect(), 2),
      P::Any => Pat::any_no_idx(),
    }
  }

  fn full(&self, out: &mut String) {
    let list = |sep: &str, a: &[P], out: &mut String| {
      for (i, p) in a.iter().enumerate() {
        if i > 0 {
          out.push_str(sep);
        }
        p.full(out);
      }
    };
    match self {
      P::Con(c, a) => {
        c.full(out);
        if !a.is_empty() {
          out.push('(');
          list(", ", a, out);
          out.push(')');
        }
      }
      P::Or(a) if a.is_empty() => out.push_str("<NEVER>"),
      P::Or(a) => list(" | ", a, out),
      P::Any => out.push('_'),
    }
  }
}

fn gen_text() -> String {
  let n = vsim::choose(5);
  let t: String = (0..n).map(|_| vsim::pick(&["a", "B", "é", "語", "\u{1f600}", " ", "\n", "{}", "0"])).collect();
  if vsim::chance(1, 400) {
    vsim::probe("long text");
    return t.repeat(vsim::range(10, 400) as usize);
  }
  t
}

fn gen_elem(depth: usize) -> Elem {
  match vsim::weighted(&[4, 2, 2, 2, if depth < 2 { 1 } else { 0 }, if depth < 2 { 1 } else { 0 }]) {
    0 => Elem::Chunks((0..vsim::choose(4)).map(|_| gen_text()).collect()),
    1 => Elem::Chars(gen_text()),
    2 => Elem::Args(gen_text(), vsim::spread_u32()),
    3 => Elem::Pad(gen_text()),
    4 => Elem::Seq(gen_text(), gen_elems(depth + 1)),
    _ => Elem::Comma(gen_elems(depth + 1)),
  }
}

fn gen_elems(depth: usize) -> Vec<Elem> {
  if depth == 0 && vsim::chance(1, 1000) {
    vsim::probe("long sequence");
    return (0..vsim::range(8, 900)).map(|_| gen_elem(2)).collect();
  }
  (0..vsim::choose(if depth == 0 { 7 } else { 4 })).map(|_| gen_elem(depth)).collect()
}

fn gen_pat(depth: usize) -> P {
  match vsim::weighted(&[4, if depth < 3 { 3 } else { 0 }, 1]) {
    0 => {
      let args = if depth < 3 { vsim::choose(4) } else { 0 };
      P::Con(gen_elem(2), (0..args).map(|_| gen_pat(depth + 1)).collect())
    }
    1 => P::Or((0..vsim::choose(4)).map(|_| gen_pat(depth + 1)).collect()),
    _ => P::Any,
  }
}

fn gen_pos() -> PositionUtf16 {
  PositionUtf16 { line: vsim::spread_u32(), col: vsim::spread_u32() }
}

fn pos_full(p: PositionUtf16) -> String {
  format!("{}:{}", u64::from(p.line) + 1, u64::from(p.col) + 1)
}

fn gen_range() -> RangeUtf16 {
  let (a, mut b) = (gen_pos(), gen_pos());
  if vsim::chance(1, 2) {
    b.line = a.line;
  }
  RangeUtf16 { start: a.min(b), end: a.max(b) }
}

fn range_full(r: RangeUtf16) -> String {
  let start = pos_full(r.start);
  if r.start.line == r.end.line { format!("{start}-{}", u64::from(r.end.col) + 1) } else { format!("{start}-{}", pos_full(r.end)) }
}

fn gen_severity() -> (Severity, &'static str) {
  vsim::pick(&[(Severity::Warning, "warning"), (Severity::Error, "error")])
}

/// A value and its full rendering.
fn gen_value() -> (&'static str, Box<dyn fmt::Display>, Option<String>) {
  struct Own(String, Vec<Elem>, bool);
  impl fmt::Display for Own {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
      SepSeq(&self.0, &self.1, self.2).fmt(f)
    }
  }
  match vsim::weighted(&[6, 3, 4, 2, 2, 1, 1, 1, 1, 1, 1, 6, 1]) {
    0 => {
      let (sep, es) = (gen_text(), gen_elems(0));
      let mut s = String::new();
      seq_full(&sep, &es, &mut s);
      ("sep_seq", Box::new(Own(sep, es, false)), Some(s))
    }
    1 => {
      let es = gen_elems(0);
      let mut s = String::new();
      seq_full(", ", &es, &mut s);
      ("comma_seq", Box::new(Own(String::new(), es, true)), Some(s))
    }
    2 => {
      let (range, (severity, sev), message) = (gen_range(), gen_severity(), gen_text());
      let s = format!("{}: {sev}: {message}", range_full(range));
      ("diagnostic", Box::new(Diagnostic { range, message, severity }), Some(s))
    }
    3 => {
      let r = gen_range();
      ("range", Box::new(r), Some(range_full(r)))
    }
    4 => {
      let p = gen_pos();
      ("position", Box::new(p), Some(pos_full(p)))
    }
    5 => {
      let (s, t) = gen_severity();
      ("severity", Box::new(s), Some(t.to_owned()))
    }
    6 => {
      let n = vsim::spread_u32() as u16;
      ("code", Box::new(Code::n(n)), Some(n.to_string()))
    }
    7 => {
      let bad = vsim::pick(&["", "x", "-1", "65536", "1.0", " 1", "+"]);
      let e: ParseCodeError = bad.parse::<Code>().unwrap_err();
      let why = bad.parse::<u16>().unwrap_err();
      ("parse code error", Box::new(e), Some(format!("couldn't parse code: {why}")))
    }
    8 => {
      let mut mk = uniq::UniqMk::default();
      let n = vsim::choose(20);
      let mut u = mk.mk();
      for _ in 0..n {
        u = mk.mk();
      }
      // the numbering is not promised
      ("uniq", Box::new(u), None)
    }
    9 => {
      let mut t = gen_text();
      // names are kept inline or shared, by length
      if vsim::chance(1, 3) {
        t.push_str("a rather long name that is not kept inline");
      }
      t.push('n');
      ("name", Box::new(str_util::Name::new(t.as_str())), Some(t))
    }
    10 => ("check error", Box::new(CheckError("bad arguments {}")), Some("could not check pattern match: bad arguments {}".to_owned())),
    11 => {
      let p = gen_pat(0);
      let mut s = String::new();
      p.full(&mut s);
      ("pattern", Box::new(p.pat()), Some(s))
    }
    _ => {
      let n = vsim::range(1, 4) as u32;
      let g: topo_sort::graph::Graph<u32> = (0..n).map(|i| (i, std::iter::once((i + 1) % n).collect())).collect();
      match topo_sort::graph::get(&g) {
        Err(e) => ("cycle error", Box::new(e), Some("graph has a cycle".to_owned())),
        Ok(_) => ("severity", Box::new(Severity::Error), Some("error".to_owned())),
      }
    }
  }
}

fn render(x: &dyn fmt::Display, flags: usize, out: &mut Out) -> fmt::Result {
  match flags {
    0 => write!(out, "{x}"),
    1 => write!(out, "{x:#}"),
    2 => write!(out, "{x:>9}"),
    3 => write!(out, "{x:*<6.2}"),
    _ => write!(out, "{x:07}"),
  }
}

fn reset() -> std::rc::Rc<Ctl> {
  let c = std::rc::Rc::<Ctl>::default();
  CTL.with(|x| *x.borrow_mut() = c.clone());
  c
}

fn w01() {
  let n = vsim::range(1, 3);
  for _ in 0..n {
    vsim::span(one);
  }
}

fn one() {
  let (what, x, model) = gen_value();
  let flags = if vsim::chance(1, 5) { vsim::range(1, 4) as usize } else { 0 };
  // in full
  let c = reset();
  let mut out = Out::default();
  let res = vsim::no_panic("W01/panic", what, || render(&*x, flags, &mut out));
  vsim::stop_if_violated();
  ev!("{what} flags {flags}: {res:?} {:?}", out.got);
  check!(res.is_ok(), "W01/spurious", "{what}: rendering failed though nothing did");
  let full = out.got;
  if flags == 0 {
    if let Some(m) = &model {
      check!(full == *m, "W01/rendering", "{what}: rendered as {full:?}, expected {m:?}");
    }
  }
  let (calls, elem_calls) = (out.calls, c.elem_calls.get());
  // with a failure at a drawn point
  for _ in 0..vsim::range(1, 3) {
    let c = reset();
    let mut out = Out::default();
    match vsim::weighted(&[3, 3, if elem_calls > 0 { 3 } else { 0 }]) {
      0 => out.fail_at = Some(vsim::choose(calls.max(1))),
      1 => out.room = Some(vsim::choose(full.len().max(1))),
      _ => {
        c.elem_fail.set(Some(vsim::choose(elem_calls)));
        c.elem_panic.set(vsim::chance(1, 4));
      }
    }
    let res = vsim::catch(|| render(&*x, flags, &mut out));
    vsim::stop_if_violated();
    let failed = c.failed.get();
    vsim::state(vsim::hash_debug(&(what, &out.got, failed)));
    match res {
      vsim::Caught::Ok(r) => {
        ev!("{what}: {r:?} {:?}", out.got);
        check!(!c.panicked.get(), "W01/swallowed", "{what}: a panic of an element or iterator was swallowed");
        check!(r.is_err() == failed, "W01/verdict", "{what}: something failed = {failed}, but the result is {r:?}");
        if failed {
          check!(full.starts_with(&out.got), "W01/prefix", "{what}: wrote {:?}, which is no prefix of {full:?}", out.got);
        } else {
          check!(full == out.got, "W01/differs", "{what}: rendered as {:?} after {full:?}", out.got);
        }
      }
      vsim::Caught::Injected(_) => {
        check!(full.starts_with(&out.got), "W01/prefix", "{what}: wrote {:?}, which is no prefix of {full:?}", out.got);
        vsim::probe("panic came through");
      }
      vsim::Caught::Panic(m) => vsim::violate("W01/panic", format!("{what}: panicked: {m}")),
    }
  }
  // and again in full
  reset();
  let mut out = Out::default();
  let res = vsim::no_panic("W01/panic", what, || render(&*x, flags, &mut out));
  vsim::stop_if_violated();
  check!(res.is_ok() && out.got == full, "W01/differs", "{what}: rendered as {:?} ({res:?}) after {full:?}", out.got);
  reset();
}

fn main() {
  vsim::cli::main(&[vsim::cli::Prop {
    id: "W01",
    run: w01,
    quick: 6_000_000,
    thorough_factor: 40,
    rule: "each case renders up to 3 drawn values, in full, with up to 3 failures at drawn points each, and in full again; non-trivial: a failure fired; distinct: by event-log hash",
    state_measure: "distinct (kind of value, text written, failed) per rendering",
    real: &[
      "fmt_util", "diagnostic", "text_pos", "pattern_match", "uniq", "str_util", "topo_sort (Display)", "core::fmt",
    ],
    stub: &["the writer", "elements of sequences and their iterators", "the language of patterns"],
    faults: &[
      "writer failed", "writer full", "writer full in the middle of a write", "element failed", "element panicked", "iterator panicked",
    ],
    probes: &["panic came through", "long text", "long sequence"],
    init: || {},
  }])
}

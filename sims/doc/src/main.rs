//! Simulation of D01 (editor and server converge) and D02 (stale or malformed edits are skipped).
//!
//! A discrete-event simulation of an editor, a link and a language server. The editor's document is
//! a vector of UTF-16 units edited in place; the server holds a `String` changed only through
//! `apply_changes::get`. In D01 the link is reliable and ordered but delays and coalesces, and the
//! server stalls, crashes and restarts. In D02 the link loses, repeats, reorders and corrupts.

use apply_changes::Change;
use std::collections::{BinaryHeap, VecDeque};
use text_pos::{PositionDb, PositionUtf16, RangeUtf16};
use text_size_util::{TextRange, TextSize};
use vsim::{check, ev};

// --- the editor's view -----------------------------------------------------------------------

type Doc = Vec<u16>;

const NL: u16 = 10;

fn units(s: &str) -> Doc {
  s.encode_utf16().collect()
}
fn text(d: &[u16]) -> String {
  String::from_utf16(d).expect("the editor's document is well formed")
}
fn is_low(u: u16) -> bool {
  (0xdc00..0xe000).contains(&u)
}
/// A place a cursor can be at.
fn boundary(d: &[u16], i: usize) -> bool {
  i <= d.len() && (i == d.len() || !is_low(d[i]))
}
fn position(d: &[u16], i: usize) -> PositionUtf16 {
  let line = d[..i].iter().filter(|&&u| u == NL).count();
  let start = d[..i].iter().rposition(|&u| u == NL).map_or(0, |x| x + 1);
  PositionUtf16 { line: line as u32, col: (i - start) as u32 }
}
/// The place a position denotes, if it denotes one.
fn resolve(d: &[u16], p: PositionUtf16) -> Option<usize> {
  let mut start = 0;
  for _ in 0..p.line {
    start += d[start..].iter().position(|&u| u == NL)? + 1;
  }
  let len = d[start..].iter().position(|&u| u == NL).unwrap_or(d.len() - start);
  let col = p.col as usize;
  if col > len || !boundary(d, start + col) {
    return None;
  }
  Some(start + col)
}
/// What a sequence of changes means: those that are not valid at their point do nothing.
fn apply(d: &mut Doc, c: &Change) -> bool {
  let Some(r) = c.range else {
    *d = units(&c.text);
    return true;
  };
  let (Some(a), Some(b)) = (resolve(d, r.start), resolve(d, r.end)) else { return false };
  if a > b {
    return false;
  }
  d.splice(a..b, c.text.encode_utf16());
  true
}

fn copy(c: &Change) -> Change {
  Change { range: c.range, text: c.text.clone() }
}
fn show(c: &Change) -> String {
  match c.range {
    Some(r) => {
      format!("{}:{}..{}:{} {:?}", r.start.line, r.start.col, r.end.line, r.end.col, c.text)
    }
    None => format!("all {:?}", c.text),
  }
}

const BITS: [&str; 24] = [
  "a", "b", "\n", "é", "\u{1F600}", "メ", "\n\n", "x = 1;", "\r\n", "\u{7f}", "e\u{301}",
  "0123456789abcdef0123456789", "\u{10FFFF}\n", "if (a) {\n  b();\n}\n",
  "\r", "\t", "\0", "\u{feff}", "\u{2028}", "\u{85}", "\u{80}", "\u{7ff}\u{800}", "\u{ffff}\u{10000}",
  "\u{1F469}\u{200d}\u{1F4BB}",
];
const USUAL: [u64; 24] =
  [12, 8, 12, 6, 8, 6, 4, 4, 2, 2, 2, 2, 2, 2, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1];

fn some_text(max: u64) -> String {
  let n = vsim::range(0, max);
  let mut s = String::new();
  for _ in 0..n {
    s.push_str(BITS[vsim::weighted(&USUAL)]);
  }
  s
}

/// The text a document starts with: rarely one with very long lines or very many of them.
fn opening() -> String {
  if !vsim::chance(1, 1000) {
    return some_text(10);
  }
  let mut s = String::new();
  for _ in 0..vsim::range(1, 4) {
    let bit = vsim::pick(&BITS);
    let n = match vsim::weighted(&[3, 3, 2, 1]) {
      0 => vsim::range(1, 300),
      1 => vsim::range(250, 5_000),
      2 => vsim::range(60_000, 70_000),
      _ => 1,
    } as usize;
    s.push_str(&bit.repeat(if bit.len() > 4 { n.min(6_000) } else { n }));
  }
  if s.len() > 4096 {
    vsim::probe("large document");
  }
  s
}

fn cursor(d: &[u16]) -> usize {
  let mut i = vsim::range(0, d.len() as u64) as usize;
  while !boundary(d, i) {
    i -= 1;
  }
  i
}

/// A range near `from`, often on the same or an adjacent line.
fn near(d: &[u16], from: usize) -> (usize, usize) {
  let mut a = match vsim::weighted(&[3, 3, 2]) {
    0 => cursor(d),
    1 => (from + vsim::range(0, 6) as usize).min(d.len()),
    _ => from.min(d.len()).saturating_sub(vsim::range(0, 6) as usize),
  };
  while !boundary(d, a) {
    a -= 1;
  }
  let mut b = match vsim::weighted(&[4, 4, 1]) {
    0 => a,
    1 => (a + vsim::range(0, 7) as usize).min(d.len()),
    _ => cursor(d),
  };
  while !boundary(d, b) {
    b += 1;
  }
  if a <= b { (a, b) } else { (b, a) }
}

fn range_of(d: &[u16], a: usize, b: usize) -> RangeUtf16 {
  RangeUtf16 { start: position(d, a), end: position(d, b) }
}

/// One notification of the editor: edits at one or several cursors, applied to its document.
fn edit(d: &mut Doc) -> Vec<Change> {
  let mut out = Vec::new();
  let kind = vsim::weighted(&[5, 4, 4, 3, 2, 1]);
  match kind {
    // one edit
    0 => {
      let (a, b) = near(d, 0);
      out.push(Change { range: Some(range_of(d, a, b)), text: some_text(4) });
    }
    // several cursors, bottom to top, the same edit at each, or bottom to top with different ones
    1 | 2 => {
      let n = if vsim::chance(1, 60) { vsim::range(6, 30) } else { vsim::range(2, 5) };
      let mut at: Vec<(usize, usize)> = Vec::new();
      let mut from = cursor(d);
      for _ in 0..n {
        let r = near(d, from);
        from = r.1;
        if at.iter().all(|o| r.1 < o.0 || o.1 < r.0 || (r.0 == r.1 && o.0 == o.1 && r.0 != o.0)) {
          at.push(r);
        }
      }
      at.sort_unstable();
      if kind == 1 {
        at.reverse();
      }
      let same = some_text(2);
      let mut shift = 0isize;
      let mut tmp = d.clone();
      for (a, b) in at {
        let t = if vsim::chance(1, 3) { some_text(3) } else { same.clone() };
        let (a, b) = ((a as isize + shift) as usize, (b as isize + shift) as usize);
        if !boundary(&tmp, a) || !boundary(&tmp, b) {
          continue;
        }
        let c = Change { range: Some(range_of(&tmp, a, b)), text: t };
        if kind == 2 {
          shift += units(&c.text).len() as isize - (b - a) as isize;
        }
        apply(&mut tmp, &c);
        out.push(c);
      }
    }
    // a burst of edits, each near the one before
    3 => {
      let n = if vsim::chance(1, 60) { vsim::range(10, 80) } else { vsim::range(2, 6) };
      let mut tmp = d.clone();
      let mut from = cursor(&tmp);
      for _ in 0..n {
        let (a, b) = near(&tmp, from);
        let c = Change { range: Some(range_of(&tmp, a, b)), text: some_text(2) };
        from = a;
        apply(&mut tmp, &c);
        out.push(c);
      }
    }
    // replacement of everything through a range
    4 => {
      out.push(Change { range: Some(range_of(d, 0, d.len())), text: some_text(8) });
    }
    // full replacement, perhaps with edits around it in the same notification
    _ => {
      let mut tmp = d.clone();
      if vsim::chance(1, 2) {
        let (a, b) = near(&tmp, 0);
        let c = Change { range: Some(range_of(&tmp, a, b)), text: some_text(2) };
        apply(&mut tmp, &c);
        out.push(c);
      }
      for _ in 0..vsim::range(1, 2) {
        let c = Change { range: None, text: some_text(8) };
        apply(&mut tmp, &c);
        out.push(c);
      }
      if vsim::chance(1, 2) {
        let (a, b) = near(&tmp, 0);
        let c = Change { range: Some(range_of(&tmp, a, b)), text: some_text(2) };
        apply(&mut tmp, &c);
        out.push(c);
      }
      vsim::probe("full replacement inside a notification");
    }
  }
  for c in &out {
    let ok = apply(d, c);
    assert!(ok, "the editor made an invalid change");
  }
  out
}

// --- what the server reports -----------------------------------------------------------------

fn size(n: usize) -> TextSize {
  TextSize::from(n as u32)
}

fn queries(p: &str, server: &str, d: &[u16]) {
  let db = vsim::no_panic(&format!("{p}/panic"), "indexing", || PositionDb::new(server));
  let len = server.len();
  check!(db.len() == size(len), &format!("{p}/len"), "len {:?} of {server:?}", db.len());
  let mut boundaries = Vec::new();
  // every offset, or many of them when there are too many
  let offsets: Vec<usize> = if len <= 4096 {
    (0..=len + 2).collect()
  } else {
    let mut v = Vec::new();
    for _ in 0..60 {
      let near = match vsim::weighted(&[4, 2, 1, 1]) {
        0 => vsim::range(0, len as u64) as usize,
        1 => 1 << vsim::range(7, 17),
        2 => len,
        _ => 0,
      };
      v.push((near + vsim::range(0, 4) as usize).saturating_sub(2).min(len + 2));
    }
    v.sort_unstable();
    v
  };
  // in some order, and now and then asked again later
  let mut order: Vec<usize> = Vec::new();
  if len <= 40 && vsim::chance(1, 8) {
    for _ in 0..12 {
      order.push(vsim::pick(&offsets));
    }
  }
  for off in order {
    let got = vsim::no_panic(&format!("{p}/panic"), "position_utf16", || db.position_utf16(size(off)));
    let want = server.is_char_boundary(off).then(|| position(d, units(&server[..off]).len()));
    check!(got == want, &format!("{p}/position"), "offset {off} of {server:?} is at {got:?}, the editor has it at {want:?}");
    if let Some(want) = want {
      let back = vsim::no_panic(&format!("{p}/panic"), "text_size_utf16", || db.text_size_utf16(want));
      check!(back == Some(size(off)), &format!("{p}/offset"), "position {want} of {server:?} is at offset {back:?}, the editor has it at {off}");
    }
  }
  let mut upto = 0;
  let mut u16off = 0;
  for off in offsets {
    let got = vsim::no_panic(&format!("{p}/panic"), "position_utf16", || db.position_utf16(size(off)));
    if server.is_char_boundary(off) {
      u16off += server[upto..off].chars().map(char::len_utf16).sum::<usize>();
      upto = off;
      let want = position(d, u16off);
      check!(got == Some(want), &format!("{p}/position"), "offset {off} of {server:?} is at {got:?}, the editor has it at {want:?}");
      let back = vsim::no_panic(&format!("{p}/panic"), "text_size_utf16", || db.text_size_utf16(want));
      check!(back == Some(size(off)), &format!("{p}/offset"), "position {want} of {server:?} is at offset {back:?}, the editor has it at {off}");
      boundaries.push((off, want));
    } else {
      check!(got.is_none(), &format!("{p}/no-position"), "offset {off} of {server:?} (len {len}) is no character boundary but has position {got:?}");
    }
  }
  if boundaries.is_empty() {
    boundaries.push((len, position(d, d.len())));
  }
  let end = vsim::no_panic(&format!("{p}/panic"), "end_position_utf16", || db.end_position_utf16());
  check!(end == position(d, d.len()), &format!("{p}/end"), "end of {server:?} at {end}");
  for _ in 0..3 {
    let (a, b) = (vsim::pick(&boundaries), vsim::pick(&boundaries));
    let (a, b) = if a.0 <= b.0 { (a, b) } else { (b, a) };
    let tr = TextRange::new(size(a.0), size(b.0));
    let r = RangeUtf16 { start: a.1, end: b.1 };
    let got = vsim::no_panic(&format!("{p}/panic"), "range_utf16", || db.range_utf16(tr));
    check!(got == Some(r), &format!("{p}/range"), "range {tr:?} of {server:?} is {got:?}, the editor has {r:?}");
    let got = vsim::no_panic(&format!("{p}/panic"), "text_range_utf16", || db.text_range_utf16(r));
    check!(got == Some(tr), &format!("{p}/range"), "range {r} of {server:?} is {got:?}, the editor has {tr:?}");
    // the pieces of a range, line by line
    let pieces = vsim::no_panic(&format!("{p}/panic"), "lines", || db.lines(tr).collect::<Vec<_>>());
    let mut want = Vec::new();
    let mut s = a.0;
    for (i, ch) in server[a.0..b.0].char_indices() {
      if ch == '\n' {
        want.push(TextRange::new(size(s), size(a.0 + i + 1)));
        s = a.0 + i + 1;
      }
    }
    if s < b.0 {
      want.push(TextRange::new(size(s), size(b.0)));
    }
    check!(pieces == want, &format!("{p}/lines"), "lines of {tr:?} in {server:?}: {pieces:?}, want {want:?}");
    let bad = TextRange::new(size(a.0), size(len + 1 + vsim::range(0, 3) as usize));
    let got = vsim::no_panic(&format!("{p}/panic"), "range_utf16", || db.range_utf16(bad));
    check!(got.is_none(), &format!("{p}/range"), "range {bad:?} past the end of {server:?} is {got:?}");
  }
}

fn process(p: &str, server: &mut String, batch: Vec<Change>) {
  let n = batch.len();
  let mut s = std::mem::take(server);
  *server = vsim::no_panic(&format!("{p}/panic"), &format!("applying {n} changes"), move || {
    apply_changes::get(&mut s, batch);
    s
  });
}

/// Another document open in the same server. What happens to it is nobody else's business, and it
/// must not mind what happens to them.
struct Other {
  doc: Doc,
  server: String,
  db: PositionDb,
}

impl Other {
  fn open() -> Option<Other> {
    if !vsim::chance(1, 4) {
      return None;
    }
    vsim::probe("a second document in the same server");
    let doc = units(&some_text(6));
    let server = text(&doc);
    let db = PositionDb::new(&server);
    Some(Other { doc, server, db })
  }

  /// Asks the index made earlier.
  fn look(&self, p: &str) {
    let i = cursor(&self.doc);
    let want = position(&self.doc, i);
    let off = size(text(&self.doc[..i]).len());
    let got = vsim::no_panic(&format!("{p}/panic"), "position_utf16", || self.db.position_utf16(off));
    check!(got == Some(want), &format!("{p}/position"), "offset {off:?} of the other document {:?} is at {got:?}, want {want:?}", self.server);
    let got = vsim::no_panic(&format!("{p}/panic"), "text_size_utf16", || self.db.text_size_utf16(want));
    check!(got == Some(off), &format!("{p}/offset"), "position {want} of the other document {:?} is at {got:?}, want {off:?}", self.server);
  }

  fn step(&mut self, p: &str) {
    self.look(p);
    let mut cs = Vec::new();
    for _ in 0..vsim::range(1, 2) {
      cs.extend(edit(&mut self.doc));
    }
    ev!("other {}", cs.iter().map(show).collect::<Vec<_>>().join(", "));
    process(p, &mut self.server, cs);
    let want = text(&self.doc);
    check!(self.server == want, &format!("{p}/other-document"), "the other document is {:?}, its editor has {want:?}", self.server);
    self.db = PositionDb::new(&self.server);
    self.look(p);
  }
}

// --- D01 -------------------------------------------------------------------------------------

#[derive(Debug, PartialEq, Eq, PartialOrd, Ord)]
enum Ev {
  Edit,
  /// the server gets round to its mailbox
  Serve,
  Crash,
  Restart,
}

fn convergence() {
  const P: &str = "D01";
  let mut doc: Doc = units(&opening());
  let mut server = text(&doc);
  let mut other = Other::open();
  let mut alive = true;
  // sent, not yet processed: (arrival time, changes, document after them)
  let mut link: VecDeque<(u64, Vec<Change>, Doc)> = VecDeque::new();
  let mut heap: BinaryHeap<std::cmp::Reverse<(u64, u32, Ev)>> = BinaryHeap::new();
  let mut seq = 0u32;
  let mut push = |heap: &mut BinaryHeap<_>, t: u64, e: Ev| {
    seq += 1;
    heap.push(std::cmp::Reverse((t, seq, e)));
  };
  ev!("open {:?}", server);
  let edits = vsim::range(1, 10);
  let crashes = vsim::weighted(&[3, 1, 1]) as u64;
  let mut t_edit = 0;
  for _ in 0..edits {
    t_edit += vsim::range(0, 400) * 1_000_000;
    push(&mut heap, t_edit, Ev::Edit);
  }
  for _ in 0..crashes {
    let t = vsim::range(0, t_edit);
    push(&mut heap, t, Ev::Crash);
  }
  let mut serving = false;
  let mut last_arrival = 0;
  while let Some(std::cmp::Reverse((now, _, e))) = heap.pop() {
    match e {
      Ev::Edit => vsim::span(|| {
        let cs = edit(&mut doc);
        ev!("{now} edit {}", cs.iter().map(show).collect::<Vec<_>>().join(", "));
        // in order, with a delay; the editor may also split one notification into several
        let mut upto = doc.clone();
        let mut parts = vec![cs];
        if parts[0].len() > 1 && vsim::chance(1, 4) {
          let k = vsim::range(1, parts[0].len() as u64 - 1) as usize;
          let tail = parts[0].split_off(k);
          parts.push(tail);
        }
        let last = parts.len() - 1;
        for (i, part) in parts.into_iter().enumerate() {
          let arrival = last_arrival.max(now + vsim::range(0, 300) * 1_000_000);
          last_arrival = arrival;
          if alive {
            let known = if i == last { std::mem::take(&mut upto) } else { Vec::new() };
            link.push_back((arrival, part, known));
            if !serving {
              serving = true;
              let stall = if vsim::chance(1, 4) {
                vsim::fault("server stalled");
                vsim::range(1, 2000) * 1_000_000
              } else {
                0
              };
              push(&mut heap, arrival + stall, Ev::Serve);
            }
          }
        }
      }),
      Ev::Serve => {
        serving = false;
        if !alive {
          continue;
        }
        let mut batch = Vec::new();
        let mut want = None;
        let mut n = 0;
        // a slow server finds several notifications waiting and handles some of them at once
        let limit = vsim::range(1, 6);
        while n < limit && link.front().is_some_and(|m| m.0 <= now) {
          let (_, cs, known) = link.pop_front().unwrap();
          batch.extend(cs);
          want = (!known.is_empty() || link.front().is_none()).then_some(known);
          n += 1;
        }
        if n > 1 {
          vsim::probe("notifications coalesced into one batch");
          vsim::nontrivial();
        }
        if batch.len() > 1 {
          vsim::nontrivial();
        }
        ev!("{now} serve {n} notifications, {} changes", batch.len());
        if let Some(o) = other.as_mut().filter(|_| vsim::chance(1, 2)) {
          o.step(P);
        }
        process(P, &mut server, batch);
        vsim::state(vsim::hash_debug(&server));
        if let Some(want) = want {
          let want = text(&want);
          check!(server == want, &format!("{P}/diverged"), "after the batch at {now} the server has {server:?}, the editor had {want:?}");
        }
        if let Some(m) = link.front() {
          serving = true;
          let t = m.0.max(now) + vsim::range(0, 50) * 1_000_000;
          push(&mut heap, t, Ev::Serve);
        }
      }
      Ev::Crash => {
        if alive {
          vsim::fault("server crashed");
          alive = false;
          server.clear();
          link.clear();
          let t = now + vsim::range(1, 500) * 1_000_000;
          push(&mut heap, t, Ev::Restart);
        }
      }
      Ev::Restart => {
        // a new process: it knows nothing until the editor resends the document
        alive = true;
        ev!("{now} server restarts; the editor resends {:?}", text(&doc));
        link.push_back((now, vec![Change { range: None, text: text(&doc) }], doc.clone()));
        last_arrival = last_arrival.max(now);
        if !serving {
          serving = true;
          push(&mut heap, now, Ev::Serve);
        }
      }
    }
    vsim::add_sim_nanos(0);
    if heap.is_empty() {
      vsim::add_sim_nanos(now);
    }
  }
  // faults are over and everything sent was served: both must agree
  check!(link.is_empty(), &format!("{P}/harness"), "undelivered messages");
  let want = text(&doc);
  check!(server == want, &format!("{P}/diverged"), "finally the server has {server:?}, the editor {want:?}");
  queries(P, &server, &doc);
  if let Some(o) = &other {
    o.look(P);
  }
}

// --- D02 -------------------------------------------------------------------------------------

fn wild_position(d: &[u16]) -> PositionUtf16 {
  match vsim::weighted(&[4, 3, 2, 2]) {
    0 => position(d, cursor(d)),
    1 => {
      // near a line's end, beyond it, or inside a pair
      let p = position(d, cursor(d));
      PositionUtf16 { line: p.line, col: p.col + vsim::range(0, 6) as u32 }
    }
    2 => {
      let p = position(d, d.len());
      PositionUtf16 { line: p.line + vsim::range(0, 2) as u32, col: vsim::range(0, 3) as u32 }
    }
    _ => PositionUtf16 { line: vsim::spread_u32(), col: vsim::spread_u32() },
  }
}

fn malformed() {
  const P: &str = "D02";
  let mut doc: Doc = units(&opening());
  let mut server = text(&doc);
  let mut other = Other::open();
  let mut shadow: Doc = doc.clone();
  ev!("open {server:?}");
  let rounds = vsim::range(1, 6);
  let mut link: Vec<Vec<Change>> = Vec::new();
  for _ in 0..rounds {
    vsim::span(|| {
      for _ in 0..vsim::range(1, 3) {
        let mut cs = edit(&mut doc);
        match vsim::weighted(&[4, 2, 2, 2, 3]) {
          0 => {}
          1 => {
            vsim::fault("message lost");
            cs.clear();
          }
          2 => {
            vsim::fault("message repeated");
            let again: Vec<Change> = cs.iter().map(copy).collect();
            link.push(again);
          }
          3 => {
            if !link.is_empty() {
              vsim::fault("messages reordered");
              let k = vsim::choose(link.len());
              let other = std::mem::replace(&mut link[k], std::mem::take(&mut cs));
              link.push(other);
            }
          }
          _ => {
            // ranges made by a confused client
            let n = vsim::range(1, 3);
            for _ in 0..n {
              let (start, end) = (wild_position(&doc), wild_position(&doc));
              let c = Change { range: Some(RangeUtf16 { start, end }), text: some_text(2) };
              let at = vsim::range(0, cs.len() as u64) as usize;
              vsim::fault("malformed range");
              cs.insert(at, c);
            }
          }
        }
        if !cs.is_empty() {
          link.push(cs);
        }
      }
      let n = vsim::range(1, 3).min(link.len() as u64) as usize;
      let batch: Vec<Change> = link.drain(..n).flatten().collect();
      ev!("batch {}", batch.iter().map(show).collect::<Vec<_>>().join(", "));
      let before = shadow.clone();
      let mut skipped = 0;
      for c in &batch {
        if !apply(&mut shadow, c) {
          skipped += 1;
        }
      }
      if skipped > 0 {
        vsim::probe("a change had to be skipped");
        if skipped < batch.len() {
          vsim::probe("a batch mixed skipped and applied changes");
        }
      }
      let shown = batch.iter().map(show).collect::<Vec<_>>().join(", ");
      if let Some(o) = other.as_mut().filter(|_| vsim::chance(1, 2)) {
        o.step(P);
      }
      process(P, &mut server, batch);
      vsim::state(vsim::hash_debug(&server));
      let want = text(&shadow);
      check!(
        server == want,
        &format!("{P}/wrong-text"),
        "applying [{shown}] to {:?} gave {server:?}; skipping the invalid changes gives {want:?}",
        text(&before)
      );
      // positions that are none resolve to nothing; others to their place
      let db = PositionDb::new(&server);
      for _ in 0..3 {
        let pos = wild_position(&shadow);
        let got = vsim::no_panic(&format!("{P}/panic"), "text_size_utf16", || db.text_size_utf16(pos));
        let want = resolve(&shadow, pos).map(|i| size(text(&shadow[..i]).len()));
        check!(got == want, &format!("{P}/resolve"), "position {}:{} of {server:?} resolves to {got:?}, want {want:?}", pos.line, pos.col);
        let end = wild_position(&shadow);
        let r = RangeUtf16 { start: pos, end };
        let got = vsim::no_panic(&format!("{P}/panic"), "text_range_utf16", || db.text_range_utf16(r));
        let want = match (resolve(&shadow, pos), resolve(&shadow, end)) {
          (Some(a), Some(b)) if a <= b => Some(TextRange::new(size(text(&shadow[..a]).len()), size(text(&shadow[..b]).len()))),
          _ => None,
        };
        check!(got == want, &format!("{P}/resolve"), "range {r:?} of {server:?} resolves to {got:?}, want {want:?}");
      }
    });
  }
  // the editor resends everything: agreement is restored, whatever else is in the batch before it
  let mut batch: Vec<Change> = link.drain(..).flatten().collect();
  batch.push(Change { range: None, text: text(&doc) });
  ev!("resync");
  process(P, &mut server, batch);
  check!(server == text(&doc), &format!("{P}/resync"), "after a full-document change the server has {server:?}, the editor {:?}", text(&doc));
  queries(P, &server, &doc);
}

fn main() {
  let real: &[&str] = &["apply-changes", "text-pos", "text-size-util", "line-index"];
  vsim::cli::main(&[
    vsim::cli::Prop {
      id: "D01",
      run: convergence,
      quick: 3_000_000,
      thorough_factor: 40,
      rule: "each case is one discrete-event run of an editor making up to 10 (multi-cursor) edits, a delaying and coalescing link, and a server that stalls, crashes and restarts; non-trivial: a batch held more than one change, notifications were coalesced, or the server stalled or crashed; distinct: by event-log hash",
      state_measure: "distinct server texts",
      real,
      stub: &["editor", "link", "server loop, its stalls and crashes", "clock"],
      faults: &["server stalled", "server crashed"],
      probes: &["large document", "a second document in the same server", "notifications coalesced into one batch", "full replacement inside a notification"],
      init: || {},
    },
    vsim::cli::Prop {
      id: "D02",
      run: malformed,
      quick: 3_000_000,
      thorough_factor: 40,
      rule: "each case is one run of an editor, a link that loses, repeats, reorders and corrupts, and a server, compared after every batch with a reference that skips exactly the invalid changes; non-trivial: a link fault fired; distinct: by event-log hash",
      state_measure: "distinct server texts",
      real,
      stub: &["editor", "link and its faults", "server loop"],
      faults: &["message lost", "message repeated", "messages reordered", "malformed range"],
      probes: &["large document", "a second document in the same server", "a change had to be skipped", "a batch mixed skipped and applied changes"],
      init: || {},
    },
  ])
}

//! A seeded scheduler over real threads, exactly one of which runs at any time.
//!
//! Every thread is parked except the one the scheduler chose; control changes hands only at
//! [`yield_point`]s, and who runs next is drawn from the tape.

use std::cell::Cell;
use std::panic::AssertUnwindSafe;
use std::sync::{Arc, Condvar, Mutex};

struct State {
  current: usize,
  alive: Vec<bool>,
  /// of 256: probability of considering a switch at a yield point
  rate: u64,
  /// a non-`Stop` panic that escaped a task
  escaped: Option<String>,
  abort: bool,
}

struct Shared {
  st: Mutex<State>,
  cvs: Vec<Condvar>,
  done: Condvar,
}

thread_local! {
  static ME: Cell<Option<usize>> = const { Cell::new(None) };
}
static CUR: Mutex<Option<Arc<Shared>>> = Mutex::new(None);

/// Asserts to the compiler that a value may be handed to another simulated thread.
///
/// Only one simulated thread runs at a time and every hand-over goes through a mutex, so even
/// non-atomic reference counts are never touched concurrently.
pub struct Handover<T>(pub T);
// SAFETY: see above.
unsafe impl<T> Send for Handover<T> {}
unsafe impl<T> Sync for Handover<T> {}
impl<T> Handover<T> {
  pub fn into_inner(self) -> T {
    self.0
  }
}

/// The number of the current simulated thread.
pub fn me() -> Option<usize> {
  ME.with(Cell::get)
}

fn lock(m: &Mutex<State>) -> std::sync::MutexGuard<'_, State> {
  m.lock().unwrap_or_else(std::sync::PoisonError::into_inner)
}

/// Runs the tasks to completion under a seeded schedule. `rate` of 256 is the chance that a yield
/// point considers switching.
pub fn run_tasks(rate: u64, tasks: Vec<Box<dyn FnOnce()>>) {
  let n = tasks.len();
  let shared = Arc::new(Shared {
    st: Mutex::new(State {
      current: usize::MAX,
      alive: vec![true; n],
      rate,
      escaped: None,
      abort: false,
    }),
    cvs: (0..n).map(|_| Condvar::new()).collect(),
    done: Condvar::new(),
  });
  *CUR.lock().unwrap() = Some(shared.clone());
  let mut handles = Vec::new();
  for (i, t) in tasks.into_iter().enumerate() {
    let shared = shared.clone();
    let t = Handover(t);
    let h = std::thread::Builder::new()
      .stack_size(1 << 20)
      .spawn(move || {
        let t = t.into_inner();
        ME.with(|m| m.set(Some(i)));
        {
          let mut g = lock(&shared.st);
          while g.current != i {
            g = shared.cvs[i].wait(g).unwrap_or_else(std::sync::PoisonError::into_inner);
          }
        }
        let skip = lock(&shared.st).abort;
        let res = if skip {
          drop(std::panic::catch_unwind(AssertUnwindSafe(move || drop(t))));
          Ok(())
        } else {
          std::panic::catch_unwind(AssertUnwindSafe(t))
        };
        let mut g = lock(&shared.st);
        if let Err(p) = res {
          g.abort = true;
          if !p.is::<crate::Stop>() && g.escaped.is_none() {
            g.escaped = Some(if p.is::<crate::Injected>() {
              "injected panic escaped a task".to_owned()
            } else {
              crate::last_panic()
            });
          }
        }
        g.alive[i] = false;
        ME.with(|m| m.set(None));
        let left: Vec<usize> = (0..n).filter(|&j| g.alive[j]).collect();
        if left.is_empty() {
          g.current = usize::MAX;
          shared.done.notify_all();
        } else {
          let next = if g.abort { left[0] } else { left[crate::choose(left.len())] };
          g.current = next;
          shared.cvs[next].notify_all();
        }
      })
      .expect("spawn simulated thread");
    handles.push(h);
  }
  {
    let first = crate::choose(n);
    let mut g = lock(&shared.st);
    g.current = first;
    shared.cvs[first].notify_all();
    while g.alive.iter().any(|&a| a) {
      g = shared.done.wait(g).unwrap_or_else(std::sync::PoisonError::into_inner);
    }
  }
  for h in handles {
    let _ = h.join();
  }
  *CUR.lock().unwrap() = None;
  let g = lock(&shared.st);
  if let Some(m) = &g.escaped {
    crate::violate("harness/task-panic", m.clone());
  }
  if g.abort {
    std::panic::panic_any(crate::Stop);
  }
}

/// A point at which the scheduler may hand control to another simulated thread. Does nothing when
/// called outside of one, or while unwinding.
pub fn yield_point(label: &str) {
  let Some(i) = me() else { return };
  if std::thread::panicking() || !crate::active() {
    return;
  }
  let Some(shared) = CUR.lock().unwrap().clone() else { return };
  let mut g = lock(&shared.st);
  if g.abort {
    drop(g);
    std::panic::panic_any(crate::Stop);
  }
  let others: Vec<usize> = (0..g.alive.len()).filter(|&j| j != i && g.alive[j]).collect();
  if others.is_empty() || !crate::chance(g.rate, 256) {
    return;
  }
  let next = others[crate::choose(others.len())];
  crate::ev!("switch {i}->{next} at {label}");
  crate::count_switch();
  g.current = next;
  shared.cvs[next].notify_all();
  while g.current != i {
    g = shared.cvs[i].wait(g).unwrap_or_else(std::sync::PoisonError::into_inner);
  }
  if g.abort {
    drop(g);
    std::panic::panic_any(crate::Stop);
  }
}

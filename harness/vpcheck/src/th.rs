//! Helpers of the thread families: running a scenario under a drawn schedule, and recorders.
use crate::engine::CaseOut;
use crate::tape;
use crate::val::*;
use another_rxrust::prelude::*;
use std::rc::Rc;
use vp_std::vprt;

pub const MS: u64 = 1_000_000;

pub fn key_of(s: &str) -> u64 {
  let mut h = 0xcbf29ce484222325u64;
  for b in s.bytes() {
    h = (h ^ b as u64).wrapping_mul(0x100000001b3);
  }
  tape::mix(h)
}
pub fn case_out(desc: String) -> CaseOut {
  CaseOut { key: key_of(&desc), desc, ..Default::default() }
}
/// Runs `f` as the main thread under a schedule drawn from the tape.
pub fn run_sched(mut cfg: vprt::Config, key: u64, f: impl FnOnce() + 'static) -> vprt::Outcome {
  cfg.hash_seed = key;
  tape::with(|d| d.set_policy_random());
  let ch: vprt::Chooser = Box::new(|k, n, t| tape::with(|d| d.sched(k, n, t)));
  vprt::run(cfg, Some(ch), Box::new(f))
}
pub fn spawn(f: impl FnOnce() + 'static) -> usize {
  vprt::spawn_raw(None, Box::new(f))
}
pub fn join_all(t: Vec<usize>) {
  for t in t {
    vprt::join_raw(t)
  }
}

/// One callback of a subscriber.
#[derive(Clone, Debug)]
pub struct Cb {
  pub ev: Ev,
  pub tid: usize,
  pub start: u64,
  pub end: u64,
  pub at: u64,
  /// stamp at which the emission running on this thread began (0: none known)
  pub em: u64,
}
#[derive(Default)]
pub struct RecState {
  pub cbs: Vec<Cb>,
  /// begin of the emission now running on each thread
  pub em: Vec<u64>,
}
/// A recording subscriber (also keeps the emission stamps of the scenario).
#[derive(Clone)]
pub struct Recorder(pub Sh<RecState>);
impl Recorder {
  pub fn new() -> Recorder {
    Recorder(Sh::new(RecState::default()))
  }
  pub fn hit(&self, ev: Ev) {
    let (tid, start, at) = (vprt::cur_tid(), vprt::stamp(), vprt::now());
    let i = self.0.with(|s| {
      let em = s.em.get(tid).copied().unwrap_or(0);
      s.cbs.push(Cb { ev, tid, start, end: u64::MAX, at, em });
      s.cbs.len() - 1
    });
    vprt::yield_point();
    let end = vprt::stamp();
    self.0.with(|s| s.cbs[i].end = end);
  }
  pub fn subscribe(&self, o: &Observable<'static, V>) -> Subscription<'static> {
    self.subscribe_with(o, |_| {})
  }
  /// `react` runs inside each item callback
  pub fn subscribe_with(
    &self,
    o: &Observable<'static, V>,
    react: impl Fn(&V) + 'static,
  ) -> Subscription<'static> {
    let (a, b, c) = (self.clone(), self.clone(), self.clone());
    let react = Sh(Rc::new(std::cell::RefCell::new(Rc::new(react))));
    o.subscribe(
      move |v| {
        let r = react.get();
        a.hit(Ev::N(v.clone()));
        r(&v);
      },
      move |e| b.hit(Ev::E(Er::from_rx(&e).plain())),
      move || c.hit(Ev::C),
    )
  }
  pub fn cbs(&self) -> Vec<Cb> {
    self.0.with(|s| s.cbs.clone())
  }
  /// `react` in each item callback, `end` in the terminal one; the closures carry tokens
  pub fn subscribe_all(
    &self,
    o: &Observable<'static, V>,
    react: impl Fn(&V) + 'static,
    end: impl Fn() + 'static,
  ) -> Subscription<'static> {
    let (a, b, c) = (self.clone(), self.clone(), self.clone());
    let (t1, t2, t3) = (tok(), tok(), tok());
    let react = Sh(Rc::new(std::cell::RefCell::new(Rc::new(react))));
    let end = Sh(Rc::new(std::cell::RefCell::new(Rc::new(end))));
    let end2 = end.clone();
    o.subscribe(
      move |v| {
        let _t = &t1;
        let r = react.get();
        a.hit(Ev::N(v.clone()));
        r(&v);
      },
      move |e| {
        let _t = &t2;
        let r = end.get();
        b.hit(Ev::E(Er::from_rx(&e).plain()));
        r();
      },
      move || {
        let _t = &t3;
        let r = end2.get();
        c.hit(Ev::C);
        r();
      },
    )
  }
  /// wraps an emission: remembers its beginning for callbacks on this thread
  pub fn emission<R>(&self, f: impl FnOnce() -> R) -> R {
    emission(&[self], f)
  }
}
pub fn emission<R>(rs: &[&Recorder], f: impl FnOnce() -> R) -> R {
  let tid = vprt::cur_tid();
  let st = vprt::stamp();
  let old: Vec<u64> = rs
    .iter()
    .map(|r| {
      r.0.with(|s| {
        if s.em.len() <= tid {
          s.em.resize(tid + 1, 0)
        }
        std::mem::replace(&mut s.em[tid], st)
      })
    })
    .collect();
  let r = f();
  for (x, o) in rs.iter().zip(old) {
    x.0.with(|s| s.em[tid] = o)
  }
  r
}
pub fn show_cbs(c: &[Cb]) -> String {
  let mut s = String::new();
  for x in c {
    s += &format!(" {:?}@t{}[{}..{}]", x.ev, x.tid, x.start, if x.end == u64::MAX { 0 } else { x.end });
  }
  s
}
pub fn nums(c: &[Cb]) -> Vec<i64> {
  c.iter()
    .filter_map(|x| match &x.ev {
      Ev::N(v) => Some(v.num()),
      _ => None,
    })
    .collect()
}
/// the observer contract over a recorded history; `em`: also judge emissions begun after the end
pub fn contract(c: &[Cb]) -> Option<String> {
  let terms: Vec<&Cb> = c.iter().filter(|x| x.ev.terminal()).collect();
  if terms.len() > 1 {
    return Some(format!("{} terminal events:{}", terms.len(), show_cbs(c)));
  }
  if let Some(t) = terms.first() {
    for x in c {
      if x.em != 0 && x.em > t.end {
        return Some(format!(
          "{:?} was delivered though its delivery began (at {}) after the terminal callback had returned (at {}):{}",
          x.ev,
          x.em,
          t.end,
          show_cbs(c)
        ));
      }
      if x.em == 0 && x.start > t.end && x.tid == t.tid {
        return Some(format!("{:?} delivered after the terminal on the same thread:{}", x.ev, show_cbs(c)));
      }
    }
  }
  None
}
/// the ways a subscription can be ended by its owner
pub fn unsubscribe(how: u32, s: &Subscription<'static>) {
  match how {
    0 => s.unsubscribe(),
    1 => drop(utils::Using::new(s.clone())),
    2 => {
      let x = s.clone();
      x.unsubscribe();
      x.unsubscribe();
    }
    3 => {
      let _u = utils::Using::new(s.clone());
      s.unsubscribe();
    }
    // the guard's scope is left by a panic (single-threaded families only)
    _ => {
      let s = s.clone();
      let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(move || {
        let _u = utils::Using::new(s);
        panic!("leaving the guard's scope");
      }));
      drop(r);
    }
  }
}
/// n-th item of producer p
pub fn item(p: usize, n: usize) -> V {
  V::i((p * 1000 + n) as i64)
}
pub fn of(x: i64) -> (usize, usize) {
  ((x / 1000) as usize, (x % 1000) as usize)
}

/// An instrumented source: keeps the observers it was handed, emits to them from any thread.
#[derive(Clone)]
pub struct Src {
  pub obs: Sh<Vec<(Observer<'static, V>, bool)>>,
  pub total: Sh<usize>,
}
impl Src {
  pub fn new() -> Src {
    Src { obs: Sh::new(vec![]), total: Sh::new(0) }
  }
  pub fn observable(&self) -> Observable<'static, V> {
    let s = self.clone();
    Observable::create(move |o: Observer<'static, V>| {
      s.total.with(|n| *n += 1);
      s.obs.with(|v| v.push((o, false)));
    })
  }
  pub fn live(&self) -> usize {
    let v = self.obs.get();
    v.iter().filter(|o| o.0.is_subscribed()).count()
  }
  /// emits to every observer that did not get its terminal and is subscribed
  pub fn emit(&self, ev: &Ev) {
    let snap = self.obs.get();
    for (i, (o, done)) in snap.into_iter().enumerate() {
      if done || !o.is_subscribed() {
        continue;
      }
      if ev.terminal() {
        self.obs.with(|v| v[i].1 = true);
      }
      send(&o, ev);
    }
  }
  pub fn clear(&self) {
    let v = self.obs.with(std::mem::take);
    drop(v);
  }
}
pub fn send(o: &Observer<'static, V>, ev: &Ev) {
  match ev {
    Ev::N(v) => o.next(v.clone()),
    Ev::E(e) => o.error(rx_error(e.code, e.uid)),
    Ev::C => o.complete(),
  }
}
pub fn std_duration(ms: u64) -> std::time::Duration {
  std::time::Duration::from_millis(ms)
}

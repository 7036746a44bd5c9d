//! C18: the future of to_vec, polled by several kinds of executors while a source emits.
use crate::engine::CaseOut;
use crate::tape::{self, Draw};
use crate::th::*;
use crate::val::*;
use another_rxrust::prelude::*;
use std::future::Future;
use std::pin::Pin;
use std::sync::Arc;
use std::task::{Context, Poll, Wake, Waker};
use vp_std::sync::{Condvar, Mutex, RwLock};
use vp_std::vprt;

#[derive(Clone, Copy, Debug, PartialEq)]
enum SrcKind {
  /// one thread emits through the observer it was handed
  Hot,
  /// each subscribe starts a thread
  Threaded,
  /// inside subscribe
  Sync,
  /// a plain subject
  Subject,
  /// interval(..).take(n)
  Interval,
  /// timer: one item
  Timer,
}
#[derive(Clone, Copy, Debug, PartialEq)]
enum Stage {
  Map,
  Take(usize),
  Skip(usize),
  ObserveOn,
  SubscribeOn,
  Delay(u64),
  MergeNever,
  ConcatOne,
}
#[derive(Clone, Copy, Debug, PartialEq)]
enum Exec {
  /// one waker: flag + condition variable
  Block,
  /// park / unpark
  Park,
  /// a new waker for every poll; only the last one is waited for
  NewWaker,
  /// polled once by another thread with its own waker, then handed over
  Moved,
  /// wake() polls there and then
  Inline,
  /// no waker at all: polls again and again
  Spin,
}
#[derive(Clone, Debug)]
struct Fut {
  exec: Exec,
  /// polls nobody asked for: after each of these delays (ms)
  extra: Vec<u64>,
  /// before the first poll (ms)
  delay: u64,
}
#[derive(Clone, Debug)]
struct Case {
  src: SrcKind,
  evs: Vec<Ev>,
  gaps: Vec<u64>,
  /// events a second thread (or a source that does not stop) sends
  rude: Vec<Ev>,
  rude_other: bool,
  stages: Vec<Stage>,
  futs: Vec<Fut>,
  spurious: bool,
}
impl Case {
  fn ends(&self) -> bool {
    self.expect().1.is_some() || (self.rude_other && self.rude.iter().any(|e| e.terminal()))
  }
  /// items and terminal at the future
  fn expect(&self) -> (Vec<i64>, Option<Ev>) {
    let (mut v, mut t): (Vec<i64>, Option<Ev>) = (vec![], None);
    let rude: &[Ev] = if self.rude_other { &[] } else { &self.rude };
    for e in self.evs.iter().chain(rude) {
      match e {
        Ev::N(x) => v.push(x.num()),
        e => {
          t = Some(e.clone());
          break;
        }
      }
    }
    for s in &self.stages {
      match s {
        Stage::Map => v.iter_mut().for_each(|x| *x += 1),
        Stage::Take(k) => {
          if v.len() >= *k {
            v.truncate(*k);
            t = Some(Ev::C);
          }
        }
        Stage::Skip(k) => {
          v.drain(..(*k).min(v.len()));
        }
        Stage::MergeNever => {
          if t == Some(Ev::C) {
            t = None
          }
        }
        Stage::ConcatOne => {
          if t == Some(Ev::C) {
            v.push(-7)
          }
        }
        _ => {}
      }
    }
    (v, t)
  }
  /// events reach the future within the source's call
  fn direct(&self) -> bool {
    matches!(self.src, SrcKind::Hot | SrcKind::Threaded | SrcKind::Sync | SrcKind::Subject)
      && !self.stages.iter().any(|s| matches!(s, Stage::ObserveOn | Stage::SubscribeOn | Stage::Delay(_)))
  }
}
fn gen(d: &mut Draw, small: bool) -> Case {
  let src = if small {
    *d.pick(&[SrcKind::Hot, SrcKind::Threaded, SrcKind::Sync])
  } else {
    *d.pick(&[
      SrcKind::Hot,
      SrcKind::Hot,
      SrcKind::Threaded,
      SrcKind::Threaded,
      SrcKind::Sync,
      SrcKind::Subject,
      SrcKind::Interval,
      SrcKind::Timer,
    ])
  };
  let timed = !small && d.chance(1, 3);
  let gap = |d: &mut Draw| if timed { d.below(4) as u64 } else { 0 };
  let mut n = d.below(if small { 3 } else { 5 }) as usize;
  if !small && !timed {
    n = d.burst().unwrap_or(n);
  }
  let (mut evs, mut gaps) = (vec![], vec![]);
  match src {
    SrcKind::Interval => {
      evs.extend((0..n.max(1)).map(|i| Ev::N(V::i(i as i64))));
      evs.push(Ev::C);
      gaps.push(1 + d.below(3) as u64);
    }
    SrcKind::Timer => {
      evs.push(Ev::N(V::i(-1)));
      evs.push(Ev::C);
      gaps.push(d.below(3) as u64);
    }
    _ => {
      for i in 0..n {
        evs.push(Ev::N(item(0, i)));
        gaps.push(gap(d));
      }
      match d.weighted(&[5, 4, 1]) {
        0 => evs.push(Ev::C),
        1 => evs.push(Ev::E(Er::new(d.below(3) as i64, 77))),
        _ => {}
      }
      gaps.push(gap(d));
    }
  }
  let mut rude = vec![];
  let scripted = !matches!(src, SrcKind::Interval | SrcKind::Timer);
  if scripted && d.chance(1, if small { 8 } else { 4 }) {
    for i in 0..1 + d.below(2) as usize {
      rude.push(match d.below(3) {
        0 => Ev::N(item(1, i)),
        1 => Ev::C,
        _ => Ev::E(Er::new(d.below(3) as i64, 78)),
      })
    }
  }
  let rude_other = !rude.is_empty() && matches!(src, SrcKind::Hot) && d.chance(1, 2);
  let mut stages = vec![];
  if !small && !rude_other {
    for _ in 0..d.weighted(&[5, 3, 2]) {
      stages.push(match d.below(8) {
        0 => Stage::Map,
        1 => Stage::Take(d.below(5) as usize),
        2 => Stage::Skip(d.below(3) as usize),
        3 => Stage::ObserveOn,
        4 => Stage::SubscribeOn,
        5 => Stage::Delay(d.below(3) as u64),
        6 => Stage::MergeNever,
        _ => Stage::ConcatOne,
      })
    }
  }
  // (with subscribe_on the sources are not subscribed in the order of the futures)
  let nf = if small || stages.contains(&Stage::SubscribeOn) || d.chance(3, 4) { 1 } else { 2 };
  let futs = (0..nf)
    .map(|_| Fut {
      exec: *d.pick(&[Exec::Block, Exec::Park, Exec::NewWaker, Exec::Moved, Exec::Inline, Exec::Spin]),
      extra: (0..d.weighted(&[3, 2, 1])).map(|_| gap(d)).collect(),
      delay: gap(d),
    })
    .collect();
  let spurious = !small && d.chance(1, 4);
  Case { src, evs, gaps, rude, rude_other, stages, futs, spurious }
}
#[derive(Clone, Debug, PartialEq)]
enum Res {
  Ok(Vec<i64>),
  Err(Er),
}
#[derive(Clone, Debug)]
struct PollLog {
  b: u64,
  e: u64,
  res: Option<Res>,
}
type Out = Result<Arc<RwLock<Vec<V>>>, RxError>;
type Boxed = Pin<Box<dyn Future<Output = Out>>>;
#[derive(Default)]
struct Slot {
  fut: Option<Boxed>,
  polls: Vec<PollLog>,
  buf: Option<Arc<RwLock<Vec<V>>>>,
  /// what was in the buffer when everything was over
  end: Option<Vec<i64>>,
  done: bool,
  /// a poll was asked for while one was running (inline executor)
  again: bool,
  wakes: usize,
}
fn read(b: &Arc<RwLock<Vec<V>>>) -> Vec<i64> {
  b.read().unwrap().iter().map(|v| v.num()).collect()
}
/// one poll; true: ready (now or already)
fn poll(s: &Sh<Slot>, w: &Waker) -> bool {
  let f = s.with(|s| s.fut.take());
  let mut f = match f {
    Some(f) => f,
    None => {
      return s.with(|s| {
        s.again = true;
        s.done
      })
    }
  };
  let b = vprt::stamp();
  let r = f.as_mut().poll(&mut Context::from_waker(w));
  let e = vprt::stamp();
  match r {
    Poll::Pending => {
      s.with(|s| {
        s.polls.push(PollLog { b, e, res: None });
        s.fut = Some(f);
      });
      false
    }
    Poll::Ready(r) => {
      drop(f);
      let (res, buf) = match r {
        Ok(b) => (Res::Ok(read(&b)), Some(b)),
        Err(e) => (Res::Err(Er::from_rx(&e).plain()), None),
      };
      s.with(|s| {
        s.polls.push(PollLog { b, e, res: Some(res) });
        s.buf = buf;
        s.done = true;
      });
      true
    }
  }
}
struct Signal {
  flag: Mutex<bool>,
  cv: Condvar,
}
impl Signal {
  fn new() -> Arc<Signal> {
    Arc::new(Signal { flag: Mutex::new(false), cv: Condvar::new() })
  }
  fn wait(&self) {
    let mut g = self.flag.lock().unwrap();
    while !*g {
      g = self.cv.wait(g).unwrap();
    }
    *g = false;
  }
}
impl Wake for Signal {
  fn wake(self: Arc<Self>) {
    *self.flag.lock().unwrap() = true;
    self.cv.notify_one();
  }
}
struct Parker(vp_std::thread::Thread);
impl Wake for Parker {
  fn wake(self: Arc<Self>) {
    self.0.unpark()
  }
}
/// polls on the waking thread; the slot sits on one OS thread, the marker only satisfies the trait
struct Inline(Sh<Slot>, Arc<Signal>);
impl Wake for Inline {
  fn wake(self: Arc<Self>) {
    self.0.with(|s| s.wakes += 1);
    inline_poll(&self.0, &self.1)
  }
}
fn inline_poll(s: &Sh<Slot>, sig: &Arc<Signal>) {
  let w = Waker::from(Arc::new(Inline(s.clone(), sig.clone())));
  if s.with(|s| s.done) {
    return;
  }
  loop {
    s.with(|s| s.again = false);
    let busy = s.with(|s| s.fut.is_none() && !s.done);
    if poll(s, &w) {
      sig.clone().wake();
      return;
    }
    if busy {
      // the one that polls will do it again
      return;
    }
    if !s.with(|s| s.again) {
      return;
    }
  }
}
fn execute(f: &Fut, s: Sh<Slot>, forever: bool) {
  if f.delay > 0 {
    vprt::sleep_ns(f.delay * MS);
  }
  if forever {
    // never ready: some polls, then the future is dropped
    let sig = Signal::new();
    let w = Waker::from(sig);
    for ms in f.extra.iter().chain(&[0, 20, 50]) {
      poll(&s, &w);
      vprt::sleep_ns(*ms * MS);
    }
    poll(&s, &w);
    s.with(|s| s.fut.take());
    return;
  }
  let mut extra = f.extra.clone();
  match f.exec {
    Exec::Spin => {
      let w = Waker::from(Signal::new());
      while !poll(&s, &w) {
        vprt::sleep_ns(MS / 2);
      }
    }
    Exec::Inline => {
      let sig = Signal::new();
      inline_poll(&s, &sig);
      for ms in extra {
        vprt::sleep_ns(ms * MS);
        inline_poll(&s, &sig);
      }
      sig.wait();
    }
    Exec::Park => {
      let w = Waker::from(Arc::new(Parker(vp_std::thread::current())));
      while !poll(&s, &w) {
        if let Some(ms) = extra.pop() {
          vprt::sleep_ns(ms * MS);
        } else {
          vp_std::thread::park();
        }
      }
    }
    Exec::Block | Exec::NewWaker | Exec::Moved => {
      if f.exec == Exec::Moved {
        let s2 = s.clone();
        let t = spawn(move || {
          poll(&s2, &Waker::from(Signal::new()));
        });
        vprt::join_raw(t);
        if s.with(|s| s.done) {
          return;
        }
      }
      let mut sig = Signal::new();
      loop {
        if poll(&s, &Waker::from(sig.clone())) {
          break;
        }
        if let Some(ms) = extra.pop() {
          vprt::sleep_ns(ms * MS);
        } else {
          sig.wait();
        }
        if f.exec == Exec::NewWaker {
          sig = Signal::new();
        }
      }
    }
  }
}
/// what the source did: begin and end of every call
type Log = Sh<Vec<(Ev, u64, u64, bool)>>;
fn call(log: &Log, ev: &Ev, rude: bool, f: impl FnOnce()) {
  let b = vprt::stamp();
  let i = log.with(|l| {
    l.push((ev.clone(), b, u64::MAX, rude));
    l.len() - 1
  });
  f();
  let e = vprt::stamp();
  log.with(|l| l[i].2 = e);
}
fn play(c: &Case, log: &Log, send: &dyn Fn(&Ev)) {
  for (i, e) in c.evs.iter().enumerate() {
    if c.gaps[i] > 0 {
      vprt::sleep_ns(c.gaps[i] * MS);
    }
    call(log, e, false, || send(e));
  }
  if !c.rude_other {
    for e in &c.rude {
      call(log, e, true, || send(e));
    }
  }
}
fn body(c: Case, slots: Vec<Sh<Slot>>, logs: Vec<Log>) {
  let src = Src::new();
  let sbj = subjects::Subject::<V>::new();
  let threads: Sh<Vec<usize>> = Sh::new(vec![]);
  let nth = Sh::new(0usize);
  let mut o: Observable<'static, V> = match c.src {
    SrcKind::Hot => src.observable(),
    SrcKind::Subject => sbj.observable(),
    SrcKind::Sync | SrcKind::Threaded => {
      let (c, logs, threads) = (c.clone(), logs.clone(), threads.clone());
      Observable::create(move |o: Observer<'static, V>| {
        let i = nth.with(|n| {
          *n += 1;
          *n - 1
        });
        let log = logs[i.min(logs.len() - 1)].clone();
        let c2 = c.clone();
        if c.src == SrcKind::Sync {
          play(&c2, &log, &|e| send(&o, e));
        } else {
          let t = spawn(move || play(&c2, &log, &|e| send(&o, e)));
          threads.with(|t2| t2.push(t));
        }
      })
    }
    SrcKind::Interval => observables::interval(std_duration(c.gaps[0]), schedulers::new_thread_scheduler())
      .map(|x| V::i(x as i64))
      .take(c.evs.len() - 1),
    SrcKind::Timer => {
      observables::timer(std_duration(c.gaps[0]), schedulers::new_thread_scheduler()).map(|_| V::i(-1))
    }
  };
  for s in &c.stages {
    o = match s {
      Stage::Map => o.map(|x| V::i(x.num() + 1)),
      Stage::Take(k) => o.take(*k),
      Stage::Skip(k) => o.skip(*k),
      Stage::ObserveOn => o.observe_on(schedulers::new_thread_scheduler()),
      Stage::SubscribeOn => o.subscribe_on(schedulers::new_thread_scheduler()),
      Stage::Delay(n) => o.delay(std_duration(*n)),
      Stage::MergeNever => o.merge(&[observables::never()]),
      Stage::ConcatOne => o.concat(&[observables::just(V::i(-7))]),
    }
  }
  for s in &slots {
    let f = o.to_vec();
    // the future borrows `o`, which outlives every executor (joined below)
    let f: Pin<Box<dyn Future<Output = Out> + '_>> = Box::pin(f);
    let f: Boxed = unsafe { std::mem::transmute(f) };
    s.with(|s| s.fut = Some(f));
  }
  let ends = c.ends();
  let mut execs = vec![];
  for (f, s) in c.futs.iter().zip(&slots).skip(1) {
    let (f, s) = (f.clone(), s.clone());
    execs.push(spawn(move || execute(&f, s, !ends)));
  }
  let mut prods = vec![];
  if matches!(c.src, SrcKind::Hot | SrcKind::Subject) {
    let emit: Sh<std::rc::Rc<dyn Fn(&Ev)>> = if c.src == SrcKind::Hot {
      if c.stages.contains(&Stage::SubscribeOn) {
        // the source is subscribed by another thread
        vprt::settle();
      }
      let s = src.clone();
      Sh::new(std::rc::Rc::new(move |e: &Ev| {
        for (o, _) in s.obs.get() {
          send(&o, e)
        }
      }))
    } else {
      if c.stages.contains(&Stage::SubscribeOn) {
        vprt::settle();
      }
      let s = sbj.clone();
      Sh::new(std::rc::Rc::new(move |e: &Ev| match e {
        Ev::N(v) => s.next(v.clone()),
        Ev::E(x) => s.error(x.to_rx()),
        Ev::C => s.complete(),
      }))
    };
    let (c2, log, em) = (c.clone(), logs[0].clone(), emit.clone());
    prods.push(spawn(move || {
      let f = em.get();
      play(&c2, &log, &*f)
    }));
    if c.rude_other {
      let (c2, log, em) = (c.clone(), logs[0].clone(), emit.clone());
      prods.push(spawn(move || {
        for e in &c2.rude {
          let f = em.get();
          call(&log, e, true, || f(e));
        }
      }));
    }
  }
  execute(&c.futs[0], slots[0].clone(), !ends);
  join_all(execs);
  join_all(prods);
  join_all(threads.get());
  vprt::settle();
  for s in &slots {
    let b = s.with(|s| s.buf.clone());
    if let Some(b) = b {
      let v = read(&b);
      s.with(|s| s.end = Some(v));
    }
  }
  src.clear();
}
fn run(c: Case) -> CaseOut {
  let mut o = case_out(format!("{:?}", c));
  let slots: Vec<Sh<Slot>> = c.futs.iter().map(|_| Sh::new(Slot::default())).collect();
  let logs: Vec<Log> = c.futs.iter().map(|_| Sh::new(vec![])).collect();
  let (c2, s2, l2) = (c.clone(), slots.clone(), logs.clone());
  let cfg = vprt::Config { spurious: if c.spurious { 2 } else { 0 }, ..Default::default() };
  let out = run_sched(cfg, o.key, move || body(c2, s2, l2));
  o.label(format!("source:{:?}", c.src));
  o.label(format!("executor:{:?}", c.futs[0].exec));
  if let Some(t) = out.trouble() {
    let p: Vec<String> = slots.iter().map(|s| s.with(|s| format!("{:?}", s.polls))).collect();
    o.fail(format!("{} (a future that is never woken?); polls {:?}; source {:?}", t, p, logs[0].get()));
    return o;
  }
  let shared = matches!(c.src, SrcKind::Hot | SrcKind::Subject);
  for (i, s) in slots.iter().enumerate() {
    let log = logs[if shared { 0 } else { i }].get();
    let r = s.with(|s| judge(&c, s, &log));
    if let Some(m) = r {
      let p = s.with(|s| format!("{:?} buffer at the end {:?}", s.polls, s.end));
      o.fail(format!("future {}: {}\n polls {}\n source {:?}", i, m, p, log));
      return o;
    }
    s.with(|s| {
      let n = s.polls.len();
      o.label(format!("polls:{}", n.min(4)));
      if n > 1 {
        o.nontrivial = true;
      }
      for l in &log {
        if l.0.terminal() && s.polls.iter().any(|p| p.b < l.2 && l.1 < p.e) {
          o.label("a poll overlapped the terminal");
        }
      }
    });
  }
  o
}
fn judge(c: &Case, s: &Slot, log: &[(Ev, u64, u64, bool)]) -> Option<String> {
  let (items, term) = c.expect();
  let racing = c.rude_other;
  let ready = s.polls.iter().position(|p| p.res.is_some());
  // the call that ends the stream at the future, where it is known
  let takes = c.stages.iter().any(|s| matches!(s, Stage::Take(_)));
  if !c.ends() {
    return ready.map(|r| format!("ready though nothing ended: {:?}", s.polls[r]));
  }
  let r = match ready {
    Some(r) => r,
    None => return Some("never ready".into()),
  };
  let p = &s.polls[r];
  // never before the end
  let terms: Vec<&(Ev, u64, u64, bool)> = log.iter().filter(|l| l.0.terminal()).collect();
  if !takes && matches!(c.src, SrcKind::Hot | SrcKind::Threaded | SrcKind::Sync | SrcKind::Subject) {
    match terms.iter().map(|t| t.1).min() {
      None => return Some("ready before any terminal call".into()),
      Some(t) if t > p.e => return Some("ready before the terminal call began".into()),
      _ => {}
    }
  }
  // a poll that began when the source's terminal call had returned
  if c.direct() && !terms.is_empty() && !takes {
    let over = if racing { terms.iter().map(|t| t.2).max() } else { terms.iter().map(|t| t.2).min() };
    // the events after the first terminal mean nothing, unless they race with it
    let all_over = racing && terms.len() < 1 + c.rude.iter().filter(|e| e.terminal()).count() && c.evs.iter().any(|e| e.terminal());
    if let (Some(o), false) = (over, all_over) {
      for q in &s.polls[..r] {
        if q.b > o {
          return Some(format!("a poll (at {}) after the terminal call had returned (at {}) was pending", q.b, o));
        }
      }
    }
  }
  // what it gave
  if racing {
    let first = terms.iter().map(|t| t.1).min().unwrap_or(0);
    let over = terms.iter().map(|t| t.2).min().unwrap_or(u64::MAX);
    match p.res.as_ref().unwrap() {
      Res::Ok(v) => {
        if !terms.iter().any(|t| t.0 == Ev::C) {
          return Some("Ok though no completion was sent".into());
        }
        for l in log {
          if let Ev::N(x) = &l.0 {
            let n = v.iter().filter(|y| **y == x.num()).count();
            if n > 1 || (n == 0 && l.2 < first) {
              return Some(format!("item {} is there {} times", x.num(), n));
            }
            if n > 0 && l.1 > over && terms.len() == 1 {
              return Some(format!("item {} was sent after the terminal call had returned", x.num()));
            }
          }
        }
        let mine: Vec<i64> = v.iter().copied().filter(|x| of(*x).0 == 0).collect();
        if mine.windows(2).any(|w| w[0] >= w[1]) {
          return Some(format!("out of order: {:?}", v));
        }
      }
      Res::Err(e) => {
        if !terms.iter().any(|t| t.0 == Ev::E(e.clone())) {
          return Some(format!("error {:?} was not sent", e));
        }
      }
    }
    return None;
  }
  // one thread: the first terminal counts
  let want = match term {
    Some(Ev::E(e)) => Res::Err(e),
    Some(_) => Res::Ok(items.clone()),
    None => return Some(format!("ready though nothing ended: {:?}", p)),
  };
  if *p.res.as_ref().unwrap() != want {
    return Some(format!("{:?} instead of {:?}", p.res.as_ref().unwrap(), want));
  }
  if let (Some(e), Res::Ok(v)) = (&s.end, &want) {
    if e != v {
      return Some(format!("the vector changed after the future was ready: {:?}, now {:?}", v, e));
    }
  }
  None
}
pub fn random() -> CaseOut {
  run(tape::with(|d| gen(d, false)))
}
pub fn small() -> CaseOut {
  run(tape::with(|d| gen(d, true)))
}

//! Deterministic cooperative runtime: virtual threads are coroutines on one OS thread; each
//! lock acquisition, atomic access, notify, spawn and explicit yield is a scheduling point; the
//! clock is virtual and advances only when no thread can run.
use corosensei::stack::DefaultStack;
use corosensei::{Coroutine, CoroutineResult, Yielder};
use std::cell::{Cell, RefCell};
use std::panic::{catch_unwind, resume_unwind, AssertUnwindSafe};
use std::ptr;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Kind {
  /// which thread runs next; option 0 = current thread goes on
  Preempt,
  /// current thread cannot go on: which one runs next
  Forced,
  /// which condvar waiter is woken
  Notify,
  /// 1 = wait returns spuriously
  Spurious,
}

/// (kind, number of options, thread ids of the options) -> index
pub type Chooser = Box<dyn FnMut(Kind, usize, &[usize]) -> usize>;

#[derive(Clone, Debug)]
pub struct Config {
  pub max_steps: u64,
  /// virtual nanoseconds after which sleeping threads are not resumed any more
  pub horizon: u64,
  /// how many spurious condvar wake-ups may be drawn in this run
  pub spurious: u32,
  pub hash_seed: u64,
}
impl Default for Config {
  fn default() -> Self {
    Config { max_steps: 200_000, horizon: 60_000_000_000, spurious: 0, hash_seed: 0 }
  }
}

#[derive(Clone, Debug, PartialEq)]
pub enum St {
  Runnable,
  /// waiting for a lock at this address
  Lock(usize, &'static str),
  Cv(usize, Option<u64>),
  Sleep(u64),
  Join(usize),
  Park(Option<u64>),
  Finished,
}

#[derive(Clone, Debug, Default)]
pub struct Outcome {
  /// text describing threads blocked forever on locks
  pub deadlock: Option<String>,
  pub livelock: bool,
  pub overflow: bool,
  pub panics: Vec<(usize, String)>,
  /// threads not finished at the end: (id, what they wait for)
  pub alive: Vec<(usize, String)>,
  pub main_done: bool,
  pub now: u64,
  pub steps: u64,
  pub threads: usize,
  pub switches: u64,
  /// how often at least two threads woke at the same time
  pub ties: u64,
}
impl Outcome {
  /// A problem that is one whatever the property is: the call never returned or panicked.
  pub fn trouble(&self) -> Option<String> {
    if let Some(d) = &self.deadlock {
      return Some(format!("deadlock: {}", d));
    }
    if self.livelock {
      return Some("livelock: step budget exhausted".into());
    }
    if self.overflow {
      return Some("unbounded recursion: stack exhausted".into());
    }
    if let Some((t, p)) = self.panics.first() {
      return Some(format!("panic on thread {}: {}", t, p));
    }
    if !self.main_done {
      return Some(format!("main thread never finished: {:?}", self.alive));
    }
    None
  }
}

type Co = Coroutine<(), (), (), DefaultStack>;

struct Th {
  st: St,
  /// boxed: it must not move while it runs
  co: Option<Box<Co>>,
  yielder: *const Yielder<(), ()>,
  stack_low: usize,
  name: Option<String>,
  park_token: bool,
  timed_out: bool,
  /// values of the facade's thread-locals, by address of the key
  locals: Vec<(usize, Box<dyn std::any::Any>)>,
}

struct Rt {
  threads: Vec<Th>,
  cur: usize,
  next: Option<usize>,
  now: u64,
  steps: u64,
  switches: u64,
  ties: u64,
  cfg: Config,
  spurious_left: u32,
  chooser: Option<Chooser>,
  livelock: bool,
  overflow: bool,
  stop: bool,
  aborting: bool,
  panics: Vec<(usize, String)>,
  stamp: u64,
  opts: Vec<usize>,
}

thread_local! {
  static RT: Cell<*mut Rt> = const { Cell::new(ptr::null_mut()) };
  static STACKS: RefCell<Vec<DefaultStack>> = const { RefCell::new(Vec::new()) };
  static LIVE_SYNC: Cell<i64> = const { Cell::new(0) };
  static SINGLE: Cell<bool> = const { Cell::new(false) };
}

/// alive at the same time
const MAX_THREADS: usize = 500;
const STACK: usize = 4 << 20;
const STACK_RESERVE: usize = 160 << 10;

pub(crate) fn live_add(n: i64) {
  let _ = LIVE_SYNC.try_with(|c| c.set(c.get() + n));
}
/// number of facade lock objects (Mutex/RwLock/Condvar/atomics) currently alive
pub fn live_sync() -> i64 {
  LIVE_SYNC.with(|c| c.get())
}

#[inline]
fn rt() -> Option<&'static mut Rt> {
  let p = RT.with(|c| c.get());
  if p.is_null() {
    None
  } else {
    Some(unsafe { &mut *p })
  }
}

pub fn active() -> bool {
  rt().map(|r| !r.aborting).unwrap_or(false)
}
pub(crate) fn aborting() -> bool {
  rt().map(|r| r.aborting).unwrap_or(false)
}
/// virtual nanoseconds since the start of the run
pub fn now() -> u64 {
  rt().map(|r| r.now).unwrap_or(0)
}
pub fn cur_tid() -> usize {
  rt().map(|r| r.cur).unwrap_or(0)
}
pub fn steps() -> u64 {
  rt().map(|r| r.steps).unwrap_or(0)
}
/// next value of the logical clock
pub fn stamp() -> u64 {
  match rt() {
    Some(r) => {
      r.stamp += 1;
      r.stamp
    }
    None => 0,
  }
}
pub fn hash_seed() -> u64 {
  rt().map(|r| r.cfg.hash_seed).unwrap_or(0)
}
/// threads of the run that have not finished, except the main thread (id 0) and the caller
pub fn live_threads() -> usize {
  match rt() {
    Some(r) => {
      let c = r.cur;
      r.threads.iter().enumerate().filter(|(i, t)| *i != 0 && *i != c && t.st != St::Finished).count()
    }
    None => 0,
  }
}
pub fn thread_finished(tid: usize) -> bool {
  rt().map(|r| r.threads.get(tid).map(|t| t.st == St::Finished).unwrap_or(true)).unwrap_or(true)
}
pub fn thread_name(tid: usize) -> Option<String> {
  rt().and_then(|r| r.threads.get(tid).and_then(|t| t.name.clone()))
}
/// the current virtual thread's value of the thread-local `key`; None outside a run
pub(crate) fn local(key: usize, init: &mut dyn FnMut() -> Box<dyn std::any::Any>) -> Option<*const dyn std::any::Any> {
  fn find(key: usize) -> Option<*const dyn std::any::Any> {
    let r = rt()?;
    r.threads[r.cur].locals.iter().find(|l| l.0 == key).map(|l| &*l.1 as *const _)
  }
  rt()?;
  if let Some(p) = find(key) {
    return Some(p);
  }
  let v = init();
  if let Some(r) = rt() {
    r.threads[r.cur].locals.push((key, v));
  }
  find(key)
}
/// switch scheduling points off/on (single-threaded phases of a harness)
pub fn set_single(on: bool) -> bool {
  SINGLE.with(|s| s.replace(on))
}

impl Rt {
  fn due(&self, t: &Th) -> bool {
    match t.st {
      St::Runnable => true,
      _ => false,
    }
  }
  /// fills self.opts: runnable threads, starting with `first` and then cyclically by id
  fn collect(&mut self, first: usize) -> usize {
    self.opts.clear();
    let n = self.threads.len();
    for k in 0..n {
      let i = (first + k) % n;
      if self.due(&self.threads[i]) {
        self.opts.push(i);
      }
    }
    self.opts.len()
  }
  fn choose(&mut self, kind: Kind, n: usize) -> usize {
    if n <= 1 {
      return 0;
    }
    let mut ch = self.chooser.take();
    let r = match &mut ch {
      Some(c) => {
        let opts = std::mem::take(&mut self.opts);
        let r = c(kind, n, &opts);
        self.opts = opts;
        r
      }
      None => 0,
    };
    self.chooser = ch;
    if r >= n {
      0
    } else {
      r
    }
  }
  fn wake_deadlines(&mut self) {
    let now = self.now;
    let mut woken = 0;
    for t in self.threads.iter_mut() {
      let due = match t.st {
        St::Sleep(d) => d <= now,
        St::Cv(_, Some(d)) | St::Park(Some(d)) => {
          if d <= now {
            t.timed_out = true;
            true
          } else {
            false
          }
        }
        _ => false,
      };
      if due {
        t.st = St::Runnable;
        woken += 1;
      }
    }
    if woken > 1 {
      self.ties += 1;
    }
  }
  /// earliest deadline of a sleeping thread
  fn next_deadline(&self) -> Option<u64> {
    self
      .threads
      .iter()
      .filter_map(|t| match t.st {
        St::Sleep(d) | St::Cv(_, Some(d)) | St::Park(Some(d)) => Some(d),
        _ => None,
      })
      .min()
  }
}

fn suspend_current() {
  let y = {
    let r = rt().unwrap();
    r.switches += 1;
    r.threads[r.cur].yielder
  };
  unsafe { (*y).suspend(()) };
}

fn quiet() -> bool {
  // no scheduling while a panic unwinds
  std::thread::panicking()
}

/// A scheduling point: any runnable thread may run before the caller goes on.
pub fn yield_point() {
  let r = match rt() {
    Some(r) => r,
    None => return,
  };
  if r.aborting || quiet() {
    return;
  }
  r.steps += 1;
  if r.steps > r.cfg.max_steps {
    r.livelock = true;
    r.stop = true;
    suspend_current();
    return;
  }
  let here = &r as *const _ as usize;
  let low = r.threads[r.cur].stack_low;
  if here < low + STACK_RESERVE {
    r.overflow = true;
    r.stop = true;
    suspend_current();
    return;
  }
  if r.threads.len() == 1 || SINGLE.with(|s| s.get()) {
    return;
  }
  let cur = r.cur;
  let n = r.collect(cur);
  if n <= 1 {
    return;
  }
  let k = r.choose(Kind::Preempt, n);
  let next = r.opts[k];
  if next != cur {
    r.next = Some(next);
    suspend_current();
  }
}

/// Block the current thread in state `st` until something makes it runnable again.
pub(crate) fn block(st: St) {
  let r = match rt() {
    Some(r) => r,
    None => panic!("blocking operation outside the runtime: {:?}", st),
  };
  if r.aborting {
    return;
  }
  let c = r.cur;
  r.threads[c].timed_out = false;
  r.threads[c].st = st;
  r.next = None;
  suspend_current();
}
pub(crate) fn timed_out() -> bool {
  let r = rt().unwrap();
  r.threads[r.cur].timed_out
}
pub(crate) fn can_block() -> bool {
  rt().map(|r| !r.aborting).unwrap_or(false) && !quiet()
}

pub(crate) fn wake_lock(addr: usize) {
  if let Some(r) = rt() {
    for t in r.threads.iter_mut() {
      if let St::Lock(a, _) = t.st {
        if a == addr {
          t.st = St::Runnable;
        }
      }
    }
  }
}
pub(crate) fn cv_notify(addr: usize, all: bool) {
  if let Some(r) = rt() {
    if r.aborting {
      return;
    }
    let w: Vec<usize> = (0..r.threads.len())
      .filter(|i| matches!(r.threads[*i].st, St::Cv(a, _) if a == addr))
      .collect();
    if w.is_empty() {
      return;
    }
    if all {
      for i in w {
        r.threads[i].st = St::Runnable;
      }
    } else {
      r.opts = w.clone();
      let k = r.choose(Kind::Notify, w.len());
      r.threads[w[k]].st = St::Runnable;
    }
  }
}
pub(crate) fn draw_spurious() -> bool {
  match rt() {
    Some(r) if !r.aborting && r.spurious_left > 0 => {
      r.opts.clear();
      if r.choose(Kind::Spurious, 2) == 1 {
        r.spurious_left -= 1;
        true
      } else {
        false
      }
    }
    _ => false,
  }
}
pub(crate) fn park(timeout: Option<u64>) {
  yield_point();
  if !can_block() {
    return;
  }
  let r = rt().unwrap();
  let c = r.cur;
  if !r.threads[c].park_token {
    let d = timeout.map(|t| r.now.saturating_add(t));
    block(St::Park(d));
  }
  let r = rt().unwrap();
  r.threads[c].park_token = false;
}
pub(crate) fn unpark(tid: usize) {
  yield_point();
  if let Some(r) = rt() {
    if tid < r.threads.len() {
      r.threads[tid].park_token = true;
      if let St::Park(_) = r.threads[tid].st {
        r.threads[tid].st = St::Runnable;
      }
    }
  }
}

pub fn sleep_ns(ns: u64) {
  yield_point();
  if !can_block() {
    return;
  }
  if ns == 0 {
    return;
  }
  let r = rt().unwrap();
  let d = r.now.saturating_add(ns);
  block(St::Sleep(d));
}

fn panic_text(p: &(dyn std::any::Any + Send)) -> String {
  if let Some(s) = p.downcast_ref::<&str>() {
    s.to_string()
  } else if let Some(s) = p.downcast_ref::<String>() {
    s.clone()
  } else {
    "<non-string panic>".into()
  }
}

fn add_thread(name: Option<String>, f: Box<dyn FnOnce()>) -> usize {
  let r = rt().unwrap();
  let tid = r.threads.len();
  let stack = STACKS
    .with(|s| s.borrow_mut().pop())
    .unwrap_or_else(|| DefaultStack::new(STACK).expect("stack"));
  let low = {
    use corosensei::stack::Stack;
    stack.limit().get()
  };
  let co: Co = Coroutine::with_stack(stack, move |y: &Yielder<(), ()>, ()| {
    {
      let r = rt().unwrap();
      r.threads[tid].yielder = y as *const _;
    }
    let res = catch_unwind(AssertUnwindSafe(f));
    if let Err(p) = res {
      if aborting() {
        resume_unwind(p);
      }
      let r = rt().unwrap();
      r.panics.push((tid, panic_text(&*p)));
    }
    // the main thread goes on living
    while tid != 0 && !aborting() {
      // dropped while nothing of the runtime is borrowed
      let l = rt().and_then(|r| r.threads[tid].locals.pop());
      if l.is_none() {
        break;
      }
    }
  });
  r.threads.push(Th {
    st: St::Runnable,
    co: Some(Box::new(co)),
    yielder: ptr::null(),
    stack_low: low,
    name,
    park_token: false,
    timed_out: false,
    locals: Vec::new(),
  });
  tid
}

/// Start a virtual thread; returns its id. Outside a runtime the closure runs at once.
pub fn spawn_raw(name: Option<String>, f: Box<dyn FnOnce()>) -> usize {
  if !active() {
    if aborting() {
      return usize::MAX;
    }
    f();
    return usize::MAX;
  }
  if let Some(r) = rt() {
    // threads without end: the same as steps without end
    if !r.aborting && !quiet() && r.threads.iter().filter(|t| t.st != St::Finished).count() >= MAX_THREADS {
      r.livelock = true;
      r.stop = true;
      suspend_current();
      return usize::MAX;
    }
  }
  let tid = add_thread(name, f);
  yield_point();
  tid
}
pub fn join_raw(tid: usize) {
  yield_point();
  if !can_block() {
    return;
  }
  let r = rt().unwrap();
  if tid < r.threads.len() && r.threads[tid].st != St::Finished {
    block(St::Join(tid));
  }
}

/// Let every other thread run until none can run without the clock advancing.
/// Only meaningful from the harness' main thread.
pub fn settle() {
  // sleep of zero length in virtual time: goes behind everything runnable now
  loop {
    let r = match rt() {
      Some(r) => r,
      None => return,
    };
    if r.aborting || quiet() {
      return;
    }
    let c = r.cur;
    let others = r.threads.iter().enumerate().any(|(i, t)| i != c && t.st == St::Runnable);
    if !others {
      return;
    }
    r.steps += 1;
    if r.steps > r.cfg.max_steps {
      yield_point();
      return;
    }
    let d = r.now;
    block(St::Sleep(d));
  }
}

/// Run `f` as virtual thread 0 until quiescence; returns what happened.
pub fn run(cfg: Config, chooser: Option<Chooser>, f: Box<dyn FnOnce()>) -> Outcome {
  assert!(RT.with(|c| c.get()).is_null(), "nested runtime");
  SINGLE.with(|s| s.set(false));
  let spurious_left = cfg.spurious;
  let mut rtb = Box::new(Rt {
    threads: Vec::with_capacity(8),
    cur: 0,
    next: None,
    now: 0,
    steps: 0,
    switches: 0,
    ties: 0,
    cfg,
    spurious_left,
    chooser,
    livelock: false,
    overflow: false,
    stop: false,
    aborting: false,
    panics: Vec::new(),
    stamp: 0,
    opts: Vec::new(),
  });
  let rp: *mut Rt = &mut *rtb;
  RT.with(|c| c.set(rp));
  add_thread(Some("main".into()), f);
  let r = unsafe { &mut *rp };
  r.next = Some(0);
  loop {
    if r.stop {
      break;
    }
    let next = match r.next.take() {
      Some(n) => n,
      None => {
        let n = r.collect((r.cur + 1) % r.threads.len());
        if n == 0 {
          match r.next_deadline() {
            Some(d) if d <= r.cfg.horizon => {
              if d > r.now {
                r.now = d;
              }
              r.wake_deadlines();
              continue;
            }
            _ => break,
          }
        }
        let k = r.choose(Kind::Forced, n);
        r.opts[k]
      }
    };
    r.cur = next;
    let cop: *mut Co = &mut **r.threads[next].co.as_mut().unwrap();
    match unsafe { (*cop).resume(()) } {
      CoroutineResult::Yield(()) => {}
      CoroutineResult::Return(()) => {
        let r = unsafe { &mut *rp };
        r.threads[next].st = St::Finished;
        let co = r.threads[next].co.take().unwrap();
        STACKS.with(|s| s.borrow_mut().push(co.into_stack()));
        for t in r.threads.iter_mut() {
          if t.st == St::Join(next) {
            t.st = St::Runnable;
          }
        }
      }
    }
  }
  // describe
  let mut out = Outcome {
    livelock: r.livelock,
    overflow: r.overflow,
    panics: r.panics.clone(),
    now: r.now,
    steps: r.steps,
    threads: r.threads.len(),
    switches: r.switches,
    ties: r.ties,
    main_done: r.threads[0].st == St::Finished,
    ..Default::default()
  };
  let mut dead = Vec::new();
  for (i, t) in r.threads.iter().enumerate() {
    match &t.st {
      St::Finished => {}
      St::Lock(_, what) => {
        dead.push(format!("thread {} waits for {}", i, what));
        out.alive.push((i, format!("blocked on {}", what)));
      }
      St::Cv(_, _) => out.alive.push((i, "waiting on condvar".into())),
      St::Sleep(_) => out.alive.push((i, "sleeping".into())),
      St::Join(j) => out.alive.push((i, format!("joining thread {}", j))),
      St::Park(_) => out.alive.push((i, "parked".into())),
      St::Runnable => out.alive.push((i, "runnable".into())),
    }
  }
  if !dead.is_empty() && !r.stop {
    out.deadlock = Some(dead.join("; "));
  }
  // tear down what is left
  r.aborting = true;
  for i in 0..r.threads.len() {
    r.cur = i;
    if let Some(mut co) = unsafe { (&mut (*rp).threads)[i].co.take() } {
      if co.started() {
        co.force_unwind();
        STACKS.with(|s| s.borrow_mut().push(co.into_stack()));
      } else {
        drop(co);
      }
    }
  }
  RT.with(|c| c.set(ptr::null_mut()));
  drop(rtb);
  out
}

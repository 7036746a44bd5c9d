//! C15: worker threads started for a subscription exit at most one period after it ended.
use crate::engine::CaseOut;
use crate::par::{AnySbj, SK};
use crate::tape::{self, Draw};
use crate::th::*;
use crate::val::*;
use another_rxrust::prelude::*;
use std::time::Duration;
use vp_std::vprt;

type Obl = Observable<'static, V>;
const US: u64 = 1_000;

#[derive(Clone, Debug)]
enum Leaf {
  Interval(u64),
  Timer(u64),
  /// on the subscribing thread; always followed by a take
  IntervalHere(u64, usize),
  TimerHere(u64),
  /// a harness thread per subscription
  Script(Vec<(u64, Ev)>),
  /// on the subscribing thread
  Sync(Vec<(u64, Ev)>),
  /// a subject driven during the whole case (index into Case::hot)
  Hot(usize),
  Never,
}
#[derive(Clone, Debug)]
enum Ch {
  ObserveOn,
  SubscribeOn,
  Debounce(u64),
  Timeout(u64),
  Delay(u64),
  Take(usize),
  TakeLast,
  First,
  Last,
  Map,
  Count,
  /// the k-th item becomes an error
  ErrAt(i64),
  Retry(usize),
  RetryWhen(usize),
  Resume(Pipe),
  Flat(Vec<Pipe>),
  Sample(Pipe),
  TakeUntil(Pipe),
  SkipUntil(Pipe),
  Switch(Pipe),
  Amb(Pipe),
  Merge(Pipe),
  Zip(Pipe),
  Comb(Pipe),
  Concat(Pipe),
}
#[derive(Clone, Debug)]
struct Pipe {
  leaf: Leaf,
  ch: Vec<Ch>,
}
#[derive(Clone, Debug)]
struct Case {
  pipe: Pipe,
  hot: Vec<(SK, Vec<(u64, Ev)>)>,
  /// (us after the previous subscribe returned, us until the unsubscribe, unsubscribe in the k-th item)
  subs: Vec<(u64, u64, usize)>,
  /// the subscriber sleeps this long in each item callback
  slow: u64,
  spurious: u32,
}
fn us(x: u64) -> Duration {
  Duration::from_micros(x)
}
struct G {
  hot: Vec<(SK, Vec<(u64, Ev)>)>,
  src: usize,
}
fn dur(d: &mut Draw) -> u64 {
  match d.below(3) {
    0 => 1000,
    1 => 1000 * (1 + d.below(4) as u64),
    _ => 300 + d.below(3000) as u64,
  }
}
fn script(d: &mut Draw, g: &mut G) -> Vec<(u64, Ev)> {
  let p = g.src;
  g.src += 1;
  let mut s = vec![];
  for i in 0..d.below(5) {
    let gap = if d.chance(1, 4) { 0 } else { dur(d) };
    s.push((gap, Ev::N(item(p, i as usize))));
  }
  let gap = if d.chance(1, 3) { 0 } else { dur(d) };
  match d.below(5) {
    0 | 1 => s.push((gap, Ev::C)),
    2 | 3 => s.push((gap, Ev::E(Er::new(d.below(3) as i64, 77)))),
    _ => {}
  }
  s
}
fn leaf(d: &mut Draw, g: &mut G) -> Leaf {
  match d.weighted(&[6, 4, 1, 1, 5, 1, 2, 1]) {
    0 => Leaf::Interval(dur(d)),
    1 => Leaf::Timer(dur(d)),
    2 => Leaf::IntervalHere(dur(d), 1 + d.below(3) as usize),
    3 => Leaf::TimerHere(dur(d)),
    4 => Leaf::Script(script(d, g)),
    5 => Leaf::Sync(script(d, g)),
    6 => {
      let k = *d.pick(&[SK::Plain, SK::Plain, SK::Behavior, SK::Replay, SK::Async]);
      let s = script(d, g);
      g.hot.push((k, s));
      Leaf::Hot(g.hot.len() - 1)
    }
    _ => Leaf::Never,
  }
}
fn ch(d: &mut Draw, g: &mut G, depth: usize) -> Ch {
  let n = if depth == 0 { 13 } else { 25 };
  let w = [6, 5, 5, 5, 1, 4, 1, 3, 1, 1, 1, 4, 3, 2, 2, 4, 3, 3, 2, 3, 4, 3, 2, 2, 2];
  let x = d.weighted(&w[..n]);
  match x {
    0 => Ch::ObserveOn,
    1 => Ch::SubscribeOn,
    2 => Ch::Debounce(dur(d)),
    3 => Ch::Timeout(dur(d)),
    4 => Ch::Delay(dur(d)),
    5 => Ch::Take(d.below(4) as usize),
    6 => Ch::TakeLast,
    7 => Ch::First,
    8 => Ch::Last,
    9 => Ch::Map,
    10 => Ch::Count,
    11 => Ch::ErrAt(d.below(3) as i64),
    12 => Ch::Retry(2 + d.below(2) as usize),
    13 => Ch::RetryWhen(1 + d.below(3) as usize),
    15 => {
      let n = 1 + d.below(2);
      Ch::Flat((0..n).map(|_| pipe(d, g, depth - 1)).collect())
    }
    _ => {
      let p = pipe(d, g, depth - 1);
      match x {
        14 => Ch::Resume(p),
        16 => Ch::Sample(p),
        17 => Ch::TakeUntil(p),
        18 => Ch::SkipUntil(p),
        19 => Ch::Switch(p),
        20 => Ch::Amb(p),
        21 => Ch::Merge(p),
        22 => Ch::Zip(p),
        23 => Ch::Comb(p),
        _ => Ch::Concat(p),
      }
    }
  }
}
fn pipe(d: &mut Draw, g: &mut G, depth: usize) -> Pipe {
  let l = leaf(d, g);
  let n = if depth >= 2 { 1 + d.below(3) } else { d.weighted(&[3, 3, 1]) as u32 };
  let ch = (0..n).map(|_| ch(d, g, depth)).collect();
  Pipe { leaf: l, ch }
}
fn gen(d: &mut Draw) -> Case {
  let mut g = G { hot: vec![], src: 0 };
  let pipe = pipe(d, &mut g, 2);
  let n = 1 + d.weighted(&[5, 3, 1]);
  let deep = format!("{:?}", pipe).matches("Flat").count();
  let subs = (0..n)
    .map(|_| {
      let gap = if d.chance(1, 2) { 0 } else { dur(d) * (1 + d.below(4) as u64) };
      let end = match d.below(4) {
        0 => d.below(2) as u64,
        1 if deep < 2 => dur(d) * (5 + d.below(10) as u64),
        _ => dur(d),
      };
      (gap, end, if d.chance(1, 4) { 1 + d.below(3) as usize } else { 0 })
    })
    .collect();
  let slow = if d.chance(1, 10) { dur(d) } else { 0 };
  Case { pipe, hot: g.hot, subs, slow, spurious: if d.chance(1, 3) { 2 } else { 0 } }
}
/// the smallest pipelines: every thread-creating operator, every way of ending
fn gen_small(d: &mut Draw) -> Case {
  let s = |v: Vec<(u64, Ev)>| v;
  let (i1, c, e) = (Ev::N(item(0, 0)), Ev::C, Ev::E(Er::new(0, 77)));
  let leaf = match d.below(5) {
    0 => Leaf::Interval(1000),
    1 => Leaf::Timer(1000),
    2 => Leaf::Script(s(vec![(0, i1), (0, c)])),
    3 => Leaf::Script(s(vec![(0, i1), (0, e)])),
    _ => Leaf::Sync(s(vec![(0, i1), (0, if d.chance(1, 2) { c } else { e })])),
  };
  let timer = || Pipe { leaf: Leaf::Timer(1000), ch: vec![] };
  let mut ch = vec![];
  match d.below(10) {
    0 => {}
    1 | 2 => ch.push(Ch::ObserveOn),
    3 | 4 => ch.push(Ch::SubscribeOn),
    5 | 6 => ch.push(Ch::Debounce(1000)),
    7 | 8 => ch.push(Ch::Timeout(1000)),
    _ => ch.push(Ch::Sample(Pipe { leaf: Leaf::Interval(1000), ch: vec![] })),
  }
  match d.below(8) {
    0 | 1 => {}
    2 => ch.push(Ch::First),
    3 => ch.push(Ch::TakeUntil(timer())),
    4 => ch.push(Ch::Amb(timer())),
    5 => {
      ch.push(Ch::ErrAt(0));
      ch.push(Ch::Retry(2))
    }
    6 => ch.push(Ch::Flat(vec![timer()])),
    _ => ch.push(Ch::ObserveOn),
  }
  let end = *d.pick(&[0, 1000, 2500]);
  Case { pipe: Pipe { leaf, ch }, hot: vec![], subs: vec![(0, end, d.below(2) as usize)], slow: 0, spurious: 0 }
}
/// the durations in it, whether one thread can have to sleep several of them in a row
fn scan(p: &Pipe, out: &mut Vec<u64>, nest: &mut bool, tries: &mut u64) {
  match &p.leaf {
    Leaf::Interval(d) | Leaf::Timer(d) => out.push(*d),
    Leaf::IntervalHere(d, _) | Leaf::TimerHere(d) => {
      out.push(*d);
      *nest = true
    }
    Leaf::Sync(s) => {
      if s.iter().any(|x| x.0 > 0) {
        *nest = true;
      }
      s.iter().for_each(|x| out.push(x.0))
    }
    _ => {}
  }
  for c in &p.ch {
    match c {
      Ch::Debounce(d) | Ch::Timeout(d) => out.push(*d),
      Ch::Delay(d) => {
        out.push(*d);
        *nest = true
      }
      Ch::Resume(p) | Ch::Sample(p) | Ch::TakeUntil(p) | Ch::SkipUntil(p) | Ch::Switch(p) | Ch::Amb(p) | Ch::Merge(p) | Ch::Zip(p)
      | Ch::Comb(p) | Ch::Concat(p) => scan(p, out, nest, tries),
      Ch::Flat(v) => v.iter().for_each(|p| scan(p, out, nest, tries)),
      // a retry runs inside the callback of the attempt that failed
      Ch::Retry(n) => *tries *= *n as u64,
      Ch::RetryWhen(n) => *tries *= *n as u64 + 1,
      _ => {}
    }
  }
}
#[derive(Clone)]
struct B {
  /// threads of the harness
  own: Sh<Vec<usize>>,
  hot: Sh<Vec<AnySbj>>,
}
impl B {
  fn spawn(&self, f: impl FnOnce() + 'static) {
    let t = spawn(f);
    self.own.with(|o| o.push(t))
  }
  /// threads of the library that are still alive
  fn workers(&self) -> usize {
    let mine = self.own.with(|o| o.iter().filter(|t| !vprt::thread_finished(**t)).count());
    vprt::live_threads() - mine
  }
  fn play(o: &Observer<'static, V>, s: Vec<(u64, Ev)>) {
    for (g, e) in s {
      if g > 0 {
        if !o.is_subscribed() {
          break;
        }
        vprt::sleep_ns(g * US);
      }
      if !o.is_subscribed() {
        break;
      }
      send(o, &e);
    }
  }
  fn leaf(&self, l: &Leaf) -> Obl {
    let nt = schedulers::new_thread_scheduler;
    match l {
      Leaf::Interval(d) => observables::interval(us(*d), nt()).map(|x| V::i(x as i64)),
      Leaf::Timer(d) => observables::timer(us(*d), nt()).map(|_| V::i(0)),
      Leaf::IntervalHere(d, n) => observables::interval(us(*d), schedulers::default_scheduler()).map(|x| V::i(x as i64)).take(*n),
      Leaf::TimerHere(d) => observables::timer(us(*d), schedulers::default_scheduler()).map(|_| V::i(0)),
      Leaf::Script(s) => {
        let (s, b) = (s.clone(), self.clone());
        Observable::create(move |o: Observer<'static, V>| {
          let s = s.clone();
          b.spawn(move || B::play(&o, s));
        })
      }
      Leaf::Sync(s) => {
        let s = s.clone();
        Observable::create(move |o: Observer<'static, V>| B::play(&o, s.clone()))
      }
      Leaf::Hot(i) => self.hot.with(|h| h[*i].observable()),
      Leaf::Never => observables::never(),
    }
  }
  fn build(&self, p: &Pipe) -> Obl {
    let nt = schedulers::new_thread_scheduler;
    let mut o = self.leaf(&p.leaf);
    for c in &p.ch {
      o = match c {
        Ch::ObserveOn => o.observe_on(nt()),
        Ch::SubscribeOn => o.subscribe_on(nt()),
        Ch::Debounce(d) => o.debounce(us(*d), nt()),
        Ch::Timeout(d) => o.timeout(us(*d), nt()),
        Ch::Delay(d) => o.delay(us(*d)),
        Ch::Take(n) => o.take(*n),
        Ch::TakeLast => o.take_last(2),
        Ch::First => o.first(),
        Ch::Last => o.last(),
        Ch::Map => o.map(|x| x),
        Ch::Count => o.count().map(|n| V::i(n as i64)),
        Ch::ErrAt(k) => {
          let k = *k;
          o.flat_map(move |x: V| {
            if x.num() % 1000 == k {
              observables::error(rx_error(5, 78))
            } else {
              observables::just(x)
            }
          })
        }
        Ch::Retry(n) => o.retry(*n),
        Ch::RetryWhen(n) => {
          let left = Sh::new(*n);
          o.retry_when(move |_| {
            left.with(|l| {
              let r = *l > 0;
              *l = l.saturating_sub(1);
              r
            })
          })
        }
        Ch::Resume(p) => {
          let x = self.build(p);
          o.on_error_resume_next(move |_| x.clone())
        }
        Ch::Flat(v) => {
          let v: Vec<Obl> = v.iter().map(|p| self.build(p)).collect();
          o.flat_map(move |x: V| v[(x.num().unsigned_abs() as usize) % v.len()].clone())
        }
        Ch::Sample(p) => o.sample(self.build(p)),
        Ch::TakeUntil(p) => o.take_until(self.build(p)),
        Ch::SkipUntil(p) => o.skip_until(self.build(p)),
        Ch::Switch(p) => o.switch_on_next(self.build(p)),
        Ch::Amb(p) => o.amb(&[self.build(p)]),
        Ch::Merge(p) => o.merge(&[self.build(p)]),
        Ch::Zip(p) => o.zip(&[self.build(p)]).map(|v| v[0].clone()),
        Ch::Comb(p) => o.combine_latest(&[self.build(p)], |v: Vec<V>| v[0].clone()),
        Ch::Concat(p) => o.concat(&[self.build(p)]),
      };
    }
    o
  }
}
fn labels(p: &Pipe, o: &mut CaseOut) {
  for c in &p.ch {
    let s = format!("{:?}", c);
    let n: String = s.chars().take_while(|c| c.is_alphanumeric()).collect();
    o.labels.push(format!("op:{}", n));
    match c {
      Ch::Resume(p) | Ch::Sample(p) | Ch::TakeUntil(p) | Ch::SkipUntil(p) | Ch::Switch(p) | Ch::Amb(p) | Ch::Merge(p) | Ch::Zip(p)
      | Ch::Comb(p) | Ch::Concat(p) => labels(p, o),
      Ch::Flat(v) => v.iter().for_each(|p| labels(p, o)),
      _ => {}
    }
  }
}
#[derive(Default)]
struct Res {
  /// (workers at the end, workers one period later)
  at: Vec<(usize, usize)>,
  ends: Vec<String>,
  bad: Option<String>,
}
fn run(c: Case) -> CaseOut {
  let mut o = case_out(format!("{:?}", c));
  labels(&c.pipe, &mut o);
  let res: Sh<Res> = Sh::new(Res::default());
  let (c2, r2) = (c.clone(), res.clone());
  let cfg = vprt::Config { max_steps: 3_000_000, spurious: c.spurious, ..Default::default() };
  let out = run_sched(cfg, o.key, move || {
    let c = c2;
    let (mut ds, mut nest, mut tries) = (vec![], c.slow > 0, 1);
    ds.push(c.slow);
    scan(&c.pipe, &mut ds, &mut nest, &mut tries);
    let p = US * if nest { ds.iter().sum::<u64>() * tries } else { ds.iter().copied().max().unwrap_or(0) };
    let b = B { own: Sh::new(vec![]), hot: Sh::new(c.hot.iter().map(|h| AnySbj::new(h.0)).collect()) };
    let ob = b.build(&c.pipe);
    if vprt::live_threads() != 0 {
      r2.with(|r| r.bad = Some("threads were started though nothing was subscribed".into()));
    }
    for (h, s) in b.hot.get().into_iter().zip(&c.hot) {
      let s = s.1.clone();
      b.spawn(move || {
        for (g, e) in s {
          if g > 0 {
            vprt::sleep_ns(g * US);
          }
          h.emit(&e);
        }
      });
    }
    let mut live: Vec<(u64, usize, Subscription<'static>, Sh<Option<u64>>)> = vec![];
    // ends what is due, oldest first, up to the time `until`
    let finish = |live: &mut Vec<(u64, usize, Subscription<'static>, Sh<Option<u64>>)>, until: u64| {
      live.sort_by_key(|x| (x.0, x.1));
      while let Some((t, _, _, _)) = live.first() {
        if *t > until {
          break;
        }
        let (t, _, sb, over) = live.remove(0);
        if t > vprt::now() {
          vprt::sleep_ns(t - vprt::now());
        }
        let how = over.get().is_some();
        sb.unsubscribe();
        let now = vprt::now();
        over.with(|x| {
          x.get_or_insert(now);
        });
        r2.with(|r| r.ends.push(if how { "ended by itself".into() } else { "unsubscribed".to_string() }));
      }
    };
    let mut overs = vec![];
    for (k, (gap, end, inside)) in c.subs.iter().enumerate() {
      if k > 0 {
        let t = vprt::now() + gap * US;
        finish(&mut live, t);
        if t > vprt::now() {
          vprt::sleep_ns(t - vprt::now());
        }
      }
      let over: Sh<Option<u64>> = Sh::new(None);
      let slot: Sh<Option<Subscription<'static>>> = Sh::new(None);
      let seen = Sh::new(0usize);
      let (o1, o2, o3, s2) = (over.clone(), over.clone(), over.clone(), slot.clone());
      let (inside, slow) = (*inside, c.slow);
      let sb = ob.subscribe(
        move |_| {
          if slow > 0 {
            vprt::sleep_ns(slow * US);
          }
          let n = seen.with(|s| {
            *s += 1;
            *s
          });
          if n == inside {
            if let Some(s) = s2.get() {
              s.unsubscribe();
              let now = vprt::now();
              o1.with(|x| {
                x.get_or_insert(now);
              });
            }
          }
        },
        move |_| {
          let now = vprt::now();
          o2.with(|x| {
            x.get_or_insert(now);
          });
        },
        move || {
          let now = vprt::now();
          o3.with(|x| {
            x.get_or_insert(now);
          });
        },
      );
      slot.set(Some(sb.clone()));
      overs.push((over.clone(), slot));
      live.push((vprt::now() + end * US, k, sb, over));
    }
    finish(&mut live, u64::MAX);
    let t = overs.iter().map(|x| x.0.get().unwrap_or(0)).max().unwrap_or(0);
    let before = b.workers();
    let now = vprt::now();
    if t + p > now {
      vprt::sleep_ns(t + p - now);
    }
    vprt::settle();
    let after = b.workers();
    r2.with(|r| {
      r.at.push((before, after));
      if after > 0 {
        r.bad.get_or_insert(format!(
          "{} thread(s) of the library are still alive at {} us though the last subscription ended at {} us and no period is longer than {} us",
          after,
          vprt::now() / US,
          t / US,
          p / US
        ));
      }
    });
    for (_, s) in overs {
      s.set(None);
    }
  });
  if let Some(t) = out.trouble() {
    o.fail(t);
    return o;
  }
  let r = res.with(std::mem::take);
  for e in &r.ends {
    o.labels.push(e.clone());
  }
  if let Some(b) = r.bad {
    let l: Vec<String> = out.alive.iter().map(|a| format!("t{} {}", a.0, a.1)).collect();
    o.fail(format!("{}; at the very end: {:?}", b, l));
  }
  o.nontrivial = r.at.iter().any(|a| a.0 > 0);
  o
}
pub fn random() -> CaseOut {
  run(tape::with(gen))
}
pub fn small() -> CaseOut {
  run(tape::with(gen_small))
}

/// Subscriptions made again and again: the number of threads must not grow with their number.
#[derive(Clone, Debug)]
enum Loop {
  /// the program subscribes, waits, unsubscribes
  Program { overlap: bool },
  Retry,
  RetryWhen,
  /// one inner subscription per item
  Flat,
  /// one timer per item
  Timeout(u64),
}
#[derive(Clone, Debug)]
enum End {
  Complete,
  Error,
  Unsub,
  First,
  TakeUntil,
  Amb,
}
#[derive(Clone, Debug)]
struct Rep {
  lp: Loop,
  end: End,
  rounds: usize,
  /// length of a round
  gap: u64,
  /// the thread-creating operators of a round
  ch: Vec<Ch>,
  interval: Option<u64>,
}
fn gen_rep(d: &mut Draw) -> Rep {
  let gap = dur(d);
  let mut lp = match d.below(6) {
    0 => Loop::Program { overlap: false },
    1 => Loop::Program { overlap: true },
    2 => Loop::Retry,
    3 => Loop::RetryWhen,
    4 => Loop::Flat,
    _ => Loop::Timeout(dur(d)),
  };
  let end = match lp {
    Loop::Retry | Loop::RetryWhen => End::Error,
    Loop::Timeout(_) => End::Complete,
    Loop::Flat => d.pick(&[End::Complete, End::First, End::TakeUntil, End::Amb]).clone(),
    _ => d.pick(&[End::Complete, End::Error, End::Unsub, End::First, End::TakeUntil, End::Amb]).clone(),
  };
  let n = 1 + d.below(3);
  let mut ch: Vec<Ch> = (0..n)
    .map(|_| match d.below(4) {
      0 => Ch::ObserveOn,
      1 => Ch::SubscribeOn,
      2 => Ch::Debounce(dur(d)),
      _ => Ch::Timeout(dur(d)),
    })
    .collect();
  let interval = if d.chance(1, 3) { Some(dur(d)) } else { None };
  let rounds = 46 + d.below(10) as usize;
  // Threads of a round are there for a few of its periods after its end, so that rounds overlap.
  // The first half of all rounds must be long enough to see all of that.
  let mut sum = interval.unwrap_or(0);
  if let Loop::Timeout(x) = &lp {
    sum += x
  }
  for c in &ch {
    if let Ch::Debounce(x) | Ch::Timeout(x) = c {
      sum += x
    }
  }
  let gap = gap.max(sum * 12 / rounds as u64);
  if let Loop::Timeout(x) = &mut lp {
    *x += gap + 1
  }
  for c in &mut ch {
    if let Ch::Timeout(x) = c {
      *x += gap * 2
    }
  }
  Rep { lp, end, rounds, gap, ch, interval }
}
pub fn repeat() -> CaseOut {
  let c = tape::with(gen_rep);
  let mut o = case_out(format!("{:?}", c));
  o.labels.push(format!("end:{:?}", c.end));
  o.labels.push(format!("loop:{}", format!("{:?}", c.lp).split([' ', '(']).next().unwrap()));
  let res: Sh<(Vec<usize>, usize)> = Sh::new((vec![], 0));
  let (c2, r2) = (c.clone(), res.clone());
  let cfg = vprt::Config { max_steps: 2_000_000, ..Default::default() };
  let out = run_sched(cfg, o.key, move || {
    let c = c2;
    let b = B { own: Sh::new(vec![]), hot: Sh::new(vec![]) };
    // one round: a source that emits, then ends at `gap` (or never), below the operators
    let mut s = vec![(c.gap / 2, Ev::N(item(0, 1)))];
    match c.end {
      End::Complete => s.push((c.gap - c.gap / 2, Ev::C)),
      End::Error => s.push((c.gap - c.gap / 2, Ev::E(Er::new(1, 7)))),
      _ => {}
    }
    let timer = Pipe { leaf: Leaf::Timer(c.gap), ch: vec![] };
    let mut round = Pipe { leaf: Leaf::Script(s), ch: vec![] };
    if let Some(d) = c.interval {
      round.ch.push(Ch::Comb(Pipe { leaf: Leaf::Interval(d), ch: vec![] }));
      if matches!(c.end, End::Complete) {
        // combine_latest waits for both
        round.ch.push(Ch::TakeUntil(timer.clone()));
      }
    }
    round.ch.extend(c.ch.iter().cloned());
    match c.end {
      End::First => round.ch.push(Ch::First),
      End::TakeUntil => round.ch.push(Ch::TakeUntil(timer)),
      End::Amb => {
        // one of them is a loser with a thread
        round.ch.push(Ch::Amb(timer));
        round.ch.push(Ch::First);
      }
      _ => {}
    }
    let (mut ds, mut nest, mut tries) = (vec![c.gap], false, 1);
    scan(&round, &mut ds, &mut nest, &mut tries);
    let gaps: Vec<(u64, Ev)> = (0..c.rounds).map(|i| (c.gap, Ev::N(item(1, i)))).collect();
    let log = Sh::new(vec![]);
    let watch = |rounds: usize| {
      for _ in 0..rounds * 2 {
        vprt::sleep_ns(c.gap * US / 2);
        vprt::settle();
        let w = b.workers();
        log.with(|l| l.push(w));
      }
    };
    let go = |o: Obl| o.subscribe(|_| {}, |_| {}, || {});
    let sb = match &c.lp {
      Loop::Program { overlap } => {
        let ob = b.build(&round);
        let mut old: Vec<Subscription<'static>> = vec![];
        for _ in 0..c.rounds {
          old.push(go(ob.clone()));
          if *overlap && old.len() > 1 {
            old.remove(0).unsubscribe();
          }
          watch(1);
          if !overlap {
            old.remove(0).unsubscribe();
          }
        }
        old.pop()
      }
      Loop::Retry => Some(go(b.build(&round).retry(0))),
      Loop::RetryWhen => Some(go(b.build(&round).retry_when(|_| true))),
      Loop::Flat => {
        let inner = b.build(&round);
        Some(go(b.leaf(&Leaf::Script(gaps)).flat_map(move |_| inner.clone())))
      }
      Loop::Timeout(d) => {
        ds.push(*d);
        Some(go(b.leaf(&Leaf::Script(gaps)).timeout(us(*d), schedulers::new_thread_scheduler())))
      }
    };
    if !matches!(c.lp, Loop::Program { .. }) {
      watch(c.rounds);
    }
    if let Some(sb) = sb {
      sb.unsubscribe();
    }
    vprt::sleep_ns(*ds.iter().max().unwrap() * US);
    vprt::settle();
    let after = b.workers();
    r2.set((log.get(), after));
  });
  if let Some(t) = out.trouble() {
    o.fail(t);
    return o;
  }
  let (log, after) = res.get();
  if after > 0 {
    o.fail(format!("{} threads of the library are still alive one period after the last subscription ended", after));
    return o;
  }
  let n = log.len();
  let early = log[..n / 2].iter().copied().max().unwrap_or(0);
  let late = log[n * 3 / 4..].iter().copied().min().unwrap_or(0);
  if late > early + c.rounds / 10 {
    o.fail(format!(
      "threads accumulate: up to {} of the library were alive during the first half of {} rounds, at least {} during the last quarter",
      early, c.rounds, late
    ));
  }
  o.nontrivial = early > 0;
  o
}

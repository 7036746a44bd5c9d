//! Random pipelines whose sources emit on different threads: the concurrent families of C05, C06,
//! C07, C15, C17 and C19.
use crate::engine::CaseOut;
use crate::tape::{self, Draw};
use crate::th::*;
use crate::val::*;
use another_rxrust::prelude::*;
use vp_std::vprt;

type Obl = Observable<'static, V>;

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum U {
  Map,
  Filter,
  Take(usize),
  Skip(usize),
  TakeLast(usize),
  SkipLast(usize),
  TakeWhile,
  SkipWhile,
  First,
  Last,
  ElementAt(usize),
  Distinct,
  Scan,
  Reduce,
  Count,
  Sum,
  SumAndCount,
  Min,
  Max,
  All,
  Contains,
  DefaultIfEmpty,
  IgnoreElements,
  StartWith,
  Buffer(usize),
  MatDemat,
  Tap,
  ToAny,
  ObserveOn,
  SubscribeOn,
  Debounce(u64),
  Timeout(u64),
  Delay(u64),
  Timestamp,
  TimeInterval,
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum M {
  Merge,
  Concat,
  Amb,
  Zip,
  Comb,
  SeqEq,
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Tr {
  TakeUntil,
  SkipUntil,
  Sample,
  Switch,
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum SK {
  Plain,
  Behavior,
  Replay,
  Async,
}
#[derive(Clone, Debug)]
pub enum P {
  /// harness source (driver threads)
  Src(usize),
  /// subject (driver threads)
  Sbj(SK, usize),
  /// spawns its own thread per subscription
  Cold(usize),
  /// emits while being subscribed
  Sync(usize),
  /// spawns a thread that emits until it sees the end
  Endless(usize),
  IterSubOn(usize),
  Interval(u64),
  Timer(u64),
  Just,
  Never,
  Empty,
  Un(U, Box<P>),
  Multi(M, Vec<P>),
  Trig(Tr, Box<P>, Box<P>),
  Flat(Box<P>, Vec<P>),
  Resume(Box<P>, Box<P>),
  Retry(usize, Box<P>),
  RetryWhen(usize, Box<P>),
  Share(bool, Box<P>),
  Window(usize, Box<P>),
  Group(Box<P>),
}
pub type Script = Vec<(u64, Ev)>;
#[derive(Clone, Debug, Default)]
pub struct Case {
  pub tree: Option<P>,
  /// per driven source: one script per driver thread
  pub driven: Vec<Vec<Script>>,
  pub kinds: Vec<Option<SK>>,
  pub cold: Vec<Script>,
  /// (who: 0 main, 1 thread, 2 in the k-th item callback, 3 in the terminal callback; ms or k)
  pub unsub: Vec<(u32, u64)>,
  pub subs: usize,
  /// the way of unsubscribing (th::unsubscribe)
  pub how: u32,
  /// the driver threads emit even when they see the end, and after terminals
  pub rude: bool,
}
#[derive(Clone, Copy)]
pub struct Cfg {
  pub depth: usize,
  pub max_src: usize,
  /// library threads: interval, timer, observe_on, subscribe_on, debounce, timeout, delay
  pub timed: bool,
  pub share: bool,
  pub unsub: (u32, u32),
  pub multi: bool,
}
struct G<'a> {
  d: &'a mut Draw,
  c: Case,
  cfg: Cfg,
  gaps: bool,
}
impl G<'_> {
  fn script(&mut self, p: usize, base: usize, max: u32) -> Script {
    let n = self.d.below(max + 1) as usize;
    let mut v = vec![];
    for i in 0..n {
      let g = self.gap();
      v.push((g, Ev::N(item(p, base + i))));
      if self.c.rude && self.d.chance(1, 8) {
        let t = self.term(p);
        v.push((0, t));
      }
    }
    let g = self.gap();
    match self.d.weighted(&[4, 2, 3]) {
      0 => v.push((g, Ev::C)),
      1 => {
        let t = Ev::E(Er::new(self.d.below(3) as i64, 500 + p as u64));
        v.push((g, t))
      }
      _ => {}
    }
    v
  }
  fn term(&mut self, p: usize) -> Ev {
    if self.d.chance(1, 2) {
      Ev::E(Er::new(self.d.below(3) as i64, 600 + p as u64))
    } else {
      Ev::C
    }
  }
  fn gap(&mut self) -> u64 {
    if self.gaps {
      self.d.below(4) as u64
    } else {
      0
    }
  }
  fn leaf(&mut self, fin: bool) -> P {
    let timed = self.cfg.timed as u32;
    let nd = self.c.driven.len();
    let full = nd >= self.cfg.max_src;
    match self.d.weighted(&[
      if full { 0 } else { 10 },
      if full { 0 } else { 5 },
      if full { 8 } else { 2 },
      2,
      if fin { 0 } else { 1 },
      timed * 2,
      if fin { 0 } else { timed * 2 },
      timed,
      1,
      1,
      1,
      if nd > 0 { 2 } else { 0 },
    ]) {
      0 => {
        let two = self.d.chance(1, 6) as usize;
        let mut v = vec![];
        for k in 0..=two {
          v.push(self.script(nd, k * 100, 3))
        }
        self.c.driven.push(v);
        self.c.kinds.push(None);
        P::Src(nd)
      }
      1 => {
        let k = match self.d.weighted(&[6, 1, 1, 1]) {
          0 => SK::Plain,
          1 => SK::Behavior,
          2 => SK::Replay,
          _ => SK::Async,
        };
        let two = self.d.chance(1, 3) as usize;
        let mut v = vec![];
        for k in 0..=two {
          v.push(self.script(nd, k * 100, 3))
        }
        self.c.driven.push(v);
        self.c.kinds.push(Some(k));
        P::Sbj(k, nd)
      }
      2 | 3 => {
        let p = 50 + self.c.cold.len();
        let s = self.script(p, 0, 3);
        self.c.cold.push(s);
        if self.d.chance(1, 3) {
          P::Sync(self.c.cold.len() - 1)
        } else {
          P::Cold(self.c.cold.len() - 1)
        }
      }
      4 => P::Endless(1 + self.d.below(2) as usize),
      5 => P::IterSubOn(self.d.below(4) as usize),
      6 => P::Interval(2 + self.d.below(3) as u64),
      7 => P::Timer(1 + self.d.below(4) as u64),
      8 => P::Just,
      9 => P::Never,
      10 => P::Empty,
      _ => {
        // a driven source used twice
        let i = self.d.below(nd as u32) as usize;
        match self.c.kinds[i] {
          None => P::Src(i),
          Some(k) => P::Sbj(k, i),
        }
      }
    }
  }
  fn unary(&mut self) -> U {
    let t = if self.cfg.timed { 3 } else { 0 };
    match self.d.weighted(&[
      2, 2, 4, 1, 1, 1, 2, 1, 2, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, t, t, t, t, t / 3, 1, 1,
    ]) {
      0 => U::Map,
      1 => U::Filter,
      2 => U::Take(1 + self.d.below(3) as usize),
      3 => U::Skip(self.d.below(3) as usize),
      4 => U::TakeLast(1 + self.d.below(2) as usize),
      5 => U::SkipLast(1 + self.d.below(2) as usize),
      6 => U::TakeWhile,
      7 => U::SkipWhile,
      8 => U::First,
      9 => U::Last,
      10 => U::ElementAt(1 + self.d.below(3) as usize),
      11 => U::Distinct,
      12 => U::Scan,
      13 => U::Reduce,
      14 => U::Count,
      15 => U::Sum,
      16 => U::SumAndCount,
      17 => U::Min,
      18 => U::Max,
      19 => U::All,
      20 => U::Contains,
      21 => U::DefaultIfEmpty,
      22 => U::IgnoreElements,
      23 => U::StartWith,
      24 => U::Buffer(1 + self.d.below(3) as usize),
      25 => U::MatDemat,
      26 => U::Tap,
      27 => U::ToAny,
      28 => U::ObserveOn,
      29 => U::SubscribeOn,
      30 => U::Debounce(2 + self.d.below(3) as u64),
      31 => U::Timeout(2 + self.d.below(4) as u64),
      32 => U::Delay(1 + self.d.below(2) as u64),
      33 => U::Timestamp,
      _ => U::TimeInterval,
    }
  }
  fn node(&mut self, depth: usize, fin: bool) -> P {
    if depth == 0 {
      return self.leaf(fin);
    }
    let sh = if self.cfg.share { 2 } else { 0 };
    match self.d.weighted(&[10, 9, 7, 3, 1, 1, 1, sh, 1, 1, 2]) {
      0 => {
        let u = self.unary();
        let f = fin && !matches!(u, U::Take(_) | U::First | U::ElementAt(_));
        P::Un(u, Box::new(self.node(depth - 1, f)))
      }
      1 => {
        let m = *self.d.pick(&[M::Merge, M::Zip, M::Amb, M::Concat, M::Comb, M::SeqEq]);
        let n = 2 + self.d.weighted(&[4, 1]);
        P::Multi(m, (0..n).map(|_| self.node(depth - 1, fin)).collect())
      }
      2 => {
        let t = *self.d.pick(&[Tr::TakeUntil, Tr::SkipUntil, Tr::Sample, Tr::Switch]);
        let a = self.node(depth - 1, fin);
        P::Trig(t, Box::new(a), Box::new(self.node(depth - 1, fin)))
      }
      3 => {
        let a = self.node(depth - 1, fin);
        let n = 1 + self.d.below(2) as usize;
        P::Flat(Box::new(a), (0..n).map(|_| self.node(depth - 1, true)).collect())
      }
      4 => {
        let a = self.node(depth - 1, fin);
        P::Resume(Box::new(a), Box::new(self.node(depth - 1, fin)))
      }
      5 => P::Retry(1 + self.d.below(3) as usize, Box::new(self.node(depth - 1, true))),
      6 => P::RetryWhen(1 + self.d.below(3) as usize, Box::new(self.node(depth - 1, true))),
      7 => P::Share(self.d.chance(1, 2), Box::new(self.node(depth - 1, fin))),
      8 => P::Window(1 + self.d.below(2) as usize, Box::new(self.node(depth - 1, fin))),
      9 => P::Group(Box::new(self.node(depth - 1, fin))),
      _ => self.leaf(fin),
    }
  }
}
pub fn gen(d: &mut Draw, cfg: Cfg) -> Case {
  let gaps = d.chance(1, 3);
  let rude = d.chance(1, 3);
  let mut g = G { d, c: Case { rude, ..Default::default() }, cfg, gaps };
  let depth = 1 + g.d.below(cfg.depth as u32) as usize;
  let mut t = g.node(depth, false);
  if cfg.multi && g.c.driven.len() + g.c.cold.len() < 2 {
    let m = *g.d.pick(&[M::Merge, M::Zip, M::Amb, M::Comb]);
    let other = g.leaf(false);
    t = P::Multi(m, vec![t, other]);
  }
  g.c.tree = Some(t);
  if g.d.chance(cfg.unsub.0, cfg.unsub.1) {
    let who = g.d.below(4);
    let at = g.d.below(if who == 2 { 3 } else { 6 }) as u64;
    g.c.unsub.push((who, at));
    while g.c.unsub.len() < 3 && g.d.chance(1, 4) {
      // a concurrent or repeated one
      let who = g.d.below(4);
      let at = g.d.below(if who == 2 { 3 } else { 6 }) as u64;
      g.c.unsub.push((who, at));
    }
    g.c.how = g.d.weighted(&[3, 1, 1, 1]) as u32;
  }
  g.c.subs = 1 + g.d.chance(1, 6) as usize;
  g.c
}
/// what is allowed to notice the end only at its next emission
fn lazy(t: &P) -> bool {
  match t {
    P::Multi(M::Amb, _) | P::Trig(Tr::Switch, ..) => true,
    P::Un(_, a) | P::Retry(_, a) | P::RetryWhen(_, a) | P::Share(_, a) | P::Window(_, a) | P::Group(a) => lazy(a),
    P::Multi(_, v) => v.iter().any(lazy),
    P::Trig(_, a, b) | P::Resume(a, b) => lazy(a) || lazy(b),
    P::Flat(a, v) => lazy(a) || v.iter().any(lazy),
    _ => false,
  }
}
pub fn names(t: &P, out: &mut Vec<String>) {
  let s = format!("{:?}", t);
  let n = s.split(|c: char| !c.is_alphanumeric()).next().unwrap_or("").to_string();
  match t {
    P::Un(u, a) => {
      let s = format!("{:?}", u);
      out.push(s.split('(').next().unwrap().to_string());
      names(a, out)
    }
    P::Multi(m, v) => {
      out.push(format!("{:?}", m));
      v.iter().for_each(|x| names(x, out))
    }
    P::Trig(m, a, b) => {
      out.push(format!("{:?}", m));
      names(a, out);
      names(b, out)
    }
    P::Flat(a, v) => {
      out.push(n);
      names(a, out);
      v.iter().for_each(|x| names(x, out))
    }
    P::Resume(a, b) => {
      out.push(n);
      names(a, out);
      names(b, out)
    }
    P::Retry(_, a) | P::RetryWhen(_, a) | P::Share(_, a) | P::Window(_, a) | P::Group(a) => {
      out.push(n);
      names(a, out)
    }
    _ => out.push(n),
  }
}

/// first value of the behaviour subjects
pub const BEHAVIOR_INIT: i64 = 40_000;
#[derive(Clone)]
pub enum AnySbj {
  P(subjects::Subject<'static, V>),
  B(subjects::BehaviorSubject<'static, V>),
  R(subjects::ReplaySubject<'static, V>),
  A(subjects::AsyncSubject<'static, V>),
}
impl AnySbj {
  pub fn new(k: SK) -> AnySbj {
    match k {
      SK::Plain => AnySbj::P(subjects::Subject::new()),
      SK::Behavior => AnySbj::B(subjects::BehaviorSubject::new(V::i(BEHAVIOR_INIT))),
      SK::Replay => AnySbj::R(subjects::ReplaySubject::new()),
      SK::Async => AnySbj::A(subjects::AsyncSubject::new()),
    }
  }
  pub fn observable(&self) -> Obl {
    match self {
      AnySbj::P(s) => s.observable(),
      AnySbj::B(s) => s.observable(),
      AnySbj::R(s) => s.observable(),
      AnySbj::A(s) => s.observable(),
    }
  }
  pub fn emit(&self, ev: &Ev) {
    match ev {
      Ev::N(v) => match self {
        AnySbj::P(s) => s.next(v.clone()),
        AnySbj::B(s) => s.next(v.clone()),
        AnySbj::R(s) => s.next(v.clone()),
        AnySbj::A(s) => s.next(v.clone()),
      },
      Ev::E(e) => {
        let e = rx_error(e.code, e.uid);
        match self {
          AnySbj::P(s) => s.error(e),
          AnySbj::B(s) => s.error(e),
          AnySbj::R(s) => s.error(e),
          AnySbj::A(s) => s.error(e),
        }
      }
      Ev::C => match self {
        AnySbj::P(s) => s.complete(),
        AnySbj::B(s) => s.complete(),
        AnySbj::R(s) => s.complete(),
        AnySbj::A(s) => s.complete(),
      },
    }
  }
}
type Obs = Sh<Vec<(String, Observer<'static, V>)>>;
#[derive(Clone)]
struct B {
  c: Sh<Case>,
  srcs: Sh<Vec<Option<Src>>>,
  sbjs: Sh<Vec<Option<AnySbj>>>,
  recs: Sh<Vec<Recorder>>,
  /// observers of the cold sources
  obs: Obs,
}
impl B {
  fn emission<R>(&self, f: impl FnOnce() -> R) -> R {
    let r = self.recs.get();
    let v: Vec<&Recorder> = r.iter().collect();
    emission(&v, f)
  }
  fn cold(&self, i: usize, sync: bool) -> Obl {
    let b = self.clone();
    let t = tok();
    Observable::create(move |s: Observer<'static, V>| {
      let _t = &t;
      b.obs.with(|o| o.push((format!("cold {}", i), s.clone())));
      let (script, rude) = b.c.with(|c| (c.cold[i].clone(), c.rude));
      let b2 = b.clone();
      let body = move || {
        for (g, ev) in script {
          if g > 0 {
            vprt::sleep_ns(g * MS)
          }
          if !rude && !s.is_subscribed() {
            return;
          }
          b2.emission(|| send(&s, &ev));
          if ev.terminal() && !rude {
            return;
          }
        }
      };
      if sync {
        body()
      } else {
        spawn(body);
      }
    })
  }
  fn build(&self, p: &P) -> Obl {
    let new = schedulers::new_thread_scheduler;
    match p {
      P::Src(i) => self.srcs.with(|s| s[*i].clone()).unwrap().observable(),
      P::Sbj(_, i) => self.sbjs.with(|s| s[*i].clone()).unwrap().observable(),
      P::Cold(i) => self.cold(*i, false),
      P::Sync(i) => self.cold(*i, true),
      P::Endless(ms) => {
        let (b, ms, t) = (self.clone(), *ms, tok());
        Observable::create(move |s: Observer<'static, V>| {
          let _t = &t;
          b.obs.with(|o| o.push(("endless".into(), s.clone())));
          let b = b.clone();
          spawn(move || {
            let mut n = 0;
            while s.is_subscribed() && n < 500 {
              b.emission(|| s.next(item(45, n)));
              n += 1;
              vprt::sleep_ns(ms as u64 * MS);
            }
          });
        })
      }
      P::IterSubOn(n) => observables::from_iter((0..*n).map(|i| item(46, i)).collect::<Vec<V>>().into_iter()).subscribe_on(new()),
      P::Interval(ms) => observables::interval(std_duration(*ms), new()).map(|x| item(47, x as usize)),
      P::Timer(ms) => observables::timer(std_duration(*ms), new()).map(|_| item(48, 0)),
      P::Just => observables::just(item(49, 0)),
      P::Never => observables::never(),
      P::Empty => observables::empty(),
      P::Un(u, a) => apply(u, self.build(a)),
      P::Multi(m, v) => {
        let mut k: Vec<Obl> = v.iter().map(|x| self.build(x)).collect();
        let rest = k.split_off(1);
        let a = k.pop().unwrap();
        match m {
          M::Merge => a.merge(&rest),
          M::Concat => a.concat(&rest),
          M::Amb => a.amb(&rest),
          M::Zip => a.zip(&rest).map(V::l),
          M::Comb => {
            let t = tok();
            a.combine_latest(&rest, move |v| {
              let _t = &t;
              V::l(v)
            })
          }
          M::SeqEq => a.sequence_equal(&rest).map(V::b),
        }
      }
      P::Trig(t, a, b) => {
        let (a, b) = (self.build(a), self.build(b));
        match t {
          Tr::TakeUntil => a.take_until(b),
          Tr::SkipUntil => a.skip_until(b),
          Tr::Sample => a.sample(b),
          Tr::Switch => a.switch_on_next(b),
        }
      }
      P::Flat(a, v) => {
        let inner: Vec<Obl> = v.iter().map(|x| self.build(x)).collect();
        let t = tok();
        self.build(a).flat_map(move |x| {
          let _t = &t;
          inner[x.num().rem_euclid(inner.len() as i64) as usize].clone()
        })
      }
      P::Resume(a, b) => {
        let (b, t) = (self.build(b), tok());
        self.build(a).on_error_resume_next(move |_| {
          let _t = &t;
          b.clone()
        })
      }
      P::Retry(n, a) => self.build(a).retry(*n),
      P::RetryWhen(n, a) => {
        let (left, t) = (Sh::new(*n), tok());
        self.build(a).retry_when(move |_| {
          let _t = &t;
          left.with(|l| {
            let r = *l > 0;
            *l = l.saturating_sub(1);
            r
          })
        })
      }
      P::Share(r, a) => {
        let a = self.build(a);
        if *r {
          a.replay().observable()
        } else {
          a.ref_count().observable()
        }
      }
      P::Window(n, a) => {
        let t = tok();
        self.build(a).window_with_count(*n).flat_map(move |w| {
          let _t = &t;
          w
        })
      }
      P::Group(a) => {
        let (t, t2) = (tok(), tok());
        self
          .build(a)
          .group_by(move |v| {
            let _t = &t;
            v.num() % 2
          })
          .flat_map(move |w| {
            let _t = &t2;
            w
          })
      }
    }
  }
}
pub fn apply(u: &U, a: Obl) -> Obl {
  let new = schedulers::new_thread_scheduler;
  let t = tok();
  match u {
    U::Map => a.map(move |x: V| {
      let _t = &t;
      x
    }),
    U::Filter => a.filter(move |x| {
      let _t = &t;
      x.num() % 3 != 0
    }),
    U::Take(n) => a.take(*n),
    U::Skip(n) => a.skip(*n),
    U::TakeLast(n) => a.take_last(*n),
    U::SkipLast(n) => a.skip_last(*n),
    U::TakeWhile => a.take_while(move |x| {
      let _t = &t;
      x.num() % 4 != 2
    }),
    U::SkipWhile => a.skip_while(move |x| {
      let _t = &t;
      x.num() % 2 == 0
    }),
    U::First => a.first(),
    U::Last => a.last(),
    U::ElementAt(n) => a.element_at(*n),
    U::Distinct => a.distinct_until_changed(),
    U::Scan => a.scan(move |(x, y)| {
      let _t = &t;
      V::i(x.num() + y.num())
    }),
    U::Reduce => a.reduce(move |(x, y)| {
      let _t = &t;
      V::i(x.num() + y.num())
    }),
    U::Count => a.count().map(|n| V::i(n as i64)),
    U::Sum => a.sum(),
    U::SumAndCount => a.sum_and_count().map(|(s, n)| V::new(K::P(Box::new(s), n))),
    U::Min => a.min(),
    U::Max => a.max(),
    U::All => a
      .all(move |x| {
        let _t = &t;
        x.num() % 3 != 2
      })
      .map(V::b),
    U::Contains => a.contains(item(0, 1)).map(V::b),
    U::DefaultIfEmpty => a.default_if_empty(item(44, 0)),
    U::IgnoreElements => a.ignore_elements(),
    U::StartWith => a.start_with(vec![item(43, 0), item(43, 1)].into_iter()),
    U::Buffer(n) => a.buffer_with_count(*n).map(V::l),
    U::MatDemat => a.materialize().dematerialize(),
    U::Tap => a.tap(
      move |_| {
        let _t = &t;
      },
      |_| {},
      || {},
    ),
    U::ToAny => a.map_to_any().map(|x| x.downcast_ref::<V>().cloned().unwrap_or_else(|| item(42, 0))),
    U::ObserveOn => a.observe_on(new()),
    U::SubscribeOn => a.subscribe_on(new()),
    U::Debounce(ms) => a.debounce(std_duration(*ms), new()),
    U::Timeout(ms) => a.timeout(std_duration(*ms), new()),
    U::Delay(ms) => a.delay(std_duration(*ms)),
    U::Timestamp => a.timestamp().map(|x| x.1),
    U::TimeInterval => a.time_interval().map(|_| item(41, 0)),
  }
}
/// number of locks that go when a used subject without observers is dropped
pub fn own_locks(k: SK) -> i64 {
  let s = AnySbj::new(k);
  let mk = || s.observable().subscribe(|_| {}, |_| {}, || {}).unsubscribe();
  mk();
  s.emit(&Ev::N(item(39, 0)));
  mk();
  s.emit(&Ev::C);
  mk();
  let a = vprt::live_sync();
  drop(s);
  a - vprt::live_sync()
}
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Aim {
  Contract,
  Unsub,
  Teardown,
  Blocked,
  Threads,
  Leak,
}
#[derive(Default)]
struct Res {
  fails: Vec<(Aim, String)>,
  nontrivial: bool,
  labels: Vec<String>,
}
pub fn scenario(c: Case, aim: Aim) -> CaseOut {
  let mut o = case_out(format!("{:?}", c));
  let res = Sh::new(Res::default());
  let res2 = res.clone();
  let before = live();
  let c2 = c.clone();
  let out = run_sched(vprt::Config { max_steps: 400_000, ..Default::default() }, o.key, move || body(c2, res2, before));
  if let Some(t) = out.trouble() {
    o.fail(t);
    return o;
  }
  res.with(|r| {
    for (a, m) in &r.fails {
      if *a == aim {
        o.fail(m.clone());
      }
    }
    o.nontrivial = r.nontrivial && out.switches > 2;
    for l in &r.labels {
      o.label(l.clone());
    }
  });
  if aim == Aim::Leak && o.fail.is_none() {
    let l = live();
    for k in 0..3 {
      if l[k] != before[k] {
        o.fail(format!(
          "still alive after everything was dropped: {} items, {} closures, {} errors",
          l[0] - before[0],
          l[1] - before[1],
          l[2] - before[2]
        ));
        break;
      }
    }
  }
  let mut n = vec![];
  names(c.tree.as_ref().unwrap(), &mut n);
  n.sort();
  n.dedup();
  for x in n {
    o.label(x);
  }
  o
}
fn body(c: Case, res: Sh<Res>, before: [i64; 3]) {
  let fail = |a: Aim, m: String| res.with(|r| r.fails.push((a, m)));
  let recs: Vec<Recorder> = (0..c.subs).map(|_| Recorder::new()).collect();
  // the locks a used subject owns by itself
  let own: i64 = c.kinds.iter().flatten().map(|k| own_locks(*k)).sum();
  let sbjs: Vec<Option<AnySbj>> = c.kinds.iter().map(|k| k.map(AnySbj::new)).collect();
  let b = B {
    srcs: Sh::new(c.kinds.iter().map(|k| if k.is_none() { Some(Src::new()) } else { None }).collect()),
    sbjs: Sh::new(sbjs),
    recs: Sh::new(recs.clone()),
    obs: Sh::new(vec![]),
    c: Sh::new(c.clone()),
  };
  let tree = c.tree.clone().unwrap();
  let ob = b.build(&tree);
  let ended: Sh<Vec<u64>> = Sh::new(vec![u64::MAX; c.subs]);
  let mut sbs = vec![];
  let mut ths = vec![];
  // drivers (started before the subscription with subjects that keep something: they may race)
  let early = c.kinds.iter().any(|k| matches!(k, Some(SK::Behavior | SK::Replay)));
  let drive = |ths: &mut Vec<usize>| {
    for (i, scripts) in c.driven.iter().enumerate() {
      for s in scripts {
        let (b, s, rude) = (b.clone(), s.clone(), c.rude);
        ths.push(spawn(move || {
          for (g, ev) in s {
            if g > 0 {
              vprt::sleep_ns(g * MS)
            }
            let (src, sbj) = (b.srcs.with(|x| x[i].clone()), b.sbjs.with(|x| x[i].clone()));
            b.emission(|| match (src, sbj) {
              (Some(h), _) => {
                if rude {
                  for (o, _) in h.obs.get() {
                    send(&o, &ev)
                  }
                } else {
                  h.emit(&ev)
                }
              }
              (_, Some(s)) => s.emit(&ev),
              _ => {}
            });
          }
        }));
      }
    }
  };
  if early {
    drive(&mut ths);
  }
  for k in 0..c.subs {
    let slot: Sh<Option<Subscription<'static>>> = Sh::new(None);
    let un = {
      let (slot, e, how) = (slot.clone(), ended.clone(), c.how);
      move || {
        if let Some(s) = slot.get() {
          unsubscribe(how, &s);
          let st = vprt::stamp();
          e.with(|e| e[k] = e[k].min(st));
          if s.is_subscribed() {
            return true;
          }
        }
        false
      }
    };
    let uns = c.unsub.clone();
    let in_item: Vec<u64> = uns.iter().filter(|u| u.0 == 2).map(|u| u.1).collect();
    let in_end = uns.iter().any(|u| u.0 == 3);
    let n = Sh::new(0u64);
    let (u2, u3, u4) = (Sh::new(un.clone()), Sh::new(un.clone()), Sh::new(un.clone()));
    let s = recs[k].subscribe_all(
      &ob,
      move |_| {
        let k = n.with(|n| std::mem::replace(n, *n + 1));
        if in_item.contains(&k) {
          u2.get()();
        }
      },
      move || {
        if in_end {
          u3.get()();
        }
      },
    );
    slot.set(Some(s.clone()));
    for (who, at) in uns {
      if who == 1 {
        let u4 = u4.clone();
        ths.push(spawn(move || {
          if at > 0 {
            vprt::sleep_ns(at * MS - MS / 2)
          }
          u4.get()();
        }));
      }
    }
    sbs.push((s, slot, Sh::new(un)));
  }
  if !early {
    drive(&mut ths);
  }
  for (who, at) in c.unsub.clone() {
    if who != 0 {
      continue;
    }
    if at > 0 {
      vprt::sleep_ns(at * MS - MS / 2)
    }
    for s in &sbs {
      if s.2.get()() {
        fail(Aim::Unsub, "is_subscribed() after unsubscribe() returned".into());
      }
    }
  }
  join_all(ths);
  vprt::settle();
  vprt::sleep_ns(30 * MS);
  vprt::settle();
  // unsubscribe whoever has not ended
  let mut terminal = 0;
  for (k, s) in sbs.iter().enumerate() {
    let t = recs[k].cbs().iter().any(|x| x.ev.terminal());
    let un = ended.with(|e| e[k] != u64::MAX);
    if t {
      terminal += 1;
    }
    if s.0.is_subscribed() == (t || un) {
      fail(
        Aim::Unsub,
        format!("subscriber {}: is_subscribed() = {} though terminal seen = {}, unsubscribed = {}", k, s.0.is_subscribed(), t, un),
      );
    }
    if !t && !un {
      s.2.get()();
    }
  }
  vprt::settle();
  vprt::sleep_ns(60 * MS);
  vprt::settle();
  let show = || {
    let mut s = String::new();
    for (k, r) in recs.iter().enumerate() {
      s += &format!("\n subscriber {} (unsubscribed at {}):{}", k, ended.with(|e| e[k] as i64), show_cbs(&r.cbs()));
    }
    s
  };
  for (k, r) in recs.iter().enumerate() {
    let cbs = r.cbs();
    if let Some(m) = contract(&cbs) {
      fail(Aim::Contract, m);
    }
    let e = ended.with(|e| e[k]);
    for x in &cbs {
      if x.em != 0 && x.em > e {
        fail(
          Aim::Unsub,
          format!("{:?} was delivered though its emission began (at {}) after unsubscribe returned (at {}){}", x.ev, x.em, e, show()),
        );
      }
    }
  }
  if vprt::live_threads() != 0 {
    fail(Aim::Threads, format!("{} threads still alive 60 ms after the end of all subscriptions{}", vprt::live_threads(), show()));
  }
  let open = || -> Vec<String> {
    let mut v: Vec<String> =
      b.obs.get().into_iter().filter(|o| o.1.is_subscribed()).map(|o| o.0).collect();
    for (i, s) in b.srcs.get().iter().enumerate() {
      if let Some(s) = s {
        if s.live() > 0 {
          v.push(format!("source {}", i))
        }
      }
    }
    v
  };
  let any_src = !b.obs.get().is_empty() || b.srcs.get().iter().flatten().any(|s| s.total.get() > 0) || b.sbjs.get().iter().flatten().count() > 0;
  let op = open();
  if !op.is_empty() && !lazy(&tree) {
    fail(Aim::Teardown, format!("{:?} still subscribed after the end{}", op, show()));
  }
  let len: Vec<usize> = recs.iter().map(|r| r.cbs().len()).collect();
  // late emissions
  let tail = |ev: Ev| {
    for o in b.obs.get() {
      b.emission(|| send(&o.1, &ev));
    }
    for s in b.srcs.get().iter().flatten() {
      for (o, _) in s.obs.get() {
        b.emission(|| send(&o, &ev));
      }
    }
  };
  tail(Ev::N(item(60, 0)));
  for s in b.sbjs.get().iter().flatten() {
    b.emission(|| s.emit(&Ev::N(item(60, 0))));
  }
  vprt::settle();
  let op = open();
  if !op.is_empty() {
    fail(Aim::Teardown, format!("{:?} still subscribed at an emission after the end{}", op, show()));
  }
  tail(Ev::N(item(60, 1)));
  tail(Ev::C);
  tail(Ev::E(Er::new(9, 9)));
  for s in b.sbjs.get().iter().flatten() {
    b.emission(|| s.emit(&Ev::C));
  }
  vprt::settle();
  vprt::sleep_ns(60 * MS);
  vprt::settle();
  for (k, r) in recs.iter().enumerate() {
    if r.cbs().len() != len[k] {
      fail(Aim::Unsub, format!("an event emitted after the end was delivered{}", show()));
      fail(Aim::Contract, format!("an event emitted after the end was delivered{}", show()));
    }
  }
  // nothing is left
  res.with(|r| {
    let tids: std::collections::BTreeSet<usize> = recs[0].cbs().iter().map(|c| c.tid).collect();
    r.nontrivial = any_src && (tids.len() > 1 || recs.iter().any(|r| !r.cbs().is_empty()));
    if !c.unsub.is_empty() {
      r.labels.push("unsubscribe racing".into());
    }
    if terminal > 0 {
      r.labels.push("ended by a terminal".into());
    }
    if tids.len() > 1 {
      r.labels.push("callbacks on several threads".into());
    }
  });
  let txt = show();
  for s in &sbs {
    s.1.set(None);
  }
  drop(sbs);
  drop(ob);
  for s in b.srcs.get().iter().flatten() {
    s.clear()
  }
  b.obs.with(|o| o.clear());
  b.srcs.with(|s| s.clear());
  b.recs.with(|s| s.clear());
  for r in &recs {
    r.0.with(|s| s.cbs.clear())
  }
  vprt::settle();
  let quiet = vprt::live_threads() == 0;
  // subjects are still there: they must hold nothing of the pipeline
  let plain = c.kinds.iter().all(|k| matches!(k, None | Some(SK::Plain)));
  if quiet && plain {
    let l = live();
    // the case itself is part of `before` but for the copies made here
    let copies = {
      let a = live();
      let x = c.clone();
      let y = live();
      drop(x);
      [y[0] - a[0], y[1] - a[1], y[2] - a[2]]
    };
    // c, b.c
    let extra: Vec<i64> = (0..3).map(|k| l[k] - before[k] - 2 * copies[k]).collect();
    if extra.iter().any(|x| *x != 0) {
      fail(
        Aim::Leak,
        format!(
          "after the end and dropping every handle (the subjects are still there): {} items, {} closures, {} errors are still owned by the library{}",
          extra[0], extra[1], extra[2], txt
        ),
      );
    }
  }
  let a1 = vprt::live_sync();
  b.sbjs.with(|s| s.clear());
  let a2 = vprt::live_sync();
  if quiet && a1 - a2 > own {
    fail(
      Aim::Teardown,
      format!(
        "the subjects still held observers: dropping them freed {} locks instead of at most {}{}",
        a1 - a2,
        own,
        txt
      ),
    );
  }
}
fn cfg(timed: bool) -> Cfg {
  Cfg { depth: 3, max_src: 4, timed, share: true, unsub: (1, 2), multi: false }
}
fn go(c: Cfg, aim: Aim) -> CaseOut {
  let c = tape::with(|d| gen(d, c));
  scenario(c, aim)
}
pub fn c19() -> CaseOut {
  go(Cfg { unsub: (1, 4), multi: true, depth: 2, ..cfg(false) }, Aim::Contract)
}
pub fn c19_timed() -> CaseOut {
  go(Cfg { unsub: (1, 4), multi: true, ..cfg(true) }, Aim::Contract)
}
pub fn c05() -> CaseOut {
  go(Cfg { unsub: (7, 8), ..cfg(true) }, Aim::Unsub)
}
pub fn c06() -> CaseOut {
  go(cfg(true), Aim::Teardown)
}
pub fn c07() -> CaseOut {
  go(cfg(true), Aim::Blocked)
}
pub fn c15() -> CaseOut {
  go(cfg(true), Aim::Threads)
}
pub fn c17() -> CaseOut {
  go(cfg(true), Aim::Leak)
}
/// small scenarios, all schedules with few preemptions
pub fn c19_small() -> CaseOut {
  let c = tape::with(|d| {
    let mut c = Case { subs: 1, ..Default::default() };
    let n = 2;
    for i in 0..n {
      let k = d.below(2) as usize;
      let mut s: Script = (0..k).map(|j| (0, Ev::N(item(i, j)))).collect();
      s.push((0, if d.chance(1, 2) { Ev::E(Er::new(0, 500 + i as u64)) } else { Ev::C }));
      c.driven.push(vec![s]);
      c.kinds.push(None);
    }
    let v = vec![P::Src(0), P::Src(1)];
    let (a, b) = (Box::new(P::Src(0)), Box::new(P::Src(1)));
    c.tree = Some(match d.below(10) {
      0 => P::Multi(M::Merge, v),
      1 => P::Multi(M::Zip, v),
      2 => P::Multi(M::Amb, v),
      3 => P::Multi(M::Comb, v),
      4 => P::Multi(M::SeqEq, v),
      5 => P::Trig(Tr::TakeUntil, a, b),
      6 => P::Trig(Tr::SkipUntil, a, b),
      7 => P::Trig(Tr::Sample, a, b),
      8 => P::Trig(Tr::Switch, a, b),
      _ => {
        let k = *d.pick(&[SK::Plain, SK::Behavior, SK::Replay, SK::Async]);
        let s1 = c.driven.pop().unwrap();
        c.driven[0].extend(s1);
        c.kinds = vec![Some(k)];
        P::Sbj(k, 0)
      }
    });
    c
  });
  scenario(c, Aim::Contract)
}
/// one observer handed to two or three threads, which go on after a terminal
pub fn c19_shared() -> CaseOut {
  let c = tape::with(|d| {
    let mut c = Case { subs: 1, rude: true, ..Default::default() };
    let n = if d.chance(1, 4) { 3 } else { 2 };
    let mut drivers = vec![];
    for i in 0..n {
      let mut s: Script = (0..d.below(3)).map(|j| (0, Ev::N(item(i, j as usize)))).collect();
      if i == 0 || d.chance(1, 2) {
        let at = d.below(s.len() as u32 + 1) as usize;
        s.insert(at, (0, if d.chance(1, 2) { Ev::E(Er::new(0, 500 + i as u64)) } else { Ev::C }));
      }
      drivers.push(s);
    }
    c.driven = vec![drivers];
    c.kinds = vec![None];
    let src = P::Src(0);
    c.tree = Some(match d.below(6) {
      0 => P::Un(U::Map, Box::new(src)),
      1 => P::Un(U::Tap, Box::new(src)),
      _ => src,
    });
    c
  });
  scenario(c, Aim::Contract)
}

//! C14 on the virtual clock: the log of every subscriber of one Observable value, relative to its
//! subscribe call, against the log of the only subscriber of a freshly built copy.
use crate::ast::*;
use crate::build::{self, Lx, Obl};
use crate::engine::CaseOut;
use crate::tape;
use crate::th::*;
use crate::val::*;
use another_rxrust::prelude::*;
use vp_std::vprt;

/// how far a log is looked at
const H: u64 = 40 * MS;

#[derive(Clone, Copy, Debug, PartialEq)]
enum Mode {
  /// (ns after the first subscribe, ns until the unsubscribe)
  Apart,
  /// each one after the previous one has ended
  Sequence,
  /// from inside the n-th item callback of the first one
  Nested(usize),
  /// P.retry(n)
  Retry(usize),
  /// P.retry_when(always), looked at up to H
  RetryWhen,
  /// P.concat(&[P, ..])
  Concat(usize),
  /// P.on_error_resume_next(|_| P)
  Resume,
}
#[derive(Clone, Debug)]
struct Case {
  ast: crate::ast::Case,
  mode: Mode,
  subs: Vec<(u64, u64)>,
}
type Log = Vec<(u64, Ev)>;
#[derive(Clone)]
struct SubLog {
  log: Sh<Log>,
  start: u64,
  /// from here on nothing is known
  until: u64,
}
fn er(e: &RxError) -> Er {
  match e.downcast_ref::<std::io::Error>() {
    Some(x) if x.kind() == std::io::ErrorKind::TimedOut => Er::new(-9, 0),
    _ => Er::from_rx(e).plain(),
  }
}
fn subscribe(o: &Obl, log: &Sh<Log>, start: u64, react: impl Fn(usize) + 'static) -> Subscription<'static> {
  let (a, b, c) = (log.clone(), log.clone(), log.clone());
  let react = Sh(std::rc::Rc::new(std::cell::RefCell::new(std::rc::Rc::new(react))));
  o.subscribe(
    move |v| {
      let t = vprt::now() - start;
      let n = a.with(|l| {
        l.push((t, Ev::N(v.plain())));
        l.len()
      });
      vprt::yield_point();
      let r = react.get();
      r(n);
    },
    move |e| {
      let t = vprt::now() - start;
      b.with(|l| l.push((t, Ev::E(er(&e)))));
    },
    move || {
      let t = vprt::now() - start;
      c.with(|l| l.push((t, Ev::C)));
    },
  )
}
/// under a schedule from the tape, or (`own`) a random one of its own
fn sim(key: u64, own: Option<u64>, f: impl FnOnce() + 'static) -> vprt::Outcome {
  let cfg = vprt::Config { max_steps: 300_000, hash_seed: key, ..Default::default() };
  match own {
    None => run_sched(cfg, key, f),
    Some(s) => {
      let mut d = tape::Draw::generate(s);
      d.set_policy_random();
      let ch: vprt::Chooser = Box::new(move |k, n, t| d.sched(k, n, t));
      vprt::run(cfg, Some(ch), Box::new(f))
    }
  }
}
fn sleep_until(t: u64) {
  let n = vprt::now();
  if t > n {
    vprt::sleep_ns(t - n)
  }
}
struct Lone {
  log: Log,
  taps: Vec<(usize, Ev)>,
  /// subscribe() returned at once
  quick: bool,
  ties: u64,
  /// it ended by itself before H
  ended: bool,
}
fn taps(x: &Lx) -> Vec<(usize, Ev)> {
  let mut v: Vec<_> = x.s.with(|s| s.trace.iter().map(|t| (t.who, t.ev.clone())).collect());
  v.sort_by_key(|x: &(usize, Ev)| format!("{:?}", x));
  v
}
fn lone(c: &Case, key: u64, own: Option<u64>) -> Option<Lone> {
  let x = Lx::new(&c.ast);
  let log: Sh<Log> = Sh::new(vec![]);
  let quick = Sh::new(false);
  let (x2, l2, q2, root) = (x.clone(), log.clone(), quick.clone(), c.ast.root.clone());
  let out = sim(key, own, move || {
    let o = build::build(&x2, &root);
    let s = vprt::now();
    let sb = subscribe(&o, &l2, s, |_| {});
    q2.set(vprt::now() == s);
    sleep_until(s + H);
    sb.unsubscribe();
  });
  if out.trouble().is_some() || out.steps > 15_000 {
    return None;
  }
  let mut log = log.get();
  let ended = log.last().map(|e| e.1.terminal() && e.0 < H).unwrap_or(false);
  log.retain(|e| e.0 < H);
  Some(Lone { log, taps: taps(&x), quick: quick.get(), ties: out.ties, ended })
}
/// what the composition modes should give
fn expect(mode: Mode, l: &Log) -> Option<Log> {
  let mut out: Log = vec![];
  let mut at = 0;
  let mut k = 1;
  loop {
    out.extend(l.iter().map(|e| (e.0 + at, e.1.clone())));
    let again = match (mode, out.last().map(|e| &e.1)) {
      (Mode::Retry(n), Some(Ev::E(_))) => n == 0 || k < n,
      (Mode::RetryWhen, Some(Ev::E(_))) => true,
      (Mode::Concat(n), Some(Ev::C)) => k < n,
      (Mode::Resume, Some(Ev::E(_))) => k < 2,
      _ => false,
    };
    if !again || out.last().unwrap().0 > H {
      break;
    }
    let t = out.pop().unwrap().0;
    if t == at && !matches!(mode, Mode::Concat(_)) || k > 200 {
      // over and over at the same time
      return None;
    }
    at = t;
    k += 1;
  }
  out.retain(|e| e.0 < H);
  Some(out)
}
fn gen() -> Case {
  tape::with(|d| {
    let cfg = Cfg { hot: false, endless: false, subject: false, rsg: false, rich_cold: false, timed: true, err_weight: 4, ..Cfg::full() };
    let mut g = Gen::new(d, cfg);
    let b = 1 + g.d.below(4) as i32;
    let n = g.node(b);
    let mode = match g.d.weighted(&[6, 3, 2, 3, 1, 3, 2]) {
      0 => Mode::Apart,
      1 => Mode::Sequence,
      2 => Mode::Nested(1 + g.d.below(3) as usize),
      3 => Mode::Retry(g.d.below(4) as usize),
      4 => Mode::RetryWhen,
      5 => Mode::Concat(1 + g.d.below(3) as usize),
      _ => Mode::Resume,
    };
    let more = 1 + g.d.below(2);
    let mut subs = vec![];
    for k in 0..=more {
      let a = if k == 0 { 0 } else { g.d.below(12_000_000) as u64 };
      let b = if g.d.chance(1, 3) { 200_000 + g.d.below(15_000_000) as u64 } else { H };
      subs.push((a, b));
    }
    Case { ast: g.done(n, vec![]), mode, subs }
  })
}
/// the logs of the subscribers of one Observable value
fn several(c: &Case, key: u64) -> (vprt::Outcome, Vec<SubLog>, Vec<(usize, Ev)>) {
  let x = Lx::new(&c.ast);
  let subs: Sh<Vec<SubLog>> = Sh::new(vec![]);
  let (x2, s2, c2) = (x.clone(), subs.clone(), c.clone());
  let out = sim(key, None, move || {
    let root = build::build(&x2, &c2.ast.root);
    let o = match c2.mode {
      Mode::Retry(n) => root.retry(n),
      Mode::RetryWhen => root.retry_when(|_| true),
      Mode::Concat(n) => root.concat(&vec![root.clone(); n - 1]),
      Mode::Resume => {
        let r = root.clone();
        root.on_error_resume_next(move |_| r.clone())
      }
      _ => root,
    };
    let add = |s: &Sh<Vec<SubLog>>| {
      let l = SubLog { log: Sh::new(vec![]), start: vprt::now(), until: u64::MAX };
      s.with(|s| {
        s.push(l.clone());
        (s.len() - 1, l)
      })
    };
    match c2.mode {
      Mode::Apart => {
        let mut evs: Vec<(u64, bool, usize)> = vec![];
        let t0 = vprt::now();
        for (k, (a, b)) in c2.subs.iter().enumerate() {
          evs.push((t0 + a, true, k));
          evs.push((t0 + a + b, false, k));
        }
        evs.sort();
        let mut sbs: Vec<Option<(usize, Subscription<'static>)>> = vec![None; c2.subs.len()];
        for (t, on, k) in evs {
          sleep_until(t);
          if on {
            let (i, l) = add(&s2);
            sbs[k] = Some((i, subscribe(&o, &l.log, l.start, |_| {})));
          } else if let Some((i, sb)) = &sbs[k] {
            let t = vprt::now();
            s2.with(|s| s[*i].until = t - s[*i].start);
            sb.unsubscribe();
          }
        }
      }
      Mode::Sequence => {
        for (_, b) in &c2.subs {
          let (i, l) = add(&s2);
          let sb = subscribe(&o, &l.log, l.start, |_| {});
          sleep_until(l.start + b);
          let t = vprt::now();
          s2.with(|s| s[i].until = t - s[i].start);
          sb.unsubscribe();
        }
      }
      Mode::Nested(n) => {
        let (i, l) = add(&s2);
        let (o2, s3) = (o.clone(), s2.clone());
        let inner: Sh<Vec<Subscription<'static>>> = Sh::new(vec![]);
        let inner2 = inner.clone();
        let sb = subscribe(&o, &l.log, l.start, move |k| {
          if k == n {
            let l = SubLog { log: Sh::new(vec![]), start: vprt::now(), until: H };
            s3.with(|s| s.push(l.clone()));
            let sb = subscribe(&o2, &l.log, l.start, |_| {});
            inner2.with(|v| v.push(sb));
          }
        });
        sleep_until(l.start + c2.subs[0].1);
        let t = vprt::now();
        s2.with(|s| s[i].until = t - s[i].start);
        sb.unsubscribe();
        let t = s2.with(|s| s.last().unwrap().start);
        sleep_until(t + H);
        for sb in inner.with(|v| std::mem::take(v)) {
          sb.unsubscribe();
        }
      }
      _ => {
        let (i, l) = add(&s2);
        let sb = subscribe(&o, &l.log, l.start, |_| {});
        sleep_until(l.start + H);
        let t = vprt::now();
        s2.with(|s| s[i].until = t - s[i].start);
        sb.unsubscribe();
      }
    }
  });
  let t = taps(&x);
  (out, subs.get(), t)
}
/// `got` is `want` up to `until`
fn same(got: &Log, want: &Log, until: u64) -> bool {
  let u = until.min(H);
  let cut = |l: &Log| -> Log { l.iter().filter(|e| e.0 < u).cloned().collect() };
  cut(got) == cut(want)
}
pub fn timed() -> CaseOut {
  let c = gen();
  let mut o = case_out(format!("{:?} {:?}\n{}", c.mode, c.subs, c.ast.describe()));
  let key = o.key;
  let one = match lone(&c, key, None) {
    Some(l) => l,
    None => {
      o.discard = true;
      return o;
    }
  };
  let nested = matches!(c.mode, Mode::Nested(_));
  let again = matches!(c.mode, Mode::Retry(0) | Mode::RetryWhen);
  // (subscribing again and again from within subscribe takes ever more stack)
  if one.ties > 0 || ((nested || again) && !one.quick) {
    o.discard = true;
    return o;
  }
  let comp = !matches!(c.mode, Mode::Apart | Mode::Sequence | Mode::Nested(_));
  let want = match expect(c.mode, &one.log) {
    Some(w) => w,
    None => {
      o.discard = true;
      return o;
    }
  };
  let (out, subs, tp) = several(&c, tape_key(key));
  op_names(&c.ast.root, &mut o.labels);
  o.labels.push(format!("{:?}", c.mode).split('(').next().unwrap().to_string());
  let logs: Vec<Log> = subs.iter().map(|s| s.log.get()).collect();
  o.nontrivial = if comp { want.len() > one.log.len() } else { logs.len() > 1 && logs[1].len() > 0 };
  let mut bad = out.trouble();
  if bad.is_none() {
    for (k, s) in subs.iter().enumerate() {
      if !same(&logs[k], &want, s.until) {
        bad = Some(format!("subscriber {} (until {}): {:?}\n instead of {:?}", k, s.until, logs[k], want));
        break;
      }
    }
  }
  // side effects: of every subscription
  if bad.is_none() && !comp && one.ended && subs.iter().all(|s| s.until >= H) {
    let mut w: Vec<(usize, Ev)> = vec![];
    for t in &one.taps {
      for _ in &subs {
        w.push(t.clone());
      }
    }
    if w.len() > 0 {
      o.labels.push("taps compared".into());
    }
    if w != tp {
      bad = Some(format!("{} subscriptions, side effects {:?}, of a single one {:?}", subs.len(), tp, one.taps));
    }
  }
  if let Some(m) = bad {
    // is the lone run itself not determined? then there is nothing to compare with
    for i in 0..400u64 {
      let again = lone(&c, key, Some(tape_key(key ^ 0x5eed).wrapping_add(i)));
      match again {
        Some(l) if l.ties == 0 && l.log == one.log && l.taps == one.taps => {}
        _ => {
          o.discard = true;
          return o;
        }
      }
    }
    o.fail(m);
  }
  o
}
/// Runs everything a moment later: so no two threads are ever at work at the same time, and what
/// a lone subscriber receives is determined.
#[derive(Clone)]
pub struct Late<S>(pub S, pub u64);
impl<S: another_rxrust::schedulers::scheduler::IScheduler<'static> + Clone + Send + Sync> another_rxrust::schedulers::scheduler::IScheduler<'static> for Late<S> {
  fn post<F>(&self, f: F)
  where
    F: Fn() + Send + Sync + 'static,
  {
    let (ns, f) = (self.1, std::sync::Arc::new(f));
    self.0.post(move || {
      vprt::sleep_ns(ns);
      f();
    })
  }
  fn abort(&self) {
    self.0.abort()
  }
}
fn tape_key(k: u64) -> u64 {
  tape::mix(k)
}

// ---- C01, C04: the same pipelines, for one or two subscribers ---------------------------------
fn watch(ast: &crate::ast::Case, key: u64, starts: Vec<u64>, until: u64, ends: Vec<u64>) -> (vprt::Outcome, Vec<Log>, bool) {
  let x = Lx::new(ast);
  let logs: Vec<Sh<Log>> = starts.iter().map(|_| Sh::new(vec![])).collect();
  let (x2, l2, root) = (x.clone(), logs.clone(), ast.root.clone());
  let wrong = Sh::new(false);
  let w2 = wrong.clone();
  let out = sim(key, None, move || {
    let o = build::build(&x2, &root);
    let t0 = vprt::now();
    let mut sbs = vec![];
    for (k, s) in starts.iter().enumerate() {
      sleep_until(t0 + s);
      sbs.push(subscribe(&o, &l2[k], vprt::now(), |_| {}));
    }
    for (k, e) in ends.iter().enumerate() {
      sleep_until(t0 + e);
      sbs[k].unsubscribe();
    }
    sleep_until(t0 + until);
    for (k, sb) in sbs.iter().enumerate() {
      let over = l2[k].with(|l| l.last().map(|e| e.1.terminal()).unwrap_or(false));
      if over && sb.is_subscribed() {
        w2.set(true);
      }
      sb.unsubscribe();
    }
  });
  (out, logs.iter().map(|l| l.get()).collect(), wrong.get())
}
/// C01: rude sources, operators with timers and threads
pub fn c01() -> CaseOut {
  let (ast, starts, ends) = tape::with(|d| {
    let cfg = Cfg {
      hot: false,
      endless: false,
      subject: false,
      rsg: false,
      rich_cold: false,
      timed: true,
      rude: true,
      err_weight: 4,
      ..Cfg::full()
    };
    let mut g = Gen::new(d, cfg);
    let b = 1 + g.d.below(4) as i32;
    let n = g.node(b);
    let mut starts = vec![0];
    if g.d.chance(1, 4) {
      starts.push(g.d.below(6_000_000) as u64);
    }
    let ends = if g.d.chance(1, 4) { vec![6_000_000 + g.d.below(20_000_000) as u64] } else { vec![] };
    (g.done(n, vec![]), starts, ends)
  });
  let mut o = case_out(format!("{}\nsubscribed at {:?} left at {:?}", ast.describe(), starts, ends));
  let (out, logs, wrong) = watch(&ast, o.key, starts, H, ends);
  if out.livelock || out.overflow {
    // (sources that fail at once, resubscribed for ever)
    o.discard = true;
    return o;
  }
  if let Some(t) = out.trouble() {
    o.fail(t);
    return o;
  }
  for l in &logs {
    if let Some(i) = l.iter().position(|e| e.1.terminal()) {
      o.nontrivial = true;
      if i + 1 < l.len() {
        o.fail(format!("{:?} after the terminal: {:?}", l[i + 1], l));
        return o;
      }
    }
  }
  if wrong {
    o.fail(format!("is_subscribed() after a terminal: {:?}", logs));
  }
  o
}
/// C04: one error on its way through operators with timers and threads
pub fn c04() -> CaseOut {
  let (ast, items, exact) = tape::with(|d| {
    let cfg = Cfg { timed: true, hot: false, ..Cfg::chain() };
    let g = Gen::new(d, cfg);
    let n = g.d.below(5) as usize;
    let mut v: Vec<(u64, Ev)> = vec![];
    for i in 0..=n {
      let gap = if g.d.chance(3, 4) { 300_000 + g.d.below(4_700_000) as u64 } else { 0 };
      v.push((gap, if i < n { Ev::N(V::i(i as i64)) } else { Ev::E(Er::new(g.d.range(0, 3), 4242)) }));
    }
    let mut node = Node::TmSrc(TmSrc::Script(v));
    let (mut items, mut exact) = (n, true);
    let b = Box::new;
    for _ in 0..1 + g.d.below(4) {
      node = match g.d.below(14) {
        0 => Node::Un(Op::Map(0), b(node)),
        1 => Node::Un(Op::Tap(0), b(node)),
        2 => Node::Un(Op::Timestamp, b(node)),
        3 => {
          items += 1;
          Node::Un(Op::StartWith(vec![3]), b(node))
        }
        4 => {
          exact = false;
          let f = g.d.below(NF2);
          let ops = [
            Op::Filter(g.d.below(NP)),
            Op::Skip(1),
            Op::SkipLast(1),
            Op::TakeLast(2),
            Op::SkipWhile(g.d.below(NP)),
            Op::Last,
            Op::Distinct,
            Op::Reduce(f),
            Op::Count,
            Op::Sum,
            Op::SumAndCount,
            Op::Min,
            Op::Max,
            Op::IgnoreElements,
            Op::DefaultIfEmpty(3),
            Op::Buffer(2),
            Op::All(0),
          ];
          let mut o = g.d.pick(&ops).clone();
          if matches!(o, Op::All(_)) {
            // may end the sequence itself
            o = Op::Scan(0);
          }
          Node::Un(o, b(node))
        }
        5 => {
          exact = false;
          let other = if g.d.chance(1, 2) { Node::Never } else { Node::TmSrc(TmSrc::Interval(3_333_333)) };
          let op = *g.d.pick(&[MOp::Merge, MOp::Zip, MOp::Comb(0), MOp::Concat]);
          let v = if op != MOp::Concat && g.d.chance(1, 2) { vec![other, node] } else { vec![node, other] };
          Node::Multi(op, v)
        }
        6 => {
          exact = false;
          let other = b(if g.d.chance(1, 2) { Node::Never } else { Node::TmSrc(TmSrc::Interval(3_333_333)) });
          match g.d.below(5) {
            0 => Node::Trig(TOp::TakeUntil, b(node), b(Node::Never)),
            1 if items == 0 && exact => Node::Trig(TOp::SkipUntil, b(Node::Never), b(node)),
            2 => Node::Trig(TOp::SkipUntil, b(node), other),
            3 => Node::Trig(TOp::Sample, b(node), other),
            _ => Node::Trig(TOp::SwitchOnNext, b(node), b(Node::Never)),
          }
        }
        7 => {
          exact = false;
          Node::Tm(Tm::Debounce(g.d.below(5_000_000) as u64 + 300_000), b(node))
        }
        8 => Node::Tm(Tm::Timeout(400_000_000), b(node)),
        9 => Node::Tm(Tm::Delay(1 + g.d.below(3_000_000) as u64), b(node)),
        10 => Node::Tm(Tm::SubscribeOn(1000 + g.d.below(90_000) as u64), b(node)),
        11 => {
          // (one item less)
          exact = false;
          Node::Tm(Tm::TimeInterval, b(node))
        }
        _ => Node::Tm(Tm::ObserveOn(g.d.below(90_000) as u64), b(node)),
      };
    }
    (g.done(node, vec![]), items, exact)
  });
  let mut o = case_out(ast.describe());
  let (out, logs, _) = watch(&ast, o.key, vec![0], 300 * MS, vec![]);
  if let Some(t) = out.trouble() {
    o.fail(t);
    return o;
  }
  op_names(&ast.root, &mut o.labels);
  o.nontrivial = true;
  let l = &logs[0];
  match l.last().map(|e| e.1.clone()) {
    Some(Ev::E(e)) if e.uid == 4242 => {
      if exact && l.len() != items + 1 {
        o.fail(format!("{} items before the error instead of {}: {:?}", l.len() - 1, items, l));
      }
    }
    _ => o.fail(format!("the error did not arrive: {:?}", l)),
  }
  o
}

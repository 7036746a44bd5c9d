//! C16: time-based sources and operators, judged stage by stage from (virtual time, event) logs.
use crate::engine::CaseOut;
use crate::tape::{self, Draw};
use crate::th::*;
use crate::val::*;
use another_rxrust::prelude::*;
use std::time::Duration;
use vp_std::vprt;

type Obl = Observable<'static, V>;
thread_local! {
  static UNIT: std::cell::Cell<u64> = const { std::cell::Cell::new(1000) };
}
/// ns of one unit of the durations of the running case
fn unit() -> u64 {
  UNIT.with(|u| u.get())
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum Src0 {
  Interval(u64),
  Timer(u64),
  /// on the subscribing thread
  IntervalHere(u64),
  TimerHere(u64),
  Threaded,
  Sync,
}
#[derive(Clone, Copy, Debug, PartialEq)]
enum Op {
  Delay(u64),
  Timeout(u64),
  Debounce(u64),
  /// sampled by an interval
  Sample(u64),
  ObserveOn,
  SubscribeOn,
  Map,
  Take(usize),
  Timestamp,
  TimeInterval,
}
#[derive(Clone, Debug)]
struct Branch {
  src: Src0,
  /// gap before each event (us) and the event, for the scripted sources
  script: Vec<(u64, Ev)>,
  ops: Vec<Op>,
  retry: usize,
}
#[derive(Clone, Debug)]
struct Case {
  br: Vec<Branch>,
  take: Option<usize>,
  unsub: Option<u64>,
  /// further subscribers of the same Observable: (us after the first, us until its unsubscribe)
  more: Vec<(u64, u64)>,
  /// the subscriber sleeps this long in each item callback
  slow: u64,
  /// ns of one unit of the durations: from microseconds to hours altogether
  unit: u64,
}
fn dur(d: &mut Draw, small: bool) -> u64 {
  if small {
    return *d.pick(&[1000, 1501, 2003]);
  }
  match d.below(4) {
    0 => 1000 * (1 + d.below(4) as u64) + d.below(3) as u64,
    _ => 300 + d.below(4700) as u64,
  }
}
fn gen(d: &mut Draw, small: bool) -> Case {
  let nb = if small { 1 } else { 1 + d.weighted(&[5, 2, 1]) };
  let mut br = vec![];
  let take = if d.chance(1, 3) { Some(1 + d.below(if small { 2 } else { 6 }) as usize) } else { None };
  for b in 0..nb {
    let here = nb == 1 && take.is_some() && !small;
    let src = match d.weighted(&[4, 2, if here { 1 } else { 0 }, if small { 0 } else { 1 }, 6, if small { 0 } else { 1 }]) {
      0 => Src0::Interval(dur(d, small)),
      1 => Src0::Timer(dur(d, small)),
      2 => Src0::IntervalHere(dur(d, small)),
      3 => Src0::TimerHere(dur(d, small)),
      4 => Src0::Threaded,
      _ => Src0::Sync,
    };
    let mut ops = vec![];
    let n_ops = if small { 1 } else { d.weighted(&[1, 4, 3, 2]) };
    for k in 0..n_ops {
      ops.push(match d.weighted(&[4, 5, 3, 3, 1, 1, 1, 1, 1, 1]) {
        0 => {
          // a delay holds up the thread that calls it
          Op::Delay(dur(d, small))
        }
        1 => Op::Timeout(dur(d, small)),
        2 => Op::Debounce(dur(d, small)),
        3 => Op::Sample(dur(d, small)),
        4 => Op::ObserveOn,
        5 => Op::SubscribeOn,
        6 => Op::Map,
        7 => Op::Take(1 + d.below(4) as usize),
        8 if k + 1 == n_ops => Op::Timestamp,
        9 if k + 1 == n_ops => Op::TimeInterval,
        _ => Op::Map,
      })
    }
    let ds: Vec<u64> = ops
      .iter()
      .filter_map(|o| match o {
        Op::Delay(x) | Op::Timeout(x) | Op::Debounce(x) | Op::Sample(x) => Some(*x),
        _ => None,
      })
      .collect();
    let mut script = vec![];
    if matches!(src, Src0::Threaded | Src0::Sync) {
      let gap = |d: &mut Draw| match d.below(5) {
        0 => 0,
        // just above and below a period
        1 if !ds.is_empty() => *d.pick(&ds) + 1,
        2 if !ds.is_empty() => *d.pick(&ds) - 1,
        _ => dur(d, small),
      };
      for i in 0..d.below(if small { 3 } else { 6 }) {
        let g = gap(d);
        script.push((g, Ev::N(item(b, i as usize))));
      }
      match d.below(4) {
        0 | 1 => script.push((gap(d), Ev::C)),
        2 => script.push((gap(d), Ev::E(Er::new(d.below(3) as i64, 77)))),
        _ => {}
      }
    }
    br.push(Branch { src, script, ops, retry: if d.chance(1, 4) { 2 } else { 1 } });
  }
  // something has to end it
  let unsub = if d.chance(1, 2) || !matches!(br[0].src, Src0::IntervalHere(_)) { Some(dur(d, small) * (1 + d.below(if small { 5 } else { 10 }) as u64)) } else { None };
  let more = if !small && d.chance(1, 4) && !br.iter().any(|b| matches!(b.src, Src0::IntervalHere(_) | Src0::TimerHere(_) | Src0::Sync)) {
    vec![(dur(d, small), dur(d, small) * (1 + d.below(4) as u64))]
  } else {
    vec![]
  };
  let slow = if d.chance(1, 6) { dur(d, small) } else { 0 };
  let unit = if small { 1000 } else { *d.pick(&[1000, 1000, 1000, 1, 333, 1_000_000, 17_000_003, 3_600_000_000]) };
  Case { br, take, unsub, more, slow, unit }
}
type Log = Sh<Vec<(u64, Ev)>>;
/// one subscription of one branch
#[derive(Clone)]
struct Inst {
  branch: usize,
  start: u64,
  logs: Vec<Log>,
  /// the subscriber it belongs to
  who: usize,
}
fn er(e: &RxError) -> Er {
  match e.downcast_ref::<std::io::Error>() {
    Some(x) if x.kind() == std::io::ErrorKind::TimedOut => Er::new(-9, 0),
    _ => Er::from_rx(e).plain(),
  }
}
fn probe(o: Obl, l: &Log) -> Obl {
  let (a, b, c) = (l.clone(), l.clone(), l.clone());
  o.tap(
    move |v| {
      let t = vprt::now();
      a.with(|l| l.push((t, Ev::N(v))))
    },
    move |e| {
      let t = vprt::now();
      b.with(|l| l.push((t, Ev::E(er(&e)))))
    },
    move || {
      let t = vprt::now();
      c.with(|l| l.push((t, Ev::C)))
    },
  )
}
fn us(x: u64) -> Duration {
  Duration::from_nanos(x * unit())
}
fn epoch(t: SystemTime) -> i64 {
  t.duration_since(vp_std::time::UNIX_EPOCH).unwrap().as_nanos() as i64
}
use vp_std::time::SystemTime;
fn source(b: &Branch) -> Obl {
  let nt = schedulers::new_thread_scheduler;
  match b.src {
    Src0::Interval(d) => observables::interval(us(d), nt()).map(|x| V::i(x as i64)),
    Src0::Timer(d) => observables::timer(us(d), nt()).map(|_| V::i(-1)),
    Src0::IntervalHere(d) => observables::interval(us(d), schedulers::default_scheduler()).map(|x| V::i(x as i64)),
    Src0::TimerHere(d) => observables::timer(us(d), schedulers::default_scheduler()).map(|_| V::i(-1)),
    Src0::Threaded | Src0::Sync => {
      let (script, here) = (b.script.clone(), b.src == Src0::Sync);
      Observable::create(move |o: Observer<'static, V>| {
        let script = script.clone();
        let play = move || {
          for (g, e) in script {
            if g > 0 {
              vprt::sleep_ns(g * unit());
            }
            if !o.is_subscribed() {
              break;
            }
            send(&o, &e);
          }
        };
        if here {
          play()
        } else {
          spawn(play);
        }
      })
    }
  }
}
fn branch(i: usize, b: &Branch, insts: &Sh<Vec<Inst>>, who: &Sh<Vec<usize>>) -> Obl {
  let (b2, insts, who) = (b.clone(), insts.clone(), who.clone());
  let retry = b.retry;
  let o = observables::defer(move || {
    let nt = schedulers::new_thread_scheduler;
    let logs: Vec<Log> = (0..=b2.ops.len()).map(|_| Sh::new(vec![])).collect();
    let start = vprt::now();
    let w = who.with(|w| *w.last().unwrap());
    insts.with(|x| x.push(Inst { branch: i, start, logs: logs.clone(), who: w }));
    let mut o = probe(source(&b2), &logs[0]);
    for (k, op) in b2.ops.iter().enumerate() {
      o = match op {
        Op::Delay(d) => o.delay(us(*d)),
        Op::Timeout(d) => o.timeout(us(*d), nt()),
        Op::Debounce(d) => o.debounce(us(*d), nt()),
        Op::Sample(d) => o.sample(observables::interval(us(*d), nt()).map(|_| V::i(0))),
        Op::ObserveOn => o.observe_on(nt()),
        Op::SubscribeOn => o.subscribe_on(nt()),
        Op::Map => o.map(|x| x),
        Op::Take(n) => o.take(*n),
        Op::Timestamp => o.timestamp().map(|(t, v)| V::l(vec![V::i(epoch(t)), v])),
        Op::TimeInterval => o.time_interval().map(|d| V::i(d.as_nanos() as i64)),
      };
      o = probe(o, &logs[k + 1]);
    }
    o
  });
  if retry > 1 {
    o.retry(retry)
  } else {
    o
  }
}
struct Seen {
  log: Log,
  start: u64,
  unsub: u64,
  over: u64,
}
fn run(c: Case) -> CaseOut {
  let mut o = case_out(format!("{:?}", c));
  UNIT.with(|u| u.set(c.unit));
  let insts: Sh<Vec<Inst>> = Sh::new(vec![]);
  let seen: Sh<Vec<Seen>> = Sh::new(vec![]);
  let (c2, i2, s2) = (c.clone(), insts.clone(), seen.clone());
  let cfg = vprt::Config { max_steps: 400_000, horizon: 60_000_000 * c.unit, ..Default::default() };
  let out = run_sched(cfg, o.key, move || {
    let c = c2;
    // later subscribers and subscriptions made by retry: told apart by the time order of `who`
    let who: Sh<Vec<usize>> = Sh::new(vec![0]);
    let obs: Vec<Obl> = c.br.iter().enumerate().map(|(i, b)| branch(i, b, &i2, &who)).collect();
    let mut ob = obs[0].clone();
    if obs.len() > 1 {
      ob = ob.merge(&obs[1..]);
    }
    if let Some(n) = c.take {
      ob = ob.take(n);
    }
    let mut evs: Vec<(u64, u32, usize)> = vec![];
    let subscribe = |k: usize| {
      let log: Log = Sh::new(vec![]);
      s2.with(|s| s.push(Seen { log: log.clone(), start: vprt::now(), unsub: u64::MAX, over: u64::MAX }));
      let (a, b, d) = (log.clone(), log.clone(), log.clone());
      let sb = ob.subscribe(
        move |v| {
          let t = vprt::now();
          a.with(|l| l.push((t, Ev::N(v))));
          if c.slow > 0 {
            vprt::sleep_ns(c.slow * unit());
          }
          vprt::yield_point();
        },
        move |e| {
          let t = vprt::now();
          b.with(|l| l.push((t, Ev::E(er(&e)))));
        },
        move || {
          let t = vprt::now();
          d.with(|l| l.push((t, Ev::C)));
        },
      );
      let _ = k;
      sb
    };
    let mut subs = vec![Some(subscribe(0))];
    let t0 = vprt::now();
    if let Some(u) = c.unsub {
      evs.push((t0 + u * unit(), 1, 0));
    }
    for (k, (a, b)) in c.more.iter().enumerate() {
      evs.push((t0 + a * unit(), 0, k + 1));
      evs.push((t0 + (a + b) * unit(), 1, k + 1));
    }
    evs.sort();
    for (t, what, k) in evs {
      let now = vprt::now();
      if t > now {
        vprt::sleep_ns(t - now);
      }
      if what == 0 {
        who.with(|w| w.push(k));
        let sb = subscribe(k);
        subs.push(Some(sb));
      } else if let Some(Some(sb)) = subs.get(k) {
        let t = vprt::now();
        s2.with(|s| s[k].unsub = t);
        sb.unsubscribe();
      }
    }
    vprt::sleep_ns(100_000 * unit());
    vprt::settle();
    let t = vprt::now();
    s2.with(|s| s.iter_mut().for_each(|x| x.over = t));
  });
  if let Some(t) = out.trouble() {
    o.fail(t);
    return o;
  }
  let all = insts.get();
  // a retried subscription cannot be attributed when there are several subscribers
  let single = c.more.is_empty() || c.br.iter().all(|b| b.retry == 1);
  seen.with(|seen| {
    for (k, s) in seen.iter().enumerate() {
      let log = s.log.get();
      let terms = log.iter().filter(|e| e.1.terminal()).count();
      if terms > 1 || (terms == 1 && !log.last().unwrap().1.terminal()) {
        o.fail(format!("subscriber {}: not a proper sequence: {:?}", k, log));
        return;
      }
      if log.iter().any(|e| e.0 > s.unsub) {
        o.fail(format!("subscriber {}: events after the unsubscribe at {}: {:?}", k, s.unsub, log));
        return;
      }
      let t_end = log.last().filter(|e| e.1.terminal()).map(|e| e.0).unwrap_or(u64::MAX).min(s.unsub).min(s.over);
      if log.len() > 1 {
        o.nontrivial = true;
      }
      if !single {
        continue;
      }
      for inst in all.iter().filter(|x| x.who == k) {
        let b = &c.br[inst.branch];
        if let Some(m) = judge(b, inst, t_end, c.slow, &mut o.labels) {
          let logs: Vec<String> = inst.logs.iter().map(|l| format!("{:?}", l.get())).collect();
          o.fail(format!(
            "subscriber {} branch {} (subscribed at {}, ended at {}): {}\n stages {}\n subscriber {:?}",
            k,
            inst.branch,
            inst.start,
            t_end,
            m,
            logs.join("\n   "),
            log
          ));
          return;
        }
      }
      // nothing is lost between the branches and the subscriber
      if c.take.is_none() && !c.br.iter().any(|b| b.ops.iter().any(|o| matches!(o, Op::Debounce(_) | Op::Sample(_)))) {
        // (what comes at the very moment of an end may be cut off)
        let (mut sure, mut may) = (0, 0);
        for inst in all.iter().filter(|x| x.who == k) {
          let l = inst.logs.last().unwrap().get();
          let e = l.iter().find(|e| e.1.terminal()).map(|e| e.0).unwrap_or(u64::MAX).min(t_end);
          sure += l.iter().filter(|x| !x.1.terminal() && x.0 < e).count();
          may += l.iter().filter(|x| !x.1.terminal()).count();
        }
        let m = log.iter().filter(|e| !e.1.terminal()).count();
        if m < sure || m > may {
          o.fail(format!("subscriber {} got {} items, its branches delivered {} to {}", k, m, sure, may));
        }
      }
    }
  });
  o
}
fn judge(b: &Branch, inst: &Inst, t_end: u64, slow: u64, labels: &mut Vec<String>) -> Option<String> {
  let mut logs: Vec<Vec<(u64, Ev)>> = inst.logs.iter().map(|l| l.get()).collect();
  for l in &mut logs {
    // an item of another thread at the very moment of the terminal may be logged behind it
    if let Some(p) = l.iter().position(|x| x.1.terminal()) {
      if l[p..].iter().all(|x| x.0 == l[p].0) {
        let t = l.remove(p);
        l.push(t);
      }
    }
  }
  let n = logs.len();
  // when what is below stage i had ended
  let mut end = vec![t_end; n];
  for i in (0..n - 1).rev() {
    let t = logs[i + 1].last().filter(|e| e.1.terminal()).map(|e| e.0).unwrap_or(u64::MAX);
    end[i] = end[i + 1].min(t);
  }
  for i in 0..n {
    if let Some(e) = logs[i].iter().find(|e| e.0 > end[i]) {
      return Some(format!("stage {}: {:?} at {} though it had ended at {}", i, e.1, e.0, end[i]));
    }
    if logs[i].windows(2).any(|w| w[0].0 > w[1].0) {
      return Some(format!("stage {}: times go back", i));
    }
  }
  // is the thread that emits out of stage i held up below?
  let hold = |i: usize| -> u64 {
    let mut sum = 0;
    for o in &b.ops[i..] {
      match o {
        Op::ObserveOn | Op::Debounce(_) | Op::Sample(_) => return sum,
        Op::Delay(d) => sum += d * unit(),
        _ => {}
      }
    }
    sum + slow * unit()
  };
  let held = |i: usize| hold(i) > 0;
  let has = |l: &[(u64, Ev)], want: &[(u64, Ev)], e: u64, what: &str| -> Option<String> {
    // `want` up to the end; at the very end either way
    let sure: Vec<_> = want.iter().filter(|x| x.0 < e).cloned().collect();
    let may: Vec<_> = want.iter().filter(|x| x.0 <= e).cloned().collect();
    if l.len() < sure.len() || l.len() > may.len() || l != &may[..l.len()] {
      return Some(format!("{}: {:?} instead of {:?} (ended at {})", what, l, may, e));
    }
    None
  };
  match b.src {
    Src0::Interval(d) | Src0::IntervalHere(d) => {
      if held(0) {
        for (k, x) in logs[0].iter().enumerate() {
          if x.1 != Ev::N(V::i(k as i64)) || x.0 < inst.start + (k as u64 + 1) * d * unit() {
            return Some(format!("interval({}us): {:?} at {}", d, x.1, x.0));
          }
        }
      } else {
        let last = end[0].saturating_sub(inst.start) / (d * unit()) + 1;
        let want: Vec<_> = (0..last).map(|k| (inst.start + (k + 1) * d * unit(), Ev::N(V::i(k as i64)))).collect();
        if let Some(m) = has(&logs[0], &want, end[0], &format!("interval({}us)", d)) {
          return Some(m);
        }
        labels.push("interval judged".into());
      }
    }
    Src0::Timer(d) | Src0::TimerHere(d) => {
      let t = inst.start + d * unit();
      let want = [(t, Ev::N(V::i(-1))), (t, Ev::C)];
      if held(0) {
        if logs[0].first().map(|x| *x != want[0]).unwrap_or(false) {
          return Some(format!("timer({}us): {:?}", d, logs[0]));
        }
      } else if let Some(m) = has(&logs[0], &want, end[0], &format!("timer({}us)", d)) {
        return Some(m);
      }
      labels.push("timer judged".into());
    }
    _ => {}
  }
  for (i, op) in b.ops.iter().enumerate() {
    let (inp, out) = (&logs[i], &logs[i + 1]);
    let e = end[i + 1];
    let items = |l: &[(u64, Ev)]| -> Vec<(u64, Ev)> { l.iter().filter(|x| !x.1.terminal()).cloned().collect() };
    let (ii, oi) = (items(inp), items(out));
    let (it, ot) = (inp.last().filter(|x| x.1.terminal()), out.last().filter(|x| x.1.terminal()));
    let passes_term = |late: u64| -> Option<String> {
      match (it, ot) {
        (None, Some(x)) => Some(format!("{:?}: {:?} out of nowhere", op, x.1)),
        (Some(a), None) if a.0.saturating_add(late) < e => Some(format!("{:?}: {:?} did not come through", op, a.1)),
        (Some(a), Some(x)) if a.1 != x.1 => Some(format!("{:?}: {:?} became {:?}", op, a.1, x.1)),
        (Some(a), Some(x)) if x.0 < a.0 || x.0 > a.0 + late => {
          Some(format!("{:?}: {:?} at {} came through at {}", op, a.1, a.0, x.0))
        }
        _ => None,
      }
    };
    // an item and the terminal of two threads at the very same time
    if let Some(t) = logs[i].iter().find(|x| x.1.terminal()) {
      let two = b.ops[..i].iter().any(|o| matches!(o, Op::Debounce(_) | Op::Sample(_)));
      let two = two || t.1 == Ev::E(Er::new(-9, 0));
      if two && logs[i].iter().any(|x| !x.1.terminal() && x.0 == t.0) {
        continue;
      }
    }
    if i > 0 && matches!(b.ops[i - 1], Op::Debounce(_) | Op::Sample(_)) && it.map(|t| ii.iter().any(|x| x.0 == t.0)).unwrap_or(false) {
      continue;
    }
    let r = match op {
      Op::Map | Op::SubscribeOn => has(out, inp, e, &format!("{:?}", op)),
      Op::ObserveOn => {
        if held(i + 1) {
          let n = oi.len();
          if n > ii.len() || oi.iter().zip(&ii).any(|(a, b)| a.1 != b.1 || a.0 < b.0) {
            Some(format!("observe_on: {:?} became {:?}", ii, oi))
          } else {
            None
          }
        } else {
          has(out, inp, e, "observe_on")
        }
      }
      Op::Take(k) => {
        let mut want: Vec<_> = ii.iter().take(*k).cloned().collect();
        if want.len() == *k {
          want.push((want[*k - 1].0, Ev::C));
        } else if let Some(t) = it {
          want.push(t.clone());
        }
        if held(i + 1) {
          None
        } else {
          has(out, &want, e, "take")
        }
      }
      Op::Delay(d) => {
        let want: Vec<_> = ii.iter().map(|x| (x.0 + d * unit(), x.1.clone())).collect();
        // (below debounce and sample the completion comes from another thread and may overtake)
        let two = b.ops[..i].iter().any(|o| matches!(o, Op::Debounce(_) | Op::Sample(_)));
        let e2 = match it {
          Some(t) if t.1 != Ev::C || two => e.min(t.0),
          _ => e,
        };
        labels.push("delay judged".into());
        let mut h = held(i + 1);
        h |= false;
        if h {
          // the next one holds the thread: its own log tells when the item went in
          has(&oi, &want, e2, &format!("delay({}us)", d))
        } else {
          has(&oi, &want, e2, &format!("delay({}us)", d)).or_else(|| passes_term(d * unit()))
        }
      }
      Op::Timeout(d) => {
        let d = d * unit();
        let late = hold(i + 1);
        let fire = ot.filter(|x| x.1 == Ev::E(Er::new(-9, 0))).map(|x| x.0);
        if fire.is_some() {
          labels.push("timeout fired".into());
        } else if ii.len() > 1 {
          labels.push("timeout did not fire".into());
        }
        if late > 0 {
          labels.push("timeout above a slow consumer".into());
        }
        let mut bad = None;
        // an item is due to be passed on until the timeout
        let mut over = false;
        let mut passed: Vec<(u64, Ev)> = vec![];
        for (k, (t, x)) in inp.iter().enumerate() {
          if x.terminal() && *x == Ev::E(Er::new(-9, 0)) && fire.is_some() {
            // a timeout of the source
            over = true;
            break;
          }
          if fire.map(|f| f < *t).unwrap_or(false) {
            break;
          }
          if fire == Some(*t) {
            // at the moment of the timeout: either came first; but was it due?
            let due = passed.last().map(|l| *t >= l.0 + d && *t <= l.0 + d + late).unwrap_or(false);
            if !due {
              bad = Some(format!("timeout: fired at {}, at the time of an item", t));
              break;
            }
            passed.extend(inp[k..].iter().filter(|x| x.0 == *t).cloned());
            over = true;
            break;
          }
          passed.push((*t, x.clone()));
          if x.terminal() {
            over = true;
            break;
          }
          let next = inp.get(k + 1).map(|n| n.0).unwrap_or(u64::MAX);
          // (the time runs from the item, at the latest from when it was handed over)
          if let Some(f) = fire {
            if f < next && f < t + d {
              bad = Some(format!("timeout: fired at {}, only {}us after an item", f, (f - t) / unit()));
              break;
            }
            if f > t + d + late && next > t + d + late {
              bad = Some(format!("timeout: fired at {} instead of {}", f, t + d));
              break;
            }
          } else if next > t + d + late && t + d + late < e {
            bad = Some(format!("timeout: did not fire at {}", t + d));
            break;
          }
        }
        if bad.is_none() && fire.is_some() && !over && passed.is_empty() {
          bad = Some("timeout: fired before the first item".into());
        }
        if let (Some(f), true) = (fire, passed.last().map(|x| x.1.terminal()).unwrap_or(false)) {
          if passed.last().unwrap().0 < f {
            bad = Some(format!("timeout: fired at {} after the source had ended", f));
          }
        }
        if bad.is_none() {
          // what came at the moment of the timeout may be cut off
          let lim = fire.unwrap_or(u64::MAX).min(e);
          let got: Vec<_> = out.iter().filter(|x| x.1 != Ev::E(Er::new(-9, 0))).cloned().collect();
          let want: Vec<_> = passed.iter().filter(|x| x.1 != Ev::E(Er::new(-9, 0))).cloned().collect();
          bad = has(&got, &want, lim, "timeout");
        }
        if bad.is_none() && fire.is_none() {
          bad = passes_term(0);
        }
        bad
      }
      Op::Debounce(_) | Op::Sample(_) => {
        let mut k = 0;
        let mut bad = None;
        for (t, x) in &oi {
          match ii[k..].iter().position(|y| y.1 == *x) {
            Some(p) if ii[k + p].0 <= *t => k += p + 1,
            _ => {
              bad = Some(format!(
                "{:?}: {:?} at {} is not an item of the source, came already, or is out of order ({:?})",
                op, x, t, ii
              ));
              break;
            }
          }
        }
        if !oi.is_empty() {
          labels.push(format!("{} delivered", if matches!(op, Op::Sample(_)) { "sample" } else { "debounce" }));
        }
        bad.or_else(|| if held(i + 1) { None } else { passes_term(0) })
      }
      Op::Timestamp => {
        labels.push("timestamp judged".into());
        let want: Vec<_> = inp
          .iter()
          .map(|(t, x)| match x {
            Ev::N(v) => (*t, Ev::N(V::l(vec![V::i(*t as i64 + epoch_base()), v.clone()]))),
            e => (*t, e.clone()),
          })
          .collect();
        has(out, &want, e, "timestamp")
      }
      Op::TimeInterval => {
        labels.push("time_interval judged".into());
        let mut want: Vec<(u64, Ev)> =
          ii.windows(2).map(|w| (w[1].0, Ev::N(V::i((w[1].0 - w[0].0) as i64)))).collect();
        if let (Some(t), Some(l)) = (it, ii.last()) {
          if t.1 == Ev::C {
            // the time up to the completion
            want.push((t.0, Ev::N(V::i((t.0 - l.0) as i64))));
          }
        }
        if held(i + 1) {
          // (the last item holds up the completion)
          has(&oi, &want, e, "time_interval")
        } else {
          if let Some(t) = it {
            want.push(t.clone());
          }
          has(out, &want, e, "time_interval")
        }
      }
    };
    if r.is_some() {
      return r;
    }
  }
  None
}
/// SystemTime of virtual time 0
fn epoch_base() -> i64 {
  epoch(SystemTime::now()) - vprt::now() as i64
}
pub fn random() -> CaseOut {
  run(tape::with(|d| gen(d, false)))
}
pub fn small() -> CaseOut {
  run(tape::with(|d| gen(d, true)))
}

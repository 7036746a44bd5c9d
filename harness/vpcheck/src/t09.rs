//! C09: observe_on / subscribe_on.
use crate::engine::CaseOut;
use crate::tape::{self, Draw};
use crate::th::*;
use crate::val::*;
use another_rxrust::prelude::*;
use vp_std::vprt;

#[derive(Clone, Debug, PartialEq)]
enum St {
  ObserveOn,
  SubscribeOn,
  ObserveOnDefault,
  SubscribeOnDefault,
  Map,
  Even,
  Tap,
  Scan,
  Take(usize),
  Skip(usize),
  Delay(u64),
}
#[derive(Clone, Debug, PartialEq)]
enum SrcKind {
  /// emits on the subscribing thread, stops when it sees the end
  Sync,
  /// the same, but never looks
  SyncRude,
  /// spawns a thread that emits
  Threaded,
  /// another thread emits once the source was subscribed
  Hot,
  Subject,
  /// from_iter: no error
  Iter,
}
#[derive(Clone, Debug)]
struct Case {
  src: SrcKind,
  evs: Vec<Ev>,
  /// sleep before event i (ms)
  gaps: Vec<u64>,
  stages: Vec<St>,
  subs: usize,
  /// (thread: 0 the main thread, 1 another one, 2 inside the k-th item callback; ms or k)
  unsub: Option<(u32, u64)>,
}
fn gen(d: &mut Draw, unsub: bool) -> Case {
  let src = match d.below(6) {
    0 => SrcKind::Sync,
    1 => SrcKind::Threaded,
    2 => SrcKind::Hot,
    3 => SrcKind::Subject,
    4 => SrcKind::Iter,
    _ => SrcKind::SyncRude,
  };
  let mut evs = vec![];
  let mut gaps = vec![];
  let mut n = d.below(6);
  let timed = d.chance(1, 3);
  if !timed && d.chance(1, 300) {
    n = *d.pick(&[20, 40, 70, 130, 260, 260]);
  }
  for i in 0..n {
    evs.push(Ev::N(V::i(d.range(0, 9) * 10 + i as i64)));
    gaps.push(if timed { d.below(4) as u64 } else { 0 });
  }
  match d.weighted(&[5, if src == SrcKind::Iter { 0 } else { 3 }, if src == SrcKind::Iter { 0 } else { 1 }]) {
    0 => evs.push(Ev::C),
    1 => evs.push(Ev::E(Er::new(d.below(3) as i64, 77))),
    _ if src == SrcKind::Iter => evs.push(Ev::C),
    _ => {}
  }
  gaps.push(if timed { d.below(4) as u64 } else { 0 });
  let mut stages = vec![];
  let k = 1 + d.below(4);
  for _ in 0..k {
    stages.push(match d.weighted(&[6, 4, 2, 1, 1, 1, 1, 1, 1, 1, 1]) {
      0 => St::ObserveOn,
      1 => St::SubscribeOn,
      2 => St::Map,
      3 => St::Even,
      4 => St::Tap,
      5 => St::Scan,
      6 => St::Take(1 + d.below(4) as usize),
      7 => St::Skip(d.below(3) as usize),
      8 => St::ObserveOnDefault,
      9 => St::SubscribeOnDefault,
      // (the run waits a fixed time for everything to arrive)
      _ if n > 10 => St::Map,
      _ => St::Delay(d.below(3) as u64),
    });
  }
  if !stages.iter().any(|s| matches!(s, St::ObserveOn | St::SubscribeOn)) {
    stages.push(if d.chance(1, 3) { St::SubscribeOn } else { St::ObserveOn });
  }
  let subs = 1 + (d.below(4) == 3) as usize;
  let unsub = if unsub {
    let who = d.below(3);
    Some((who, if who == 2 { d.below(3) as u64 } else { d.below(6) as u64 }))
  } else {
    None
  };
  Case { src, evs, gaps, stages, subs, unsub }
}
/// what comes out, with the number of the source event that made it
fn expect(evs: &[Ev], stages: &[St]) -> Vec<(Ev, usize)> {
  let mut v: Vec<(Ev, usize)> = evs.iter().cloned().enumerate().map(|(i, e)| (e, i)).collect();
  for s in stages {
    let mut out = vec![];
    let (mut acc, mut n) = (None::<i64>, 0);
    for (e, i) in v {
      let x = match &e {
        Ev::N(x) => x.num(),
        _ => {
          out.push((e, i));
          break;
        }
      };
      match s {
        St::Map => out.push((Ev::N(V::i(x + 1000)), i)),
        St::Even => {
          if x % 2 == 0 {
            out.push((e, i))
          }
        }
        St::Scan => {
          let a = acc.map(|a| a + x).unwrap_or(x);
          acc = Some(a);
          out.push((Ev::N(V::i(a)), i));
        }
        St::Take(k) => {
          n += 1;
          out.push((e, i));
          if n == *k {
            out.push((Ev::C, i));
            break;
          }
        }
        St::Skip(k) => {
          n += 1;
          if n > *k {
            out.push((e, i))
          }
        }
        _ => out.push((e, i)),
      }
    }
    v = out;
  }
  v
}
fn build(src: Observable<'static, V>, stages: &[St], taps: &Sh<Vec<(usize, usize)>>) -> Observable<'static, V> {
  let mut o = src;
  for (i, s) in stages.iter().enumerate() {
    o = match s {
      St::ObserveOn => o.observe_on(schedulers::new_thread_scheduler()),
      St::SubscribeOn => o.subscribe_on(schedulers::new_thread_scheduler()),
      St::ObserveOnDefault => o.observe_on(schedulers::default_scheduler()),
      St::SubscribeOnDefault => o.subscribe_on(schedulers::default_scheduler()),
      St::Map => o.map(|x| V::i(x.num() + 1000)),
      St::Even => o.filter(|x| x.num() % 2 == 0),
      St::Tap => {
        let t = taps.clone();
        o.tap(move |_| t.with(|t| t.push((i, vprt::cur_tid()))), |_| {}, || {})
      }
      St::Scan => o.scan(|(a, b)| V::i(a.num() + b.num())),
      St::Take(n) => o.take(*n),
      St::Skip(n) => o.skip(*n),
      St::Delay(n) => o.delay(std_duration(*n)),
    }
  }
  o
}
/// emission begin stamps per subscription of the source, event by event
type Ems = Sh<Vec<Vec<u64>>>;
#[derive(Default)]
struct Log {
  /// thread on which the source was subscribed
  src_tids: Vec<usize>,
  /// threads that emitted
  em_tids: Vec<usize>,
}
fn play(c: &Case, o: &dyn Fn(&Ev) -> bool, ems: &Ems, slot: usize, log: &Sh<Log>) {
  for (i, e) in c.evs.iter().enumerate() {
    if c.gaps[i] > 0 {
      vprt::sleep_ns(c.gaps[i] * MS);
    }
    let st = vprt::stamp();
    let tid = vprt::cur_tid();
    log.with(|l| {
      if !l.em_tids.contains(&tid) {
        l.em_tids.push(tid)
      }
    });
    ems.with(|m| {
      m[slot].push(st);
    });
    if !o(e) {
      break;
    }
  }
}
fn scenario(c: Case) -> CaseOut {
  let mut o = case_out(format!("{:?}", c));
  let recs: Vec<Recorder> = (0..c.subs).map(|_| Recorder::new()).collect();
  let ems: Ems = Sh::new(vec![]);
  let log: Sh<Log> = Sh::new(Log::default());
  let taps: Sh<Vec<(usize, usize)>> = Sh::new(vec![]);
  let unsubbed: Sh<Vec<u64>> = Sh::new(vec![u64::MAX; c.subs]);
  let unsub_begin: Sh<Vec<u64>> = Sh::new(vec![u64::MAX; c.subs]);
  let after: Sh<Vec<(bool, bool)>> = Sh::new(vec![]);
  let (c2, r2, e2, l2, t2, u2, ub2, a2) = (
    c.clone(),
    recs.clone(),
    ems.clone(),
    log.clone(),
    taps.clone(),
    unsubbed.clone(),
    unsub_begin.clone(),
    after.clone(),
  );
  let out = run_sched(vprt::Config::default(), o.key, move || {
    let c = c2;
    let hot = Src::new();
    let sbj = subjects::Subject::<V>::new();
    let is_hot = matches!(c.src, SrcKind::Hot | SrcKind::Subject);
    if is_hot {
      e2.with(|m| m.push(vec![]));
    }
    let src: Observable<'static, V> = match c.src {
      SrcKind::Hot => hot.observable(),
      SrcKind::Subject => {
        let h = Sh::new(sbj.clone());
        let l = l2.clone();
        observables::defer(move || {
          l.with(|l| l.src_tids.push(vprt::cur_tid()));
          h.get().observable()
        })
      }
      SrcKind::Iter => {
        let (c, e, l) = (c.clone(), e2.clone(), l2.clone());
        observables::defer(move || {
          let slot = e.with(|m| {
            m.push(vec![]);
            m.len() - 1
          });
          l.with(|l| l.src_tids.push(vprt::cur_tid()));
          let items: Vec<V> = c
            .evs
            .iter()
            .filter_map(|x| match x {
              Ev::N(v) => Some(v.clone()),
              _ => None,
            })
            .collect();
          let (e2, l2) = (e.clone(), l.clone());
          observables::from_iter(items.into_iter()).tap(
            {
              let (e, l) = (e2.clone(), l2.clone());
              move |_| {
                e.with(|m| m[slot].push(vprt::stamp()));
                l.with(|l| l.em_tids.push(vprt::cur_tid()));
              }
            },
            |_| {},
            {
              let e = e2.clone();
              move || e.with(|m| m[slot].push(vprt::stamp()))
            },
          )
        })
      }
      _ => {
        let (c, e, l) = (c.clone(), e2.clone(), l2.clone());
        Observable::create(move |s: Observer<'static, V>| {
          let slot = e.with(|m| {
            m.push(vec![]);
            m.len() - 1
          });
          l.with(|l| l.src_tids.push(vprt::cur_tid()));
          let (c, e, l) = (c.clone(), e.clone(), l.clone());
          let rude = c.src == SrcKind::SyncRude;
          let threaded = c.src == SrcKind::Threaded;
          let body = move || {
            play(
              &c,
              &|ev| {
                if !rude && !s.is_subscribed() {
                  return false;
                }
                send(&s, ev);
                true
              },
              &e,
              slot,
              &l,
            )
          };
          if threaded {
            spawn(body);
          } else {
            body()
          }
        })
      }
    };
    let ob = build(src, &c.stages, &t2);
    let mut sbs = vec![];
    let mut ths = vec![];
    for k in 0..c.subs {
      let slot: Sh<Option<Subscription<'static>>> = Sh::new(None);
      let unsub = {
        let (slot, u, ub) = (slot.clone(), u2.clone(), ub2.clone());
        move || {
          let s = slot.get();
          if let Some(s) = s {
            let b = vprt::stamp();
            ub.with(|v| v[k] = v[k].min(b));
            s.unsubscribe();
            let st = vprt::stamp();
            u.with(|v| v[k] = v[k].min(st));
          }
        }
      };
      let un = unsub.clone();
      let (who, at) = c.unsub.unwrap_or((9, 0));
      let n: Sh<u64> = Sh::new(0);
      let un = Sh::new(un);
      let s = r2[k].subscribe_with(&ob, move |_| {
        if who == 2 && n.with(|n| std::mem::replace(n, *n + 1)) == at {
          un.get()();
        }
      });
      slot.set(Some(s.clone()));
      if who == 1 {
        let un = Sh::new(unsub.clone());
        ths.push(spawn(move || {
          if at > 0 {
            vprt::sleep_ns(at * MS - MS / 2)
          }
          un.get()();
        }));
      }
      sbs.push((s, slot, unsub));
    }
    if is_hot {
      let (c, e, l, h, t) = (c.clone(), e2.clone(), l2.clone(), hot.clone(), Sh::new(sbj.clone()));
      ths.push(spawn(move || {
        // once every subscription has arrived, or none ever will
        vprt::settle();
        let (h, t) = (h, t.get());
        let is_src = c.src == SrcKind::Hot;
        play(
          &c,
          &|ev| {
            if is_src {
              h.emit(ev)
            } else {
              match ev {
                Ev::N(v) => t.next(v.clone()),
                Ev::E(e) => t.error(rx_error(e.code, e.uid)),
                Ev::C => t.complete(),
              }
            }
            true
          },
          &e,
          0,
          &l,
        )
      }));
    }
    if let Some((0, at)) = c.unsub {
      if at > 0 {
        vprt::sleep_ns(at * MS - MS / 2)
      }
      for s in &sbs {
        (s.2)()
      }
    }
    join_all(ths);
    vprt::settle();
    vprt::sleep_ns(100 * MS);
    vprt::settle();
    for s in &sbs {
      let before = s.0.is_subscribed();
      s.0.unsubscribe();
      a2.with(|v| v.push((before, s.0.is_subscribed())));
      s.1.set(None);
    }
    hot.clear();
  });
  if let Some(t) = out.trouble() {
    o.fail(t);
    return o;
  }
  let want = expect(&c.evs, &c.stages);
  let log = log.0.borrow();
  let last_sched = c.stages.iter().rposition(|s| matches!(s, St::ObserveOn | St::SubscribeOn));
  let on_worker = c.stages.iter().any(|s| *s == St::ObserveOn);
  for (k, r) in recs.iter().enumerate() {
    let cbs = r.cbs();
    let show = || format!("subscriber {}: expected {:?}, got{}", k, want.iter().map(|x| &x.0).collect::<Vec<_>>(), show_cbs(&cbs));
    let got: Vec<&Ev> = cbs.iter().map(|c| &c.ev).collect();
    let (ub, ue) = (unsub_begin.with(|v| v[k]), unsubbed.with(|v| v[k]));
    let pre: Vec<&Ev> = want.iter().take(got.len()).map(|x| &x.0).collect();
    if got != pre {
      o.fail(format!("events lost, reordered or made up; {}", show()));
      continue;
    }
    if ub == u64::MAX && got.len() != want.len() {
      o.fail(format!("events lost; {}", show()));
    }
    let ended = got.last().map(|e| e.terminal()).unwrap_or(false) || ub != u64::MAX;
    let a = after.with(|v| v[k]);
    if a.0 == ended || a.1 {
      o.fail(format!("is_subscribed {} / after unsubscribe {}; {}", a.0, a.1, show()));
    }
    // all callbacks disjoint; with an observe_on on one thread that emits nothing itself
    for w in cbs.windows(2) {
      if w[1].start < w[0].end && w[1].tid != w[0].tid {
        o.fail(format!("two callbacks at once; {}", show()));
      }
      if on_worker && w[1].tid != w[0].tid {
        o.fail(format!("callbacks on different threads; {}", show()));
      }
    }
    if on_worker {
      for x in &cbs {
        if x.tid == 0 || log.em_tids.contains(&x.tid) {
          o.fail(format!("a callback ran on the emitting or subscribing thread; {}", show()));
        }
      }
    }
    if c.src == SrcKind::Hot || c.src == SrcKind::Subject || c.subs == 1 {
      let e = ems.with(|m| m.first().cloned().unwrap_or_default());
      for (i, x) in cbs.iter().enumerate() {
        let st = e.get(want[i].1).copied().unwrap_or(0);
        if st == 0 {
          o.fail(format!("harness: event without an emission; {}", show()));
        } else if st > ue {
          o.fail(format!(
            "{:?} was emitted at {}, after unsubscribe returned at {}, but delivered; {}",
            x.ev,
            st,
            ue,
            show()
          ));
        }
      }
    }
    if !cbs.is_empty() && (ub == u64::MAX || got.len() < want.len()) {
      o.nontrivial = true;
    }
    if ub != u64::MAX && got.len() < want.len() {
      o.label("cut short by unsubscribe");
    }
    let late = cbs.iter().filter(|x| x.start > ue).count();
    if late > 0 {
      o.label("delivered after unsubscribe returned (emitted before)");
    }
  }
  // subscribe_on: the source is subscribed on another thread
  if c.stages.iter().any(|s| *s == St::SubscribeOn) {
    for t in &log.src_tids {
      if *t == 0 {
        o.fail("subscribe_on: the source was subscribed on the thread of the subscriber");
      }
    }
  }
  let _ = last_sched;
  for s in &c.stages {
    if matches!(s, St::ObserveOn | St::SubscribeOn) {
      o.label(format!("{:?} over {:?}", s, c.src));
    }
  }
  o
}
pub fn order() -> CaseOut {
  let c = tape::with(|d| gen(d, false));
  scenario(c)
}
pub fn unsub() -> CaseOut {
  let c = tape::with(|d| gen(d, true));
  scenario(c)
}
/// one stage, few events; all schedules with few preemptions
pub fn small() -> CaseOut {
  let c = tape::with(|d| {
    let u = d.chance(1, 2);
    let mut c = gen(d, u);
    if c.src == SrcKind::Iter {
      c.evs.truncate(2);
      c.evs.push(Ev::C);
    }
    c.evs.truncate(3);
    c.subs = 1;
    c.stages.truncate(2);
    if !c.stages.iter().any(|s| matches!(s, St::ObserveOn | St::SubscribeOn)) {
      c.stages = vec![if d.chance(1, 3) { St::SubscribeOn } else { St::ObserveOn }];
    }
    c
  });
  scenario(c)
}

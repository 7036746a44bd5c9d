//! The same pipelines on the library.
use crate::ast::*;
use crate::model::{comb, Rec, Tr};
use crate::val::*;
use another_rxrust::prelude::*;
use std::time::Duration;
use vp_std::vprt;

pub type Obl = Observable<'static, V>;
pub type Obsr = Observer<'static, V>;

pub struct HotL {
  pub kind: HotKind,
  pub obs: Vec<(usize, Obsr, bool)>,
  pub subj: Option<subjects::Subject<'static, V>>,
  pub n: usize,
}
pub struct LState {
  pub step: usize,
  pub trace: Vec<Tr>,
  pub hots: Vec<HotL>,
  pub cold_n: Vec<usize>,
  pub cold_emits: Vec<Vec<u32>>,
  pub recs: Vec<(Rec, Obsr)>,
  pub hot_live: Vec<(usize, usize, usize, bool)>,
  pub subs: Vec<Option<Subscription<'static>>>,
  pub callbacks: usize,
  /// yield inside callbacks (threads engine)
  pub yields: bool,
  pub dead_cb: Vec<usize>,
  pub pokes: usize,
  pub root: Option<Obl>,
}
#[derive(Clone)]
pub struct Lx {
  pub s: Sh<LState>,
  pub case: Sh<Case>,
}
impl Lx {
  pub fn new(case: &Case) -> Lx {
    Lx {
      s: Sh::new(LState {
        step: 0,
        trace: vec![],
        hots: case
          .hots
          .iter()
          .map(|k| HotL {
            kind: *k,
            obs: vec![],
            subj: if *k == HotKind::Subject { Some(subjects::Subject::new()) } else { None },
            n: 0,
          })
          .collect(),
        cold_n: vec![0; case.colds.len()],
        cold_emits: vec![vec![]; case.colds.len()],
        recs: vec![],
        hot_live: vec![],
        subs: vec![],
        dead_cb: vec![],
        pokes: 0,
        root: None,
        callbacks: 0,
        yields: false,
      }),
      case: Sh::new(case.clone()),
    }
  }
  pub fn log(&self, who: usize, ev: Ev) {
    self.s.with(|s| {
      let step = s.step;
      s.trace.push(Tr { step, who, ev: ev.plain() })
    })
  }
  pub fn emit(&self, h: usize, ev: &Ev) {
    let (kind, subj) = self.s.with(|s| (s.hots[h].kind, s.hots[h].subj.clone()));
    if kind == HotKind::Subject {
      let sj = subj.unwrap();
      match ev {
        Ev::N(v) => sj.next(v.clone()),
        Ev::E(e) => sj.error(rx_error(e.code, e.uid)),
        Ev::C => sj.complete(),
      }
      return;
    }
    let snap = self.s.with(|s| s.hots[h].obs.clone());
    for (i, (k, o, _)) in snap.into_iter().enumerate() {
      let live = o.is_subscribed();
      let done = self.s.with(|s| {
        let step = s.step;
        s.hot_live.push((step, h, k, live));
        s.hots[h].obs.get(i).map(|x| x.2).unwrap_or(true)
      });
      if kind == HotKind::Rude || (live && !done) {
        if ev.terminal() {
          self.s.with(|s| {
            if let Some(x) = s.hots[h].obs.get_mut(i) {
              x.2 = true
            }
          });
        }
        match ev {
          Ev::N(v) => o.next(v.clone()),
          Ev::E(e) => o.error(rx_error(e.code, e.uid)),
          Ev::C => o.complete(),
        }
      }
    }
  }
}

#[derive(Clone)]
struct EndlessIter(i64, Tk);
impl Iterator for EndlessIter {
  type Item = V;
  fn next(&mut self) -> Option<V> {
    self.1.hit();
    self.0 += 1;
    Some(V::i(self.0 - 1))
  }
}

/// captured by every closure given to an operator or creation function: counts as owned by the
/// library, and may call the library again
#[derive(Clone)]
struct Tk(#[allow(dead_code)] Cnt, Lx);
fn tk(x: &Lx) -> Tk {
  Tk(tok(), x.clone())
}
impl Tk {
  fn hit(&self) {
    let x = &self.1;
    let p = match x.case.with(|c| c.poke.clone()) {
      Some(p) => p,
      None => return,
    };
    let n = x.s.with(|s| {
      s.pokes += 1;
      s.pokes
    });
    if n != p.0 {
      return;
    }
    match p.1 {
      Poke::Emit(h, e) => x.emit(h, &e),
      Poke::Unsub => {
        let sb = x.s.with(|s| s.subs.get(0).cloned().flatten());
        if let Some(sb) = sb {
          sb.unsubscribe()
        }
      }
      Poke::Sub => {
        let r = x.s.with(|s| s.root.clone());
        if let Some(r) = r {
          subscribe(x, &r)
        }
      }
      Poke::Join(h) => {
        let sj = x.s.with(|s| s.hots[h].subj.clone());
        if let Some(sj) = sj {
          sj.observable().subscribe(|_| {}, |_| {}, || {});
        }
      }
    }
  }
}

pub fn build(x: &Lx, n: &Node) -> Obl {
  let x = x.clone();
  match n {
    Node::Hot(h) => {
      let h = *h;
      if let Some(sj) = x.s.with(|s| s.hots[h].subj.clone()) {
        return sj.observable();
      }
      let t = tk(&x);
      Observable::create(move |s: Obsr| {
        t.hit();
        if !s.is_subscribed() {
          return;
        }
        x.s.with(|st| {
          let k = st.hots[h].n;
          st.hots[h].n += 1;
          st.hots[h].obs.push((k, s.clone(), false));
          st.recs.push((Rec { src: (0, h), k }, s));
        })
      })
    }
    Node::Cold(c) => {
      let c = *c;
      let t = tk(&x);
      Observable::create(move |s: Obsr| {
        t.hit();
        if !s.is_subscribed() {
          return;
        }
        let k = x.s.with(|st| {
          let k = st.cold_n[c];
          st.cold_n[c] += 1;
          st.cold_emits[c].push(0);
          st.recs.push((Rec { src: (1, c), k }, s.clone()));
          k
        });
        let (sc, rude) = x.case.with(|cs| {
          let a = &cs.colds[c].attempts;
          (a[k.min(a.len() - 1)].clone(), cs.colds[c].rude)
        });
        for e in sc {
          if !rude && !s.is_subscribed() {
            break;
          }
          x.s.with(|st| st.cold_emits[c][k] += 1);
          match e {
            Ev::N(v) => s.next(v),
            Ev::E(e) => s.error(rx_error(e.code, e.uid)),
            Ev::C => s.complete(),
          }
        }
      })
    }
    Node::Just(a) => observables::just(V::i(*a)),
    Node::Iter(v) => observables::from_iter(v.iter().map(|a| V::i(*a)).collect::<Vec<V>>().into_iter()),
    Node::Range(a, b) => {
      let t = tk(&x);
      observables::range(*a, *b).map(move |a| {
        t.hit();
        V::i(a)
      })
    }
    Node::Empty => observables::empty(),
    Node::Never => observables::never(),
    Node::Err(e) => observables::error(rx_error(e.code, e.uid)),
    Node::Start(a) => {
      let (a, t) = (*a, tk(&x));
      observables::start(move || {
        t.hit();
        V::i(a)
      })
    }
    Node::FromRes(Ok(a)) => observables::from_result(Ok::<V, Payload0>(V::i(*a))),
    Node::FromRes(Err(e)) => observables::from_result(Err::<V, Payload>(payload(e.code, e.uid))),
    Node::Repeat(a) => observables::repeat(V::i(*a)),
    Node::Endless => observables::from_iter(EndlessIter(0, tk(&x))),
    Node::Defer(a) => {
      let a = build(&x, a);
      let t = tk(&x);
      observables::defer(move || {
        t.hit();
        a.clone()
      })
    }
    Node::Share(r, a) => {
      let a = build(&x, a);
      if *r {
        a.replay().observable()
      } else {
        a.ref_count().observable()
      }
    }
    Node::Un(op, a) => apply(&x, op, build(&x, a)),
    Node::Rsg(a, acts) => {
      let a = build(&x, a);
      let (acts, t) = (acts.clone(), tk(&x));
      utils::ready_set_go(
        move || {
          t.hit();
          for (h, e) in &acts {
            x.emit(*h, e)
          }
        },
        a,
      )
    }
    Node::Multi(op, v) => {
      let mut v: Vec<Obl> = v.iter().map(|a| build(&x, a)).collect();
      let rest = v.split_off(1);
      let a = v.pop().unwrap();
      match op {
        MOp::Merge => a.merge(&rest),
        MOp::Concat => a.concat(&rest),
        MOp::Amb => a.amb(&rest),
        MOp::Zip => a.zip(&rest).map(V::l),
        MOp::Comb(f) => {
          let (f, t) = (*f, tk(&x));
          a.combine_latest(&rest, move |r| {
            t.hit();
            comb(f, r)
          })
        }
        MOp::SeqEq => a.sequence_equal(&rest).map(V::b),
      }
    }
    Node::Trig(op, a, b) => {
      let (a, b) = (build(&x, a), build(&x, b));
      match op {
        TOp::TakeUntil => a.take_until(b),
        TOp::SkipUntil => a.skip_until(b),
        TOp::Sample => a.sample(b),
        TOp::SwitchOnNext => a.switch_on_next(b),
      }
    }
    Node::FlatMap(a, t) => {
      let a = build(&x, a);
      let t: Vec<Obl> = t.iter().map(|n| build(&x, n)).collect();
      let k = tk(&x);
      a.flat_map(move |v: V| {
        k.hit();
        t[v.num().rem_euclid(t.len() as i64) as usize].clone()
      })
    }
    Node::Resume(a, t) => {
      let a = build(&x, a);
      let t: Vec<Obl> = t.iter().map(|n| build(&x, n)).collect();
      let k = tk(&x);
      a.on_error_resume_next(move |e| {
        k.hit();
        t[Er::from_rx(&e).code.rem_euclid(t.len() as i64) as usize].clone()
      })
    }
    Node::Retry(n, a) => build(&x, a).retry(*n),
    Node::RetryWhen(p, a) => {
      let (p, t) = (*p, tk(&x));
      build(&x, a).retry_when(move |e| {
        t.hit();
        pred_e(p, Er::from_rx(&e).code)
      })
    }
    Node::TmSrc(s) => {
      let nt = schedulers::new_thread_scheduler;
      let ns = Duration::from_nanos;
      match s {
        TmSrc::Interval(d) => observables::interval(ns(*d), nt()).map(|x| V::i(x as i64)),
        TmSrc::Timer(d) => observables::timer(ns(*d), nt()).map(|_| V::i(7)),
        TmSrc::Script(w) | TmSrc::Rude(w) => {
          let (v, rude) = (w.clone(), matches!(s, TmSrc::Rude(_)));
          Observable::create(move |o: Obsr| {
            let v = v.clone();
            crate::th::spawn(move || {
              for (g, e) in v {
                if g > 0 {
                  vprt::sleep_ns(g);
                }
                if !rude && !o.is_subscribed() {
                  break;
                }
                crate::th::send(&o, &e);
              }
            });
          })
        }
      }
    }
    Node::Tm(op, a) => {
      let a = build(&x, a);
      let nt = schedulers::new_thread_scheduler;
      let ns = Duration::from_nanos;
      match op {
        Tm::Delay(d) => a.delay(ns(*d)),
        Tm::Timeout(d) => a.timeout(ns(*d), nt()),
        Tm::Debounce(d) => a.debounce(ns(*d), nt()),
        Tm::ObserveOn(d) => {
          let d = *d;
          a.observe_on(move || crate::t14::Late(nt()(), d))
        }
        Tm::SubscribeOn(d) => {
          let d = *d;
          a.subscribe_on(move || crate::t14::Late(nt()(), d))
        }
        Tm::TimeInterval => a.time_interval().map(|d| V::i(d.as_nanos() as i64)),
      }
    }
    Node::Window(n, a, chain) => {
      let (chain, t) = (chain.clone(), tk(&x));
      build(&x, a).window_with_count(*n).flat_map(move |w| {
        t.hit();
        chain_obl(&x, &chain, w)
      })
    }
    Node::GroupBy(k, a, chain) => {
      let (chain, t, t2, k) = (chain.clone(), tk(&x), tk(&x), *k);
      build(&x, a)
        .group_by(move |v| {
          t.hit();
          key(k, &v)
        })
        .flat_map(move |w| {
          t2.hit();
          chain_obl(&x, &chain, w)
        })
    }
  }
}
type Payload0 = i32;
pub fn payload(code: i64, uid: u64) -> Payload {
  Payload::new(code, uid)
}
fn chain_obl(x: &Lx, chain: &[Op], mut o: Obl) -> Obl {
  for op in chain {
    o = apply(x, op, o)
  }
  o
}
pub fn apply(x: &Lx, op: &Op, a: Obl) -> Obl {
  let x = x.clone();
  let t = tk(&x);
  match op.clone() {
    Op::Map(f) => a.map(move |v| {
      t.hit();
      f1(f, v)
    }),
    Op::Filter(p) => a.filter(move |v| {
      t.hit();
      pred(p, &v)
    }),
    Op::Take(n) => a.take(n),
    Op::Skip(n) => a.skip(n),
    Op::TakeLast(n) => a.take_last(n),
    Op::SkipLast(n) => a.skip_last(n),
    Op::TakeWhile(p) => a.take_while(move |v| {
      t.hit();
      pred(p, &v)
    }),
    Op::SkipWhile(p) => a.skip_while(move |v| {
      t.hit();
      pred(p, &v)
    }),
    Op::First => a.first(),
    Op::Last => a.last(),
    Op::ElementAt(n) => a.element_at(n),
    Op::Distinct => a.distinct_until_changed(),
    Op::Scan(f) => a.scan(move |(p, q)| {
      t.hit();
      f2(f, p, q)
    }),
    Op::Reduce(f) => a.reduce(move |(p, q)| {
      t.hit();
      f2(f, p, q)
    }),
    Op::Count => a.count().map(|n| V::i(n as i64)),
    Op::Sum => a.sum(),
    Op::SumAndCount => a.sum_and_count().map(|(s, n)| V::new(K::P(Box::new(s), n))),
    Op::Min => a.min(),
    Op::Max => a.max(),
    Op::All(p) => a
      .all(move |v| {
        t.hit();
        pred(p, &v)
      })
      .map(V::b),
    Op::Contains(c) => a.contains(V::i(c)).map(V::b),
    Op::DefaultIfEmpty(c) => a.default_if_empty(V::i(c)),
    Op::IgnoreElements => a.ignore_elements(),
    Op::StartWith(v) => a.start_with(v.into_iter().map(V::i).collect::<Vec<_>>().into_iter()),
    Op::Buffer(n) => a.buffer_with_count(n).map(V::l),
    Op::Mat => a.materialize().map(V::mat),
    Op::Demat => a.map(V::to_mat).dematerialize(),
    Op::Tap(i) => {
      let (x1, x2, x3) = (x.clone(), x.clone(), x);
      let (t1, t2) = (t.clone(), t.clone());
      a.tap(
        move |v| {
          t.hit();
          x1.log(1000 + i, Ev::N(v))
        },
        move |e| {
          t1.hit();
          x2.log(1000 + i, Ev::E(Er::from_rx(&e)))
        },
        move || {
          t2.hit();
          x3.log(1000 + i, Ev::C)
        },
      )
    }
    Op::MapToAny => a.map_to_any().map(|v| match v.downcast_ref::<V>() {
      Some(v) => v.clone(),
      None => V::new(K::U),
    }),
    Op::ObserveOnDefault => a.observe_on(schedulers::default_scheduler()),
    Op::SubscribeOnDefault => a.subscribe_on(schedulers::default_scheduler()),
    Op::Delay => a.delay(Duration::from_millis(3)),
    Op::Timestamp => a.timestamp().map(|p| p.1),
    Op::TimeInterval => a.time_interval().map(|_| V::new(K::U)),
  }
}

pub struct LibOut {
  pub trace: Vec<Tr>,
  pub subscribed: Vec<Vec<bool>>,
  pub recs: Vec<Vec<(Rec, bool)>>,
  pub hot_live: Vec<(usize, usize, usize, bool)>,
  pub cold_emits: Vec<Vec<u32>>,
  pub cold_n: Vec<usize>,
  pub hot_n: Vec<usize>,
  /// steps in which an item callback found its subscription ended
  pub dead_cb: Vec<usize>,
  pub out: vprt::Outcome,
  /// counters of items, closures, errors still alive after everything was dropped (relative)
  pub leaked: [i64; 3],
  /// the same while the sources still have their observers
  pub held: [i64; 3],
}

pub fn subscribe(x: &Lx, root: &Obl) {
  let i = x.s.with(|s| {
    s.subs.push(None);
    s.subs.len() - 1
  });
  let sb = {
    let (x1, x2, x3) = (x.clone(), x.clone(), x.clone());
    let (t1, t2, t3) = (tok(), tok(), tok());
    let cnt = Sh::new((0usize, 0usize));
    let root2 = root.clone();
    let nested = x.case.with(|c| c.nest.is_some());
    let root2 = if nested { Some(root2) } else { None };
    root.subscribe(
      move |v| {
        let _t = &t1;
        x1.log(i, Ev::N(v));
        let (c, e) = cnt.with(|c| {
          c.0 += 1;
          c.1 += 1;
          *c
        });
        if i != 0 {
          return;
        }
        let (nest, uin, ein) = x1.case.with(|c| (c.nest, c.unsub_in, c.emit_in.clone()));
        let sb = x1.s.with(|s| s.subs[0].clone());
        if sb.as_ref().map(|s| !s.is_subscribed()).unwrap_or(false) && uin.map(|u| e <= u).unwrap_or(true) {
          x1.s.with(|s| s.dead_cb.push(s.step));
        }
        if nest == Some(c) {
          if let Some(r) = &root2 {
            subscribe(&x1, r)
          }
        }
        if let Some((n, h, ev)) = ein {
          if n == c {
            x1.emit(h, &ev)
          }
        }
        if uin == Some(e) {
          let how = x1.case.with(|c| c.how);
          if let Some(sb) = sb {
            crate::th::unsubscribe(how, &sb)
          }
        }
      },
      move |e| {
        let _t = &t2;
        x2.log(i, Ev::E(Er::from_rx(&e)))
      },
      move || {
        let _t = &t3;
        x3.log(i, Ev::C)
      },
    )
  };
  x.s.with(|s| s.subs[i] = Some(sb));
}

/// runs the case on the library; `finish`: unsubscribe everybody at the end
pub fn run(case: &Case, finish: bool) -> LibOut {
  run_with(case, finish, if case.long { 20_000_000 } else { 0 } + 400_000 + 20_000 * case.steps.len() as u64)
}
pub fn run_with(case: &Case, finish: bool, max_steps: u64) -> LibOut {
  let case2 = case.clone();
  let before = live();
  let res: Sh<Option<LibOut>> = Sh::new(None);
  let res2 = res.clone();
  let x0 = Lx::new(&case2);
  let acc: Sh<(Vec<Vec<bool>>, Vec<Vec<(Rec, bool)>>)> = Sh::new((vec![], vec![]));
  let (x, acc2) = (x0.clone(), acc.clone());
  // the observers the sources got: a source may keep them as long as it likes
  let kept = Sh::new(None);
  let k2 = kept.clone();
  let cfg = vprt::Config { max_steps, horizon: u64::MAX / 4, spurious: 0, hash_seed: case2.key() };
  let steps = case2.steps.clone();
  let root_spec = case2.root.clone();
  let out = vprt::run(
    cfg,
    None,
    Box::new(move || {
      let root = build(&x, &root_spec);
      if x.case.with(|c| c.poke.is_some()) {
        x.s.with(|s| s.root = Some(root.clone()));
      }
      for (i, st) in steps.iter().enumerate() {
        x.s.with(|s| s.step = i);
        match st {
          Step::Sub => subscribe(&x, &root),
          Step::Emit(h, e) => x.emit(*h, e),
          Step::Unsub(k) => {
            let sb = x.s.with(|s| s.subs.get(*k).cloned().flatten());
            if let Some(sb) = sb {
              crate::th::unsubscribe(x.case.with(|c| c.how), &sb)
            }
          }
        }
        let subs = x.s.with(|s| s.subs.clone());
        let a: Vec<bool> = subs.iter().map(|s| s.as_ref().map(|s| s.is_subscribed()).unwrap_or(false)).collect();
        let recs: Vec<(Rec, Obsr)> = x.s.with(|s| s.recs.clone());
        let b: Vec<(Rec, bool)> = recs.into_iter().map(|(r, o)| (r, o.is_subscribed())).collect();
        acc2.with(|z| {
          z.0.push(a);
          z.1.push(b)
        });
      }
      if finish {
        let subs = x.s.with(|s| s.subs.clone());
        for s in subs.into_iter().flatten() {
          s.unsubscribe()
        }
      }
      // drop every handle of the caller: observable, subscriptions, source registries
      drop(root);
      let root = x.s.with(|s| s.root.take());
      drop(root);
      let (subs, recs) = x.s.with(|s| (std::mem::take(&mut s.subs), std::mem::take(&mut s.recs)));
      drop(subs);
      let obs: Vec<_> = x.s.with(|s| s.hots.iter_mut().map(|h| std::mem::take(&mut h.obs)).collect());
      k2.set(Some((recs, obs)));
      res2.set(Some(LibOut {
        trace: vec![],
        subscribed: vec![],
        recs: vec![],
        hot_live: vec![],
        cold_emits: vec![],
        cold_n: vec![],
        hot_n: vec![],
        dead_cb: vec![],
        out: Default::default(),
        leaked: [0; 3],
        held: [0; 3],
      }));
    }),
  );
  let finished = res.with(|r| r.is_some());
  // a finished run: what still lives belongs to the library (real subjects of the case included
  // in the registry are kept alive on purpose)
  let dead_cb = x0.s.with(|s| s.dead_cb.clone());
  let (trace, hot_live, cold_emits, cold_n, hot_n) = x0.s.with(|s| {
    (
      std::mem::take(&mut s.trace),
      std::mem::take(&mut s.hot_live),
      std::mem::take(&mut s.cold_emits),
      s.cold_n.clone(),
      s.hots.iter().map(|h| h.n).collect(),
    )
  });
  let trace_items: [i64; 3] = {
    let a = live();
    let t = trace.clone();
    let b = live();
    drop(t);
    [b[0] - a[0], b[1] - a[1], b[2] - a[2]]
  };
  // the case description inside the registry holds items too
  let case_items: [i64; 3] = {
    let a = live();
    let t = case2.clone();
    let b = live();
    drop(t);
    [b[0] - a[0], b[1] - a[1], b[2] - a[2]]
  };
  let count = || {
    let now = live();
    let mut leaked = [0; 3];
    for i in 0..3 {
      // the copy of the case in x0.case
      leaked[i] = now[i] - before[i] - trace_items[i] - case_items[i];
    }
    if !finished {
      leaked = [0; 3];
    }
    leaked
  };
  let held = count();
  kept.set(None);
  let leaked = count();
  let (subscribed, recs) = acc.with(|z| (std::mem::take(&mut z.0), std::mem::take(&mut z.1)));
  LibOut { trace, subscribed, recs, hot_live, cold_emits, cold_n, hot_n, dead_cb, out, leaked, held }
}

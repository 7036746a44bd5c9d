//! Volume: thousands of events, tasks or observers at once, so that a buffer, queue, history or
//! counter which is limited somewhere shows.
use crate::engine::CaseOut;
use crate::tape::{self, Draw};
use crate::th::*;
use crate::val::*;
use another_rxrust::prelude::*;
use another_rxrust::schedulers::scheduler::IScheduler;
use std::collections::HashMap;
use vp_std::vprt;

type Obl = Observable<'static, V>;

fn size(d: &mut Draw) -> usize {
  // just beyond a round number, in many orders of magnitude
  let b = *d.pick(&[300, 600, 1030, 1030, 2050, 4100, 8200, 16_400, 33_000, 66_000]);
  b + d.below(5) as usize
}
fn cfg() -> vprt::Config {
  vprt::Config { max_steps: 200_000_000, horizon: u64::MAX / 4, ..Default::default() }
}
fn it(p: usize, n: usize) -> V {
  V::i((p * 1_000_000 + n) as i64)
}
/// what a subscriber got: items as numbers, the terminal
#[derive(Default, Clone)]
struct Got {
  items: Vec<i64>,
  lists: Vec<Vec<i64>>,
  end: Option<Ev>,
  ends: usize,
  late: usize,
}
fn flat(v: &V) -> Vec<i64> {
  match &v.k {
    K::L(l) => l.iter().map(|x| x.num()).collect(),
    _ => vec![v.num()],
  }
}
fn sub(o: &Obl, g: &Sh<Got>) -> Subscription<'static> {
  let (a, b, c) = (g.clone(), g.clone(), g.clone());
  o.subscribe(
    move |v| {
      a.with(|g| {
        if g.end.is_some() {
          g.late += 1
        }
        match &v.k {
          K::L(_) => g.lists.push(flat(&v)),
          _ => g.items.push(v.num()),
        }
      })
    },
    move |e| {
      b.with(|g| {
        g.ends += 1;
        g.end = Some(Ev::E(Er::from_rx(&e).plain()))
      })
    },
    move || {
      c.with(|g| {
        g.ends += 1;
        g.end = Some(Ev::C)
      })
    },
  )
}
/// the first difference of two long sequences
fn diff<T: PartialEq + std::fmt::Debug>(got: &[T], want: &[T]) -> Option<String> {
  let i = got.iter().zip(want).position(|(a, b)| a != b).unwrap_or(got.len().min(want.len()));
  if i == got.len() && i == want.len() {
    return None;
  }
  Some(format!(
    "{} items instead of {}, first difference at {}: {:?} instead of {:?}",
    got.len(),
    want.len(),
    i,
    got.get(i),
    want.get(i)
  ))
}
fn ends(g: &Got, want: &Option<Ev>) -> Option<String> {
  if g.end != *want || g.ends != want.is_some() as usize || g.late > 0 {
    return Some(format!("ended with {:?} ({} terminals, {} items behind) instead of {:?}", g.end, g.ends, g.late, want));
  }
  None
}
fn term(d: &mut Draw) -> Option<Ev> {
  match d.weighted(&[3, 2, 1]) {
    0 => Some(Ev::C),
    1 => Some(Ev::E(Er::new(d.range(0, 3), 91))),
    _ => None,
  }
}
/// runs `f` on the default schedule or under a drawn one; puts what `f` left into the outcome
fn go(mut o: CaseOut, sched: bool, f: impl FnOnce(Sh<Vec<String>>) + 'static) -> CaseOut {
  let fails: Sh<Vec<String>> = Sh::new(vec![]);
  let f2 = fails.clone();
  let body = move || f(f2);
  let out = if sched {
    run_sched(cfg(), o.key, body)
  } else {
    vprt::run(vprt::Config { hash_seed: o.key, ..cfg() }, None, Box::new(body))
  };
  o.nontrivial = true;
  if let Some(t) = out.trouble() {
    o.fail(t);
  } else if let Some(f) = fails.get().first() {
    o.fail(f.clone());
  }
  o
}

// ---- C03: the inputs of a combining operator far apart -----------------------------------------
pub fn c03() -> CaseOut {
  let (op, n, ins, t) = tape::with(|d| {
    let op = d.below(8);
    (op, size(d).min(if op == 7 { 4200 } else { 66_000 }), 2 + d.below(2) as usize, term(d))
  });
  let o = case_out(format!("volume: operator {} of {} inputs, {} items each, then {:?}", op, ins, n, t));
  go(o, false, move |fails| {
    let srcs: Vec<Src> = (0..ins).map(|_| Src::new()).collect();
    let obs: Vec<Obl> = srcs.iter().map(|s| s.observable()).collect();
    let g = Sh::new(Got::default());
    let name = ["zip", "sequence_equal", "merge", "concat", "combine_latest", "amb", "flat_map", "flat_map of as many"][op as usize];
    let mut want: Vec<i64> = vec![];
    let mut wantl: Vec<Vec<i64>> = vec![];
    let all = |srcs: &[Src], ev: &Ev| srcs.iter().for_each(|s| s.emit(ev));
    let feed = |k: usize| (0..n).for_each(|i| srcs[k].emit(&Ev::N(it(k, i))));
    let mut end = t.clone();
    let _sb;
    match op {
      0 => {
        _sb = sub(&obs[0].zip(&obs[1..]).map(V::l), &g);
        for k in 0..ins {
          feed(k)
        }
        for i in 0..n {
          wantl.push((0..ins).map(|k| it(k, i).num()).collect())
        }
        if let Some(t) = &t {
          all(&srcs, t)
        }
      }
      1 => {
        _sb = sub(&obs[0].sequence_equal(&obs[1..]).map(|b| V::i(b as i64)), &g);
        for k in 0..ins {
          for i in 0..n {
            srcs[k].emit(&Ev::N(it(0, i)))
          }
        }
        if let Some(t) = &t {
          all(&srcs, t);
          if *t == Ev::C {
            want.push(1)
          }
        }
      }
      2 => {
        _sb = sub(&obs[0].merge(&obs[1..]), &g);
        for k in 0..ins {
          feed(k);
          want.extend((0..n).map(|i| it(k, i).num()))
        }
        if let Some(t) = &t {
          all(&srcs, t)
        }
      }
      3 => {
        _sb = sub(&obs[0].concat(&obs[1..]), &g);
        for k in 0..ins {
          feed(k);
          want.extend((0..n).map(|i| it(k, i).num()));
          if k + 1 < ins {
            srcs[k].emit(&Ev::C)
          } else if let Some(t) = &t {
            srcs[k].emit(t)
          }
        }
      }
      4 => {
        _sb = sub(&obs[0].combine_latest(&obs[1..], |v| V::l(v)), &g);
        for k in 0..ins {
          feed(k)
        }
        wantl.extend((0..n).map(|i| (0..ins).map(|k| it(k, if k + 1 == ins { i } else { n - 1 }).num()).collect::<Vec<_>>()));
        if let Some(t) = &t {
          all(&srcs, t)
        }
      }
      5 => {
        _sb = sub(&obs[0].amb(&obs[1..]), &g);
        for i in 0..n {
          for k in (0..ins).rev() {
            srcs[k].emit(&Ev::N(it(k, i)))
          }
        }
        want.extend((0..n).map(|i| it(ins - 1, i).num()));
        if let Some(t) = &t {
          srcs[ins - 1].emit(t)
        }
      }
      6 => {
        // few inner sources of many items
        let inner: Vec<Obl> = obs[1..].to_vec();
        let inner = Sh::new(inner);
        _sb = sub(&obs[0].flat_map(move |v| inner.with(|i| i[v.num() as usize].clone())), &g);
        for k in 1..ins {
          srcs[0].emit(&Ev::N(V::i(k as i64 - 1)))
        }
        for k in 1..ins {
          feed(k);
          want.extend((0..n).map(|i| it(k, i).num()))
        }
        if let Some(t) = &t {
          all(&srcs, t)
        }
      }
      _ => {
        // as many inner sources
        let inner: Vec<Src> = (0..n).map(|_| Src::new()).collect();
        let i2 = Sh::new(inner.clone());
        _sb = sub(&obs[0].flat_map(move |v| i2.with(|i| i[v.num() as usize].observable())), &g);
        for i in 0..n {
          srcs[0].emit(&Ev::N(V::i(i as i64)))
        }
        for k in [0, n / 2, n - 1] {
          inner[k].emit(&Ev::N(it(1, k)));
          want.push(it(1, k).num())
        }
        if let Some(t) = &t {
          srcs[0].emit(t);
          if *t == Ev::C {
            if g.with(|g| g.end.is_some()) {
              fails.with(|f| f.push("flat_map completed before its inner sources".into()))
            }
            for i in &inner {
              i.emit(t)
            }
          }
        }
        if t.is_some() && inner.iter().any(|i| i.live() > 0) {
          fails.with(|f| f.push("an inner source is still subscribed".into()))
        }
        if t.is_none() && inner.iter().any(|i| i.live() != 1) {
          fails.with(|f| f.push("an inner source was left".into()))
        }
        for i in inner {
          i.clear()
        }
      }
    }
    if op == 5 && t.is_none() {
      end = None;
    }
    let x = g.get();
    if let Some(m) = diff(&x.items, &want).or_else(|| diff(&x.lists, &wantl)).or_else(|| ends(&x, &end)) {
      fails.with(|f| f.push(format!("{}: {}", name, m)))
    }
    _sb.unsubscribe();
    for s in srcs {
      s.clear()
    }
  })
}

// ---- C08: a long queue -------------------------------------------------------------------------
pub fn c08() -> CaseOut {
  let (n, posters, abort) = tape::with(|d| (size(d), 1 + d.below(2) as usize, d.chance(1, 3)));
  let o = case_out(format!("volume: {} tasks from {} threads, abort in between: {}", n, posters, abort));
  go(o, false, move |fails| {
    let s = schedulers::new_thread_scheduler()();
    let log: Sh<Vec<(usize, usize)>> = Sh::new(vec![]);
    let busy = Sh::new(false);
    {
      let (busy, log) = (busy.clone(), log.clone());
      // everything else queues up behind this one
      s.post(move || {
        busy.set(true);
        vprt::sleep_ns(1000 * MS);
        log.with(|l| l.push((9, 0)));
        busy.set(false);
      });
    }
    let post = {
      let (s, log, busy, fails) = (s.clone(), log.clone(), busy.clone(), fails.clone());
      move |p: usize| {
        for i in 0..n {
          let (log, busy, fails) = (log.clone(), busy.clone(), fails.clone());
          s.post(move || {
            if busy.get() {
              fails.with(|f| f.push("two tasks at once".into()))
            }
            log.with(|l| l.push((p, i)))
          })
        }
      }
    };
    let s2 = s.clone();
    if posters == 1 {
      post(0)
    } else {
      let ts = (0..posters).map(|p| {
        let post = post.clone();
        spawn(move || post(p))
      });
      join_all(ts.collect())
    }
    if abort {
      s2.abort();
      vprt::sleep_ns(5000 * MS);
      let l = log.get();
      if l.len() > (l.first() == Some(&(9, 0))) as usize {
        fails.with(|f| f.push(format!("{} tasks ran, although the abort came during the first one at the latest", l.len())))
      }
    } else {
      vprt::sleep_ns(5000 * MS);
      let l = log.get();
      for p in 0..posters {
        let v: Vec<usize> = l.iter().filter(|x| x.0 == p).map(|x| x.1).collect();
        if let Some(m) = diff(&v, &(0..n).collect::<Vec<_>>()) {
          fails.with(|f| f.push(format!("tasks of poster {}: {}", p, m)))
        }
      }
      s2.abort();
      vprt::sleep_ns(MS);
    }
  })
}

// ---- C09: a subscriber far behind --------------------------------------------------------------
pub fn c09() -> CaseOut {
  let (n, stages, t, here) = tape::with(|d| (size(d), 1 + d.below(2), term(d), d.chance(1, 3)));
  let o = case_out(format!("volume: {} items through {} observe_on, then {:?}; source inside subscribe: {}", n, stages, t, here));
  go(o, false, move |fails| {
    let src = Src::new();
    let (t2, f2) = (t.clone(), fails.clone());
    let mut ob = if here {
      let t = t.clone();
      Observable::create(move |o: Observer<'static, V>| {
        (0..n).for_each(|i| o.next(it(0, i)));
        if let Some(t) = &t {
          send(&o, t)
        }
      })
    } else {
      src.observable()
    };
    for _ in 0..stages {
      ob = ob.observe_on(schedulers::new_thread_scheduler());
    }
    let me = vprt::cur_tid();
    let tid: Sh<Option<usize>> = Sh::new(None);
    let first = Sh::new(true);
    ob = ob.map(move |v| {
      let t = vprt::cur_tid();
      if t == me || *tid.get().get_or_insert(t) != t {
        f2.with(|f| f.push("delivered on another thread than before, or the emitting one".into()))
      }
      tid.set(Some(t));
      if first.get() {
        first.set(false);
        vprt::sleep_ns(100 * MS);
      }
      v
    });
    let g = Sh::new(Got::default());
    let sb = sub(&ob, &g);
    if !here {
      (0..n).for_each(|i| src.emit(&Ev::N(it(0, i))));
      if let Some(t) = &t2 {
        src.emit(t)
      }
    }
    vprt::sleep_ns(1000 * MS);
    let x = g.get();
    let want: Vec<i64> = (0..n).map(|i| it(0, i).num()).collect();
    if let Some(m) = diff(&x.items, &want).or_else(|| ends(&x, &t2)) {
      fails.with(|f| f.push(m))
    }
    sb.unsubscribe();
    src.clear();
    vprt::sleep_ns(MS);
  })
}

// ---- C10: long histories, many observers -------------------------------------------------------
#[derive(Clone)]
enum Any {
  P(subjects::Subject<'static, V>),
  B(subjects::BehaviorSubject<'static, V>),
  R(subjects::ReplaySubject<'static, V>),
  A(subjects::AsyncSubject<'static, V>),
}
impl Any {
  fn new(k: u32) -> Any {
    match k {
      0 => Any::P(subjects::Subject::new()),
      1 => Any::B(subjects::BehaviorSubject::new(V::i(-1))),
      2 => Any::R(subjects::ReplaySubject::new()),
      _ => Any::A(subjects::AsyncSubject::new()),
    }
  }
  fn send(&self, e: &Ev) {
    macro_rules! s {
      ($x:expr) => {
        match e {
          Ev::N(v) => $x.next(v.clone()),
          Ev::E(e) => $x.error(rx_error(e.code, e.uid)),
          Ev::C => $x.complete(),
        }
      };
    }
    match self {
      Any::P(x) => s!(x),
      Any::B(x) => s!(x),
      Any::R(x) => s!(x),
      Any::A(x) => s!(x),
    }
  }
  fn obl(&self) -> Obl {
    match self {
      Any::P(x) => x.observable(),
      Any::B(x) => x.observable(),
      Any::R(x) => x.observable(),
      Any::A(x) => x.observable(),
    }
  }
}
pub fn c10() -> CaseOut {
  let (k, n, many, t) = tape::with(|d| (d.below(4), size(d), d.chance(1, 3), term(d)));
  let o = case_out(format!("volume: subject {} with {} {}, then {:?}", k, n, if many { "observers" } else { "items" }, t));
  go(o, false, move |fails| {
    let s = Any::new(k);
    let bad = |w: &str, m: Option<String>| {
      if let Some(m) = m {
        fails.with(|f| f.push(format!("{}: {}", w, m)))
      }
    };
    let num = |i: usize| it(0, i).num();
    let expect = |from: usize, to: usize| -> Vec<i64> {
      // an observer that came after `from` of the `to` items
      match k {
        0 => (from..to).map(num).collect(),
        1 => std::iter::once(if from == 0 { -1 } else { num(from - 1) }).chain((from..to).map(num)).collect(),
        2 => (0..to).map(num).collect(),
        _ if t == Some(Ev::C) && to > 0 => vec![num(to - 1)],
        _ => vec![],
      }
    };
    if many {
      let n = n.min(8_300);
      let gs: Vec<Sh<Got>> = (0..n).map(|_| Sh::new(Got::default())).collect();
      let mut sbs: Vec<Option<Subscription<'static>>> = gs.iter().map(|g| Some(sub(&s.obl(), g))).collect();
      s.send(&Ev::N(it(0, 0)));
      // every third one leaves
      for i in (0..n).step_by(3) {
        sbs[i].take().unwrap().unsubscribe();
      }
      s.send(&Ev::N(it(0, 1)));
      if let Some(t) = &t {
        s.send(t)
      }
      for (i, g) in gs.iter().enumerate() {
        let x = g.get();
        if i % 3 == 0 {
          let w: Vec<i64> = if k == 3 { vec![] } else { expect(0, 1) };
          bad(&format!("observer {} that left", i), diff(&x.items, &w).or_else(|| ends(&x, &None)));
        } else {
          bad(&format!("observer {}", i), diff(&x.items, &expect(0, 2)).or_else(|| ends(&x, &t)));
        }
      }
    } else {
      let gs: Vec<Sh<Got>> = (0..3).map(|_| Sh::new(Got::default())).collect();
      let mut sbs = vec![sub(&s.obl(), &gs[0])];
      for i in 0..n {
        if i == n / 2 {
          sbs.push(sub(&s.obl(), &gs[1]))
        }
        s.send(&Ev::N(it(0, i)));
      }
      sbs.push(sub(&s.obl(), &gs[2]));
      if let Some(t) = &t {
        s.send(t)
      }
      for (i, from) in [(0, 0), (1, n / 2), (2, n)] {
        let x = gs[i].get();
        bad(&format!("observer {}", i), diff(&x.items, &expect(from, n)).or_else(|| ends(&x, &t)));
      }
      if k == 2 {
        let g = Sh::new(Got::default());
        sbs.push(sub(&s.obl(), &g));
        let x = g.get();
        bad("observer after the end", diff(&x.items, &expect(n, n)).or_else(|| ends(&x, &t)));
      }
      for s in sbs {
        s.unsubscribe()
      }
    }
  })
}

// ---- C11, C12: from two threads ----------------------------------------------------------------
fn orders(items: &[i64], n: usize, ps: usize) -> Option<String> {
  let mut by: HashMap<usize, Vec<usize>> = HashMap::new();
  for x in items {
    by.entry((*x / 1_000_000) as usize).or_default().push((*x % 1_000_000) as usize)
  }
  let want: Vec<usize> = (0..n).collect();
  for p in 0..ps {
    if let Some(m) = diff(by.get(&p).map(|v| &v[..]).unwrap_or(&[]), &want) {
      return Some(format!("items of thread {}: {}", p, m));
    }
  }
  if items.len() != n * ps {
    return Some(format!("{} items instead of {}", items.len(), n * ps));
  }
  None
}
pub fn c11() -> CaseOut {
  let (op, n) = tape::with(|d| (d.below(4), size(d).min(8_300)));
  let name = ["merge", "zip", "flat_map", "concat"][op as usize];
  let o = case_out(format!("volume: {} of two threads with {} items each", name, n));
  go(o, true, move |fails| {
    let ins: Vec<Obl> = (0..2)
      .map(|p| {
        Observable::create(move |o: Observer<'static, V>| {
          spawn(move || {
            (0..n).for_each(|i| o.next(it(p, i)));
            o.complete()
          });
        })
      })
      .collect();
    let ob = match op {
      0 => ins[0].merge(&ins[1..]),
      1 => ins[0].zip(&ins[1..]).map(V::l),
      2 => {
        let x = Sh::new(ins.clone());
        observables::from_iter([V::i(0), V::i(1)].into_iter()).flat_map(move |v| x.with(|x| x[v.num() as usize].clone()))
      }
      _ => ins[0].concat(&ins[1..]),
    };
    let g = Sh::new(Got::default());
    let _sb = sub(&ob, &g);
    vprt::sleep_ns(1000 * MS);
    let x = g.get();
    let m = if op == 1 {
      // the tuples, in any order
      let mut l = x.lists.clone();
      l.sort();
      diff(&l, &(0..n).map(|i| vec![it(0, i).num(), it(1, i).num()]).collect::<Vec<_>>())
    } else {
      orders(&x.items, n, 2)
    };
    if let Some(m) = m.or_else(|| ends(&x, &Some(Ev::C))) {
      fails.with(|f| f.push(m))
    }
  })
}
pub fn c12() -> CaseOut {
  let (k, n) = tape::with(|d| (d.below(3), size(d).min(4_200)));
  let o = case_out(format!("volume: subject {}, two threads with {} items each, one observer before and one in between", k, n));
  go(o, true, move |fails| {
    let s = Any::new(k);
    let (g, h) = (Sh::new(Got::default()), Sh::new(Got::default()));
    let _a = sub(&s.obl(), &g);
    let mut ts: Vec<usize> = (0..2)
      .map(|p| {
        let s = s.clone();
        let s = Sh::new(s);
        spawn(move || {
          let s = s.get();
          (0..n).for_each(|i| s.send(&Ev::N(it(p, i))))
        })
      })
      .collect();
    let (s2, h2) = (Sh::new(s.clone()), h.clone());
    ts.push(spawn(move || {
      for _ in 0..n / 3 {
        vprt::yield_point()
      }
      let sb = sub(&s2.get().obl(), &h2);
      std::mem::forget(sb);
    }));
    join_all(ts);
    let (mut x, y) = (g.get(), h.get());
    if k == 1 && x.items.first() == Some(&-1) {
      x.items.remove(0);
    }
    let mut bad = orders(&x.items, n, 2).map(|m| format!("first observer: {}", m));
    if k == 2 {
      bad = bad.or_else(|| orders(&y.items, n, 2).map(|m| format!("second observer: {}", m)));
    } else {
      // per thread a suffix without gaps
      for p in 0..2i64 {
        let v: Vec<i64> = y.items.iter().filter(|x| **x >= 0 && **x / 1_000_000 == p).cloned().collect();
        if v.windows(2).any(|w| w[1] != w[0] + 1) || v.last().map(|l| *l != it(p as usize, n - 1).num()).unwrap_or(false) {
          bad = bad.or(Some(format!("second observer: the items of thread {} are no suffix: {} to {:?}", p, v.len(), v.last())));
        }
      }
    }
    if let Some(m) = bad {
      fails.with(|f| f.push(m))
    }
  })
}

// ---- C13: long histories, many subscribers -----------------------------------------------------
pub fn c13() -> CaseOut {
  let (k, n, many, t) = tape::with(|d| (d.below(3), size(d), d.chance(1, 3), term(d)));
  let o = case_out(format!("volume: {} with {} {}, then {:?}", ["publish", "ref_count", "replay"][k as usize], n, if many { "subscribers" } else { "items" }, t));
  go(o, false, move |fails| {
    let src = Src::new();
    let so = src.observable();
    let (mut p, mut r, mut y) = (None, None, None);
    match k {
      0 => p = Some(so.publish()),
      1 => r = Some(so.ref_count()),
      _ => y = Some(so.replay()),
    };
    let obl = || match k {
      0 => p.as_ref().unwrap().observable(),
      1 => r.as_ref().unwrap().observable(),
      _ => y.as_ref().unwrap().observable(),
    };
    let bad = |w: &str, m: Option<String>| {
      if let Some(m) = m {
        fails.with(|f| f.push(format!("{}: {}", w, m)))
      }
    };
    let num = |i: usize| it(0, i).num();
    let subs = if many { n.min(8_300) } else { 2 };
    let items = if many { 3 } else { n };
    let gs: Vec<Sh<Got>> = (0..subs).map(|_| Sh::new(Got::default())).collect();
    let mut sbs: Vec<Subscription<'static>> = gs.iter().map(|g| sub(&obl(), g)).collect();
    let conn = p.as_ref().map(|p| p.connect());
    for i in 0..items {
      src.emit(&Ev::N(it(0, i)));
    }
    let late = Sh::new(Got::default());
    sbs.push(sub(&obl(), &late));
    if src.total.get() != 1 || src.live() != 1 {
      fails.with(|f| f.push(format!("the source was subscribed {} times, {} are live", src.total.get(), src.live())))
    }
    src.emit(&Ev::N(it(0, items)));
    if let Some(t) = &t {
      src.emit(t)
    }
    let want: Vec<i64> = (0..=items).map(num).collect();
    for (i, g) in gs.iter().enumerate() {
      let x = g.get();
      bad(&format!("subscriber {}", i), diff(&x.items, &want).or_else(|| ends(&x, &t)));
    }
    let x = late.get();
    bad("late subscriber", diff(&x.items, if k == 2 { &want } else { &want[items..] }).or_else(|| ends(&x, &t)));
    if t.is_none() {
      let last = sbs.pop().unwrap();
      for s in sbs {
        s.unsubscribe()
      }
      if src.live() != 1 {
        fails.with(|f| f.push("the source was stopped too early".into()))
      }
      last.unsubscribe();
      if k > 0 && src.live() != 0 {
        fails.with(|f| f.push("everybody left, but the source is still subscribed".into()))
      }
    }
    if let Some(c) = conn {
      c.unsubscribe()
    }
    if src.live() != 0 {
      fails.with(|f| f.push("the source is still subscribed".into()))
    }
    src.clear();
  })
}

// ---- C18: a long vector ------------------------------------------------------------------------
pub fn c18() -> CaseOut {
  use std::future::Future;
  use std::task::{Context, Poll, Wake, Waker};
  struct W(vp_std::sync::Mutex<bool>, vp_std::sync::Condvar);
  impl Wake for W {
    fn wake(self: std::sync::Arc<Self>) {
      *self.0.lock().unwrap() = true;
      self.1.notify_all();
    }
  }
  let (n, t, thread) = tape::with(|d| (size(d), if d.chance(1, 3) { Ev::E(Er::new(1, 5)) } else { Ev::C }, d.chance(1, 2)));
  let o = case_out(format!("volume: to_vec of {} items, then {:?}, from another thread: {}", n, t, thread));
  go(o, false, move |fails| {
    let t2 = t.clone();
    let play = move |o: Observer<'static, V>| {
      (0..n).for_each(|i| o.next(it(0, i)));
      send(&o, &t2)
    };
    let play = Sh::new(std::rc::Rc::new(play));
    let ob = Observable::create(move |o: Observer<'static, V>| {
      let p = play.clone();
      if thread {
        spawn(move || {
          vprt::sleep_ns(MS);
          (p.get())(o)
        });
      } else {
        (p.get())(o)
      }
    });
    let w = std::sync::Arc::new(W(vp_std::sync::Mutex::new(false), vp_std::sync::Condvar::new()));
    let waker = Waker::from(w.clone());
    let mut f = Box::pin(ob.to_vec());
    let r = loop {
      if let Poll::Ready(r) = f.as_mut().poll(&mut Context::from_waker(&waker)) {
        break r;
      }
      let mut x = w.0.lock().unwrap();
      while !*x {
        x = w.1.wait(x).unwrap();
      }
      *x = false;
    };
    match (r, &t) {
      (Ok(v), Ev::C) => {
        let v: Vec<i64> = v.read().unwrap().iter().map(|x| x.num()).collect();
        if let Some(m) = diff(&v, &(0..n).map(|i| it(0, i).num()).collect::<Vec<_>>()) {
          fails.with(|f| f.push(m))
        }
      }
      (Err(e), Ev::E(x)) if Er::from_rx(&e).plain() == *x => {}
      (r, _) => fails.with(|f| f.push(format!("{:?} instead of {:?}", r.map(|v| v.read().unwrap().len()).map_err(|e| Er::from_rx(&e)), t))),
    }
  })
}

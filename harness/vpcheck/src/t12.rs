//! C12: subjects used from several threads.
use crate::engine::CaseOut;
use crate::par::{AnySbj, SK};
use crate::tape::{self, Draw};
use crate::th::*;
use crate::val::*;
use another_rxrust::prelude::*;
use std::collections::HashMap;
use vp_std::vprt;

#[derive(Clone, Copy, Debug, PartialEq)]
enum Via {
  Direct,
  Map,
  Take(usize),
}
/// how an observer leaves
#[derive(Clone, Copy, Debug, PartialEq)]
enum Leave {
  Stay,
  /// its own thread unsubscribes it after this many ms
  Thread(u64),
  /// inside its k-th item callback
  Inside(usize),
}
#[derive(Clone, Copy, Debug)]
struct Obs {
  /// None: subscribed before the producers start; Some(ms): by its own thread
  join: Option<u64>,
  via: Via,
  leave: Leave,
}
#[derive(Clone, Debug)]
struct Case {
  kind: SK,
  /// per producer: gaps (ms) before its items
  prod: Vec<Vec<u64>>,
  /// (0: after all producers are done, 1: by a thread of its own, racing; event; ms)
  term: Option<(u32, Ev, u64)>,
  obs: Vec<Obs>,
  /// subscribers that come when everything is over
  after: usize,
}
fn gen(d: &mut Draw, small: bool) -> Case {
  let kind = *d.pick(&[SK::Plain, SK::Replay, SK::Behavior]);
  let timed = !small && d.chance(1, 4);
  let gap = |d: &mut Draw| if timed { d.below(4) as u64 } else { 0 };
  let np = 1 + d.below(if small { 2 } else { 3 });
  let mut prod = vec![];
  for _ in 0..np {
    let n = 1 + d.below(if small { 3 - np.min(2) } else { 4 });
    prod.push((0..n).map(|_| gap(d)).collect());
  }
  if !small {
    if let Some(n) = d.burst() {
      prod[0] = vec![0; n];
    }
  }
  let term = if d.chance(1, if small { 4 } else { 2 }) {
    let ev = if d.chance(1, 2) { Ev::E(Er::new(d.below(3) as i64, 900)) } else { Ev::C };
    Some((d.below(2), ev, gap(d)))
  } else {
    None
  };
  let no = 1 + d.below(if small { 1 } else { 3 });
  let mut obs = vec![];
  for _ in 0..no {
    obs.push(Obs {
      join: if d.chance(if small { 2 } else { 1 }, if small { 3 } else { 2 }) { Some(gap(d)) } else { None },
      via: match d.below(6) {
        0..=2 => Via::Direct,
        3 | 4 => Via::Map,
        _ => Via::Take(1 + d.below(3) as usize),
      },
      leave: match d.weighted(&[5, 3, 1]) {
        0 => Leave::Stay,
        1 => Leave::Thread(gap(d)),
        _ => Leave::Inside(1 + d.below(3) as usize),
      },
    });
  }
  let after = d.below(3) as usize;
  Case { kind, prod, term, obs, after }
}
#[derive(Clone, Copy, Debug)]
struct Span {
  b: u64,
  e: u64,
}
const NEVER: Span = Span { b: u64::MAX, e: u64::MAX };
struct World {
  items: HashMap<i64, Span>,
  term: Span,
  sub: Vec<Span>,
  unsub: Vec<Span>,
}
fn run(c: Case) -> CaseOut {
  let mut o = case_out(format!("{:?}", c));
  let n_all = c.obs.len() + c.after;
  let recs: Vec<Recorder> = (0..n_all).map(|_| Recorder::new()).collect();
  let w = Sh::new(World { items: HashMap::new(), term: NEVER, sub: vec![NEVER; n_all], unsub: vec![NEVER; n_all] });
  let (c2, recs2, w2) = (c.clone(), recs.clone(), w.clone());
  let out = run_sched(Default::default(), o.key, move || body(c2, recs2, w2));
  o.label(format!("kind:{:?}", c.kind));
  if let Some(t) = out.trouble() {
    o.fail(t);
    return o;
  }
  w.with(|w| {
    let mut late = vec![];
    for i in 0..n_all {
      let cbs = recs[i].cbs();
      let ob = c.obs.get(i).copied().unwrap_or(Obs { join: Some(0), via: Via::Direct, leave: Leave::Stay });
      if let Some(m) = judge(&c, w, i, &ob, &cbs) {
        o.fail(format!("observer {}: {}\n:{}\n {}", i, m, show_cbs(&cbs), show_items(w, i)));
        return;
      }
      if i >= c.obs.len() && c.kind == SK::Replay {
        late.push(nums(&cbs));
      }
      if ob.join.is_some() && !cbs.is_empty() && i < c.obs.len() {
        o.label("joined while pushes were possible");
      }
      let overlap = w.items.values().any(|s| s.b < w.sub[i].e && w.sub[i].b < s.e);
      if overlap {
        o.label("a push overlapped the subscribe");
      }
      if w.unsub[i].b != u64::MAX && w.items.values().any(|s| s.b < w.unsub[i].e && w.unsub[i].b < s.e) {
        o.label("a push overlapped the unsubscribe");
      }
    }
    if late.windows(2).any(|x| x[0] != x[1]) {
      o.fail(format!("two subscribers that came after all pushes saw different orders: {:?}", late));
    }
    let v: Vec<&Span> = w.items.values().collect();
    let conc = v.iter().enumerate().any(|(i, a)| v[..i].iter().any(|b| a.b < b.e && b.b < a.e));
    if conc {
      o.label("two pushes overlapped");
    }
    o.nontrivial = recs.iter().any(|r| !r.cbs().is_empty())
      && (conc || o.labels.iter().any(|l| l.starts_with("a push overlapped")));
  });
  o
}
fn show_items(w: &World, i: usize) -> String {
  let mut v: Vec<_> = w.items.iter().map(|(k, s)| (*k, s.b, s.e)).collect();
  v.sort();
  format!(
    "pushes (item, begin, end): {:?}; terminal {:?}; subscribe {:?}; unsubscribe {:?}",
    v, w.term, w.sub[i], w.unsub[i]
  )
}
fn body(c: Case, recs: Vec<Recorder>, w: Sh<World>) {
  let s = AnySbj::new(c.kind);
  let all: Vec<Recorder> = recs.clone();
  let join = {
    let (s, recs, w, c) = (Sh::new(s.clone()), recs.clone(), w.clone(), c.clone());
    move |i: usize, via: Via, leave: Leave| {
      let ob = s.with(|s| s.observable());
      let ob = match via {
        Via::Direct => ob,
        Via::Map => ob.map(|v| v),
        Via::Take(n) => ob.take(n),
      };
      let sub: Sh<Option<Subscription<'static>>> = Sh::new(None);
      let (sub2, w2, n) = (sub.clone(), w.clone(), Sh::new(0usize));
      let b = vprt::stamp();
      let sb = recs[i].subscribe_with(&ob, move |_| {
        let k = n.with(|n| {
          *n += 1;
          *n
        });
        if let Leave::Inside(at) = leave {
          if k >= at {
            // the first time it can: the subscription may not be known yet
            if let Some(x) = sub2.get() {
              let b = vprt::stamp();
              w2.with(|w| w.unsub[i].b = w.unsub[i].b.min(b));
              x.unsubscribe();
              let e = vprt::stamp();
              w2.with(|w| w.unsub[i].e = w.unsub[i].e.min(e));
            }
          }
        }
      });
      let e = vprt::stamp();
      w.with(|w| w.sub[i] = Span { b, e });
      sub.set(Some(sb.clone()));
      let _ = &c;
      sb
    }
  };
  let leave = {
    let w = w.clone();
    move |i: usize, sb: &Subscription<'static>| {
      let b = vprt::stamp();
      w.with(|w| {
        if w.unsub[i].b == u64::MAX {
          w.unsub[i].b = b
        }
      });
      sb.unsubscribe();
      let e = vprt::stamp();
      w.with(|w| w.unsub[i].e = w.unsub[i].e.min(e));
    }
  };
  let mut subs = vec![];
  for (i, o) in c.obs.iter().enumerate() {
    if o.join.is_none() {
      subs.push((i, join(i, o.via, o.leave)));
    }
  }
  let mut prods = vec![];
  for (p, gaps) in c.prod.iter().cloned().enumerate() {
    let (s, w, all) = (s.clone(), w.clone(), all.clone());
    prods.push(spawn(move || {
      for (k, g) in gaps.iter().enumerate() {
        if *g > 0 {
          vprt::sleep_ns(*g * MS)
        }
        let v = item(p, k);
        let b = vprt::stamp();
        w.with(|w| w.items.insert(v.num(), Span { b, e: u64::MAX }));
        let rs: Vec<&Recorder> = all.iter().collect();
        emission(&rs, || s.emit(&Ev::N(v.clone())));
        let e = vprt::stamp();
        w.with(|w| w.items.get_mut(&v.num()).unwrap().e = e);
      }
    }));
  }
  let mut others = vec![];
  let finish = {
    let (s, w, all) = (s.clone(), w.clone(), all.clone());
    move |ev: Ev| {
      let b = vprt::stamp();
      w.with(|w| w.term.b = b);
      let rs: Vec<&Recorder> = all.iter().collect();
      emission(&rs, || s.emit(&ev));
      let e = vprt::stamp();
      w.with(|w| w.term.e = e);
    }
  };
  if let Some((1, ev, ms)) = c.term.clone() {
    let f = finish.clone();
    others.push(spawn(move || {
      vprt::sleep_ns(ms * MS);
      f(ev)
    }));
  }
  for (i, sb) in subs.iter() {
    if let Leave::Thread(ms) = c.obs[*i].leave {
      let (l, sb, i) = (leave.clone(), sb.clone(), *i);
      others.push(spawn(move || {
        vprt::sleep_ns(ms * MS);
        l(i, &sb)
      }));
    }
  }
  for (i, o) in c.obs.iter().enumerate() {
    if let Some(ms) = o.join {
      let (j, l, o) = (join.clone(), leave.clone(), *o);
      others.push(spawn(move || {
        vprt::sleep_ns(ms * MS);
        let sb = j(i, o.via, o.leave);
        if let Leave::Thread(ms) = o.leave {
          vprt::sleep_ns(ms * MS);
          l(i, &sb)
        }
      }));
    }
  }
  join_all(prods);
  join_all(others);
  if let Some((0, ev, _)) = c.term.clone() {
    finish(ev)
  }
  for i in 0..c.after {
    join(c.obs.len() + i, Via::Direct, Leave::Stay);
  }
}
fn judge(c: &Case, w: &World, i: usize, ob: &Obs, cbs: &[Cb]) -> Option<String> {
  if let Some(m) = contract(cbs) {
    return Some(m);
  }
  let (sub, unsub) = (w.sub[i], w.unsub[i]);
  let mut got: Vec<(i64, u64)> =
    cbs.iter().filter(|x| !x.ev.terminal()).map(|x| (if let Ev::N(v) = &x.ev { v.num() } else { 0 }, x.start)).collect();
  let term = cbs.iter().find(|x| x.ev.terminal());
  // exactly once, and only what was pushed
  let mut seen = HashMap::new();
  for (k, (x, at)) in got.iter().enumerate() {
    if seen.insert(*x, k).is_some() {
      return Some(format!("item {} arrived twice", x));
    }
    let init = c.kind == SK::Behavior && *x == INIT;
    match w.items.get(x) {
      _ if init => {}
      None => return Some(format!("item {} was never pushed", x)),
      Some(s) if s.b > *at => return Some(format!("item {} before it was pushed", x)),
      Some(s) => {
        if s.b > unsub.e {
          return Some(format!("item {} whose push began after unsubscribe had returned", x));
        }
        if c.kind == SK::Plain && s.e < sub.b {
          return Some(format!("item {} whose push was over before the subscribe", x));
        }
      }
    }
  }
  // order: a push that was over before another one began comes first
  for (k, (x, _)) in got.iter().enumerate() {
    for (y, _) in &got[k + 1..] {
      if *y == INIT && c.kind == SK::Behavior {
        return Some("the initial value is not the first one".into());
      }
      if let (Some(a), Some(b)) = (w.items.get(x), w.items.get(y)) {
        if b.e < a.b {
          return Some(format!("item {} arrived before {}, pushed earlier", x, y));
        }
      }
    }
  }
  let stays = ob.leave == Leave::Stay || unsub.b == u64::MAX;
  let by_take = matches!(ob.via, Via::Take(n) if got.len() == n);
  if let Via::Take(n) = ob.via {
    if got.len() > n {
      return Some(format!("take({}) let {} items through", n, got.len()));
    }
    if got.len() == n && unsub.b == u64::MAX && c.term.as_ref().map(|t| t.0 == 0).unwrap_or(true) && term.map(|t| t.ev != Ev::C).unwrap_or(true)
    {
      return Some("take did not complete".into());
    }
  }
  // which value a behaviour subject handed over first
  let mut floor: u64 = 0;
  if c.kind == SK::Behavior && !got.is_empty() {
    let (v0, _) = got[0];
    let s0 = w.items.get(&v0).copied().unwrap_or(Span { b: 0, e: 0 });
    // it must have been the latest at some moment of the subscribe
    for (x, s) in &w.items {
      if *x != v0 && s.b > s0.e && s.e < sub.b {
        return Some(format!("first value {} though {} was pushed later and before the subscribe", v0, x));
      }
    }
    for (x, _) in &got[1..] {
      if let Some(s) = w.items.get(x) {
        if s.e < s0.b {
          return Some(format!("{} is older than the first value {}", x, v0));
        }
      }
    }
    floor = s0.e;
    got.remove(0);
    // every later value
    if stays && !by_take && !(matches!(ob.via, Via::Take(_)) && matches!(c.term, Some((1, _, _)))) {
      for (x, s) in &w.items {
        if s.b > floor && s.e < w.term.b && *x != v0 && !got.iter().any(|g| g.0 == *x) {
          return Some(format!("{} was pushed after the first value {} and is missing", x, v0));
        }
      }
    }
    got.insert(0, (v0, 0));
  } else if c.kind == SK::Behavior && sub.e < w.term.b && stays {
    return Some("no value was handed over".into());
  }
  // per producer: no gaps
  for (p, g) in c.prod.iter().enumerate() {
    let v: Vec<usize> = got.iter().filter(|x| x.0 != INIT).map(|x| of(x.0)).filter(|x| x.0 == p).map(|x| x.1).collect();
    if v.windows(2).any(|x| x[1] != x[0] + 1) {
      return Some(format!("items of producer {} with a gap or out of order: {:?}", p, v));
    }
    let span = |k: usize| w.items.get(&item(p, k).num()).copied().unwrap_or(NEVER);
    // at the beginning
    let must_start = match c.kind {
      SK::Replay => Some(0),
      SK::Behavior => (0..g.len()).find(|k| span(*k).b > sub.e),
      _ => (0..g.len()).find(|k| span(*k).b > sub.e),
    };
    if let (Some(m), Some(f)) = (must_start, v.first()) {
      if *f > m {
        return Some(format!("producer {}: item {} is missing at the beginning", p, m));
      }
    }
    // at the end
    // a take whose last slot belongs to an item still on its way
    let racing = matches!(ob.via, Via::Take(_)) && matches!(c.term, Some((1, _, _)));
    if by_take || racing {
      continue;
    }
    let last = (0..g.len()).rev().find(|k| {
      let s = span(*k);
      let begun = match c.kind {
        SK::Replay => true,
        _ => s.b > sub.e,
      };
      // a push that is over has been handed over by a plain subject; with the others another
      // thread may still be doing it
      let kept = stays || (c.kind == SK::Plain && !matches!(ob.via, Via::Take(_)) && s.e < unsub.b);
      // a subscriber of a finished plain or behaviour subject gets no items
      begun && kept && s.e < w.term.b
    });
    if let Some(l) = last {
      if v.last().map(|x| *x < l).unwrap_or(true) && !(c.kind != SK::Replay && sub.b > w.term.b) {
        return Some(format!("producer {}: item {} is missing", p, l));
      }
    }
  }
  let _ = floor;
  // the terminal
  if let (Some((_, ev, _)), true, false) = (&c.term, stays, by_take) {
    let due = match c.kind {
      SK::Plain => sub.e < w.term.b,
      _ => true,
    };
    if due {
      match term {
        None => return Some(format!("{:?} did not arrive", ev)),
        Some(t) if t.ev != *ev => return Some(format!("{:?} instead of {:?}", t.ev, ev)),
        _ => {}
      }
    }
  }
  if let (Some(t), false) = (term, by_take) {
    match &c.term {
      None => return Some(format!("{:?} out of nowhere", t.ev)),
      Some((_, ev, _)) => {
        if *ev != t.ev {
          return Some(format!("{:?} instead of {:?}", t.ev, ev));
        }
      }
    }
  }
  None
}
const INIT: i64 = crate::par::BEHAVIOR_INIT;

pub fn random() -> CaseOut {
  run(tape::with(|d| gen(d, false)))
}
pub fn small() -> CaseOut {
  run(tape::with(|d| gen(d, true)))
}

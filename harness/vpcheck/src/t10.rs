//! C10: the four subjects, call by call on one thread.
use crate::engine::CaseOut;
use crate::par::{own_locks, AnySbj, BEHAVIOR_INIT, SK};
use crate::tape::{self, Draw};
use crate::th::case_out;
use crate::val::*;
use another_rxrust::prelude::*;
use vp_std::vprt;

#[derive(Clone, Copy, Debug, PartialEq)]
enum Via {
  Direct,
  Map,
  Even,
  Take(usize),
  Scan,
  ReadySetGo,
}
#[derive(Clone, Debug, PartialEq)]
enum Act {
  Sub(Via),
  Unsub(usize),
  Next(i64),
  Error(i64),
  Complete,
}
/// observer `who` does `act` inside its `at`-th item callback
#[derive(Clone, Debug)]
struct React {
  who: usize,
  at: usize,
  act: Act,
}
#[derive(Clone, Debug)]
struct Case {
  kind: SK,
  acts: Vec<Act>,
  react: Vec<React>,
  /// all subscriptions go through the same Observable value
  same: bool,
}
#[derive(Clone, Copy, PartialEq, Debug)]
enum Mode {
  Plain,
  /// callbacks subscribe and unsubscribe
  Reactive,
  /// callbacks call next/complete/error
  Nested,
}
fn via(d: &mut Draw) -> Via {
  match d.weighted(&[6, 2, 1, 2, 1, 1]) {
    0 => Via::Direct,
    1 => Via::Map,
    2 => Via::Even,
    3 => Via::Take(1 + d.below(3) as usize),
    4 => Via::Scan,
    _ => Via::ReadySetGo,
  }
}
fn gen(d: &mut Draw, mode: Mode) -> Case {
  let kind = *d.pick(&[SK::Plain, SK::Behavior, SK::Replay, SK::Async]);
  let n = 2 + d.below(12);
  let mut acts = vec![];
  let mut subs = 0u32;
  if mode == Mode::Nested {
    for _ in 0..1 + d.below(3) {
      acts.push(Act::Sub(Via::Direct));
      subs += 1;
    }
  }
  for _ in 0..n {
    acts.push(match d.weighted(&[6, if subs < 4 && mode != Mode::Nested { 5 } else { 0 }, if subs > 0 { 2 } else { 0 }, 1, 1]) {
      0 => Act::Next(d.range(0, 4)),
      1 => {
        subs += 1;
        Act::Sub(via(d))
      }
      2 => Act::Unsub(d.below(subs) as usize),
      3 => Act::Error(d.below(3) as i64),
      _ => Act::Complete,
    });
  }
  if mode == Mode::Plain && d.chance(1, 300) {
    // many items, or many observers
    let k = *d.pick(&[20, 40, 70, 130, 260, 260]);
    let at = d.below(acts.len() as u32 + 1) as usize;
    let subs = d.chance(1, 3);
    let burst: Vec<Act> =
      (0..k).map(|_| if subs { Act::Sub(if d.chance(1, 8) { via(d) } else { Via::Direct }) } else { Act::Next(d.range(0, 4)) }).collect();
    acts.splice(at..at, burst);
  }
  let mut react = vec![];
  if mode != Mode::Plain {
    for _ in 0..1 + d.below(3) {
      let (who, at) = (d.below(3) as usize, d.below(3) as usize);
      let act = if mode == Mode::Reactive {
        match d.below(3) {
          0 => Act::Unsub(who),
          1 => Act::Unsub(d.below(4) as usize),
          _ => Act::Sub(via(d)),
        }
      } else {
        match d.weighted(&[6, 1, 1, 2]) {
          0 => Act::Next(d.range(5, 9)),
          1 => Act::Complete,
          2 => Act::Error(d.below(3) as i64),
          _ => Act::Unsub(d.below(3) as usize),
        }
      };
      react.push(React { who, at, act });
    }
  }
  Case { kind, acts, react, same: d.chance(1, 2) }
}
#[derive(Clone, Debug)]
struct Call {
  ev: Ev,
  b: u64,
  e: u64,
}
#[derive(Clone)]
struct ObsSt {
  via: Via,
  sb: u64,
  se: u64,
  ub: u64,
  ue: u64,
  got: Vec<(Ev, u64)>,
  handle: Option<Subscription<'static>>,
}
struct W {
  calls: Vec<Call>,
  obs: Vec<ObsSt>,
  uid: i64,
  fails: Vec<String>,
  checks: usize,
}
#[derive(Clone)]
struct X {
  s: Sh<Option<AnySbj>>,
  one: Sh<Option<Observable<'static, V>>>,
  w: Sh<W>,
  c: Sh<Case>,
}
impl X {
  fn act(&self, a: &Act) {
    match a {
      Act::Sub(v) => self.sub(*v),
      Act::Unsub(i) => {
        let h = self.w.with(|w| w.obs.get(*i).and_then(|o| o.handle.clone()));
        if let Some(h) = h {
          let b = vprt::stamp();
          self.w.with(|w| w.obs[*i].ub = w.obs[*i].ub.min(b));
          h.unsubscribe();
          let e = vprt::stamp();
          self.w.with(|w| w.obs[*i].ue = w.obs[*i].ue.min(e));
          if h.is_subscribed() {
            self.w.with(|w| w.fails.push(format!("observer {} is_subscribed() after unsubscribe", i)));
          }
        }
      }
      Act::Next(x) => {
        let k = self.w.with(|w| {
          w.uid += 1;
          w.uid
        });
        self.call(Ev::N(V::i(k * 10 + x)))
      }
      Act::Error(c) => {
        let k = self.w.with(|w| {
          w.uid += 1;
          w.uid
        });
        self.call(Ev::E(Er::new(*c, k as u64)))
      }
      Act::Complete => self.call(Ev::C),
    }
  }
  fn call(&self, ev: Ev) {
    let b = vprt::stamp();
    let i = self.w.with(|w| {
      w.calls.push(Call { ev: ev.clone(), b, e: u64::MAX });
      w.calls.len() - 1
    });
    let s = self.s.get();
    if let Some(s) = s {
      s.emit(&ev)
    }
    let e = vprt::stamp();
    self.w.with(|w| w.calls[i].e = e);
  }
  fn sub(&self, v: Via) {
    let o = match self.one.get() {
      Some(o) => o,
      None => match self.s.get() {
        Some(s) => s.observable(),
        None => return,
      },
    };
    let o = match v {
      Via::Direct => o,
      Via::Map => o.map(|x: V| V::i(x.num() + 1)),
      Via::Even => o.filter(|x| x.num() % 2 == 0),
      Via::Take(n) => o.take(n),
      Via::Scan => o.scan(|(a, b)| V::i(a.num() + b.num())),
      Via::ReadySetGo => utils::ready_set_go(|| {}, o),
    };
    let sb = vprt::stamp();
    let i = self.w.with(|w| {
      w.obs.push(ObsSt { via: v, sb, se: u64::MAX, ub: u64::MAX, ue: u64::MAX, got: vec![], handle: None });
      w.obs.len() - 1
    });
    let (x1, x2, x3) = (self.clone(), self.clone(), self.clone());
    let hit = move |x: &X, ev: Ev| {
      let t = vprt::stamp();
      x.w.with(|w| w.obs[i].got.push((ev, t)))
    };
    let h = o.subscribe(
      move |v| {
        hit(&x1, Ev::N(v.plain()));
        let n = x1.w.with(|w| w.obs[i].got.len() - 1);
        let r: Vec<Act> =
          x1.c.with(|c| c.react.iter().filter(|r| r.who == i && r.at == n).map(|r| r.act.clone()).collect());
        for a in r {
          if x1.w.with(|w| w.obs.len() < 8 && w.calls.len() < 40) {
            x1.act(&a)
          }
        }
      },
      move |e| hit(&x2, Ev::E(Er::from_rx(&e).plain())),
      move || hit(&x3, Ev::C),
    );
    let se = vprt::stamp();
    self.w.with(|w| {
      w.obs[i].se = se;
      w.obs[i].handle = Some(h);
    });
  }
}
/// an event with the call spans in which it has to arrive
#[derive(Clone, Debug)]
struct Exp {
  ev: Ev,
  lo: u64,
  hi: u64,
  /// the observer left while the call ran
  opt: bool,
}
fn through(v: Via, raw: Vec<Exp>) -> Vec<Exp> {
  let mut out = vec![];
  let mut acc: Option<i64> = None;
  let mut n = 0;
  for e in raw {
    let x = match &e.ev {
      Ev::N(x) => x.num(),
      _ => {
        out.push(e);
        break;
      }
    };
    let mk = |y: i64| Exp { ev: Ev::N(V::i(y)), ..e.clone() };
    match v {
      Via::Direct | Via::ReadySetGo => out.push(e),
      Via::Map => out.push(mk(x + 1)),
      Via::Even => {
        if x % 2 == 0 {
          out.push(e)
        }
      }
      Via::Take(k) => {
        n += 1;
        out.push(e.clone());
        if n == k {
          // may be left while it hands over its last item
          out.push(Exp { ev: Ev::C, opt: e.opt, ..e });
          break;
        }
      }
      Via::Scan => {
        let y = acc.map(|a| a + x).unwrap_or(x);
        acc = Some(y);
        out.push(mk(y));
      }
    }
  }
  out
}
/// None: this observer is not judged
fn expected(kind: SK, calls: &[Call], o: &ObsSt) -> Option<Vec<Exp>> {
  let t = calls.iter().position(|c| c.ev.terminal());
  let term = t.map(|t| calls[t].clone());
  let items = &calls[..t.unwrap_or(calls.len())];
  let mut raw: Vec<Exp> = vec![];
  let late = term.as_ref().map(|t| o.sb > t.b).unwrap_or(false);
  let in_sub = |ev: Ev, c: Option<&Call>| Exp {
    ev,
    lo: o.sb,
    // subscribed from inside the very call: either of the two may bring it
    hi: c.filter(|c| c.e > o.sb && c.e != u64::MAX).map(|c| c.e).unwrap_or(o.se),
    opt: false,
  };
  match kind {
    SK::Plain | SK::Async if late => return None,
    SK::Behavior => {
      if late {
        let t = term.as_ref().unwrap();
        return Some(vec![in_sub(t.ev.clone(), Some(t))]);
      }
      let c = items.iter().filter(|c| c.b < o.sb).last();
      raw.push(in_sub(c.map(|c| c.ev.clone()).unwrap_or(Ev::N(V::i(BEHAVIOR_INIT))), c));
    }
    SK::Replay => {
      for c in items.iter().filter(|c| c.b < o.sb) {
        raw.push(in_sub(c.ev.clone(), Some(c)));
      }
    }
    _ => {}
  }
  let live = |c: &Call| Exp { ev: c.ev.clone(), lo: c.b, hi: c.e, opt: o.ub < c.e };
  if kind == SK::Async {
    if let Some(t) = &term {
      if o.ue > t.b {
        if t.ev == Ev::C {
          if let Some(c) = items.last() {
            raw.push(Exp { ev: c.ev.clone(), ..live(t) });
          }
        }
        raw.push(live(t));
      }
    }
  } else {
    for c in items.iter().filter(|c| c.b > o.sb && o.ue > c.b) {
      raw.push(live(c));
    }
    if let Some(t) = &term {
      if late {
        raw.push(in_sub(t.ev.clone(), Some(t)));
      } else if o.ue > t.b {
        raw.push(live(t));
      }
    }
  }
  Some(through(o.via, raw))
}
fn judge(kind: SK, calls: &[Call], i: usize, o: &ObsSt) -> Option<String> {
  let say = |m: String| {
    Some(format!(
      "observer {} ({:?}, subscribed [{}..{}], unsubscribed [{}..{}]): {}\n got (event, stamp): {:?}\n calls: {:?}",
      i, o.via, o.sb, o.se, o.ub as i64, o.ue as i64, m, o.got, calls
    ))
  };
  // the contract holds for everybody
  if let Some(p) = o.got.iter().position(|g| g.0.terminal()) {
    if p + 1 != o.got.len() {
      return say("events after the terminal".into());
    }
  }
  let exp = expected(kind, calls, o)?;
  let mut k = 0;
  for (ev, at) in &o.got {
    loop {
      match exp.get(k) {
        None => return say(format!("{:?} is too much, expected {:?}", ev, exp.iter().map(|e| &e.ev).collect::<Vec<_>>())),
        Some(e) if e.ev == *ev => {
          if *at < e.lo || *at > e.hi {
            return say(format!("{:?} arrived at {} instead of within [{}..{}]", ev, at, e.lo, e.hi));
          }
          k += 1;
          break;
        }
        Some(e) if e.opt => k += 1,
        Some(e) => return say(format!("{:?} arrived, expected was {:?}", ev, e.ev)),
      }
    }
  }
  if let Some(e) = exp[k..].iter().find(|e| !e.opt) {
    return say(format!("{:?} is missing", e.ev));
  }
  None
}
/// with emissions from inside callbacks: everything once, whatever the order
fn judge_nested(kind: SK, calls: &[Call], i: usize, o: &ObsSt) -> Option<String> {
  let say = |m: String| {
    Some(format!(
      "observer {} (subscribed [{}..{}], unsubscribed [{}..{}]): {}\n got (event, stamp): {:?}\n calls: {:?}",
      i, o.sb, o.se, o.ub as i64, o.ue as i64, m, o.got, calls
    ))
  };
  if let Some(p) = o.got.iter().position(|g| g.0.terminal()) {
    if p + 1 != o.got.len() {
      return say("events after the terminal".into());
    }
  }
  let t = calls.iter().filter(|c| c.ev.terminal()).map(|c| c.b).min().unwrap_or(u64::MAX).min(o.ub);
  // what is nested in the call that brought the end may be cut off by it
  let t = calls.iter().filter(|c| c.b <= t && t <= c.e).map(|c| c.b).min().unwrap_or(t);
  for c in calls.iter() {
    let n = o.got.iter().filter(|g| g.0 == c.ev).count();
    if let Ev::N(_) = c.ev {
      if n > 1 {
        return say(format!("{:?} arrived {} times", c.ev, n));
      }
      if n == 0 && c.e < t && kind != SK::Async && (c.b > o.sb || kind == SK::Replay) {
        return say(format!("{:?} is missing", c.ev));
      }
      if n == 1 && c.b > o.ue {
        return say(format!("{:?} came though it was emitted after the unsubscribe", c.ev));
      }
    }
  }
  if let Some(c) = calls.iter().find(|c| c.ev.terminal()) {
    // (an async subject emits its item before the terminal: a callback may still end it otherwise)
    let over = calls.iter().filter(|x| x.b <= c.b && c.b <= x.e).map(|x| x.e).max().unwrap_or(c.e);
    if o.ub > over && kind != SK::Async && !o.got.iter().any(|g| g.0 == c.ev) {
      return say(format!("{:?} is missing", c.ev));
    }
  }
  None
}
fn run(c: Case, mode: Mode) -> CaseOut {
  let mut o = case_out(format!("{:?}", c));
  o.label(format!("kind:{:?}", c.kind));
  let w = Sh::new(W { calls: vec![], obs: vec![], uid: 0, fails: vec![], checks: 0 });
  let x = X { s: Sh::new(None), one: Sh::new(None), w: w.clone(), c: Sh::new(c.clone()) };
  let x2 = x.clone();
  let c2 = c.clone();
  let cfg = vprt::Config { hash_seed: o.key, ..Default::default() };
  let out = vprt::run(
    cfg,
    None,
    Box::new(move || {
      let own = own_locks(c2.kind);
      let s = AnySbj::new(c2.kind);
      // touch everything once
      let base = {
        let s = AnySbj::new(c2.kind);
        let a = vprt::live_sync();
        drop(s);
        a - vprt::live_sync()
      };
      let at = vprt::live_sync();
      let _ = base;
      if c2.same {
        x2.one.set(Some(s.observable()));
      }
      let with_one = vprt::live_sync();
      x2.s.set(Some(s));
      for a in &c2.acts {
        x2.act(a);
        // is_subscribed, and nothing held for those that are gone
        let (live, bad) = x2.w.with(|w| {
          let mut live = 0;
          let mut bad = None;
          let hs: Vec<(usize, Subscription<'static>, bool)> = w
            .obs
            .iter()
            .enumerate()
            .filter_map(|(i, o)| {
              let gone = o.got.last().map(|g| g.0.terminal()).unwrap_or(false) || o.ue != u64::MAX;
              o.handle.clone().map(|h| (i, h, gone))
            })
            .collect();
          for (i, h, gone) in hs {
            if h.is_subscribed() == gone {
              bad = Some(format!("observer {}: is_subscribed() = {} though ended = {}", i, !gone, gone));
            }
            if gone {
              w.obs[i].handle = None;
            } else {
              live += 1;
            }
          }
          (live, bad)
        });
        if let Some(b) = bad {
          x2.w.with(|w| w.fails.push(b));
        }
        if live == 0 {
          x2.w.with(|w| w.checks += 1);
          let n = vprt::live_sync();
          // the locks made since belong to the subject (touched for the first time) or to the
          // Observable value
          if n - at > own + (with_one - at) + 2 {
            let m = format!(
              "after {:?} nobody is subscribed, but {} locks are alive instead of at most {}",
              a,
              n - at,
              own + (with_one - at) + 2
            );
            x2.w.with(|w| w.fails.push(m));
          }
        }
      }
    }),
  );
  if let Some(t) = out.trouble() {
    o.fail(t);
    return o;
  }
  w.with(|w| {
    if let Some(f) = w.fails.first() {
      o.fail(f.clone());
    }
    for (i, ob) in w.obs.iter().enumerate() {
      let r = if mode == Mode::Nested { judge_nested(c.kind, &w.calls, i, ob) } else { judge(c.kind, &w.calls, i, ob) };
      if let Some(m) = r {
        o.fail(m);
      }
      if ob.got.iter().any(|g| g.1 < ob.se) {
        o.label("history handed over at subscribe");
      }
      if ob.ub != u64::MAX {
        o.label("an observer unsubscribed");
      }
    }
    o.nontrivial = w.obs.iter().any(|o| !o.got.is_empty());
    if w.obs.iter().filter(|o| !o.got.is_empty()).count() > 1 {
      o.label("several observers were served");
    }
    if w.checks > 0 {
      o.label("checked that nothing is held");
    }
  });
  // break the cycle world -> handles
  x.s.set(None);
  x.one.set(None);
  let h = w.with(|w| std::mem::take(&mut w.obs));
  drop(h);
  o
}
pub fn plain() -> CaseOut {
  run(tape::with(|d| gen(d, Mode::Plain)), Mode::Plain)
}
pub fn reactive() -> CaseOut {
  run(tape::with(|d| gen(d, Mode::Reactive)), Mode::Reactive)
}
pub fn nested() -> CaseOut {
  run(tape::with(|d| gen(d, Mode::Nested)), Mode::Nested)
}

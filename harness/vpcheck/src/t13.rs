//! C13: publish / ref_count / replay. Call sequences against an exact model (one thread), then
//! subscribers, producers and connections on threads.
use crate::engine::CaseOut;
use crate::tape::{self, Draw};
use crate::th::*;
use crate::val::*;
use another_rxrust::prelude::*;
use vp_std::vprt;

type Obl = Observable<'static, V>;
type Sub = Subscription<'static>;

#[derive(Clone, Copy, Debug, PartialEq)]
enum CK {
  Publish,
  RefCount,
  Replay,
}
#[derive(Clone)]
enum Conn {
  P(operators::Publish<'static, V>),
  C(operators::RefCount<'static, V>),
  R(operators::Replay<'static, V>),
}
impl Conn {
  fn new(k: CK, o: &Obl) -> Conn {
    match k {
      CK::Publish => Conn::P(o.publish()),
      CK::RefCount => Conn::C(o.ref_count()),
      CK::Replay => Conn::R(o.replay()),
    }
  }
  fn observable(&self) -> Obl {
    match self {
      Conn::P(x) => x.observable(),
      Conn::C(x) => x.observable(),
      Conn::R(x) => x.observable(),
    }
  }
  fn connect(&self) -> Option<Sub> {
    match self {
      Conn::P(x) => Some(x.connect()),
      _ => None,
    }
  }
}
#[derive(Clone, Copy, Debug, PartialEq)]
enum Via {
  Direct,
  Map,
  Take(usize),
}
#[derive(Clone, Copy, Debug, PartialEq)]
enum React {
  Leave,
  /// another one leaves
  Other(usize),
  /// a new subscriber comes
  New,
  Disconnect,
}
#[derive(Clone, Copy, Debug, PartialEq)]
enum Op {
  Sub(Via, Option<(usize, React)>),
  Unsub(usize),
  Emit(i64),
  Error(i64),
  Complete,
  Connect,
  Disconnect(usize),
}
#[derive(Clone, Debug)]
struct Case {
  kind: CK,
  /// what the source emits inside subscribe
  cold: Vec<Ev>,
  /// keeps emitting to those that are gone
  rude: bool,
  /// the same Observable value for everybody / clones of the connectable
  same: bool,
  ops: Vec<Op>,
}
fn gen(d: &mut Draw) -> Case {
  let kind = *d.pick(&[CK::Publish, CK::RefCount, CK::Replay]);
  let mut cold = vec![];
  if d.chance(1, 2) {
    for i in 0..d.below(5) {
      cold.push(Ev::N(V::i(100 + i as i64)))
    }
    match d.below(4) {
      0 => cold.push(Ev::C),
      1 => cold.push(Ev::E(Er::new(d.below(3) as i64, 5))),
      _ => {}
    }
  }
  let n = 2 + d.below(12);
  let mut ops = vec![];
  let mut next = 0;
  for _ in 0..n {
    let w_conn = if kind == CK::Publish { 3 } else { 0 };
    ops.push(match d.weighted(&[6, 4, 8, 1, 1, w_conn, w_conn / 2]) {
      0 => {
        let via = match d.below(6) {
          0 => Via::Map,
          1 => Via::Take(1 + d.below(3) as usize),
          _ => Via::Direct,
        };
        let react = if via == Via::Direct && d.chance(1, 4) {
          let k = 1 + d.below(3) as usize;
          Some((
            k,
            match d.below(4) {
              0 => React::Leave,
              1 => React::Other(d.below(3) as usize),
              2 => React::New,
              _ if kind == CK::Publish => React::Disconnect,
              _ => React::Leave,
            },
          ))
        } else {
          None
        };
        Op::Sub(via, react)
      }
      1 => Op::Unsub(d.below(5) as usize),
      2 => {
        next += 1;
        Op::Emit(next)
      }
      3 => Op::Error(d.below(3) as i64),
      4 => Op::Complete,
      5 => Op::Connect,
      _ => Op::Disconnect(d.below(2) as usize),
    })
  }
  if let Some(k) = d.burst() {
    if d.chance(1, 3) {
      cold.splice(0..0, (0..k).map(|i| Ev::N(V::i(1000 + i as i64))));
    } else {
      let at = d.below(ops.len() as u32 + 1) as usize;
      ops.splice(at..at, (0..k).map(|i| Op::Emit(1000 + i as i64)));
    }
  }
  Case { kind, cold, rude: d.chance(1, 4), same: d.chance(1, 2), ops }
}
struct S {
  via: Via,
  got: Vec<Ev>,
  exp: Vec<Ev>,
  present: bool,
  judged: bool,
  no_items: bool,
  handle: Option<Sub>,
  react: Option<(usize, React)>,
}
struct Cn {
  obs: Observer<'static, V>,
  open: bool,
  ended: bool,
}
struct W {
  kind: CK,
  cold: Vec<Ev>,
  rude: bool,
  subs: Vec<S>,
  conns: Vec<Cn>,
  handles: Vec<Sub>,
  history: Vec<Ev>,
  connects: usize,
  /// the source ended
  terminated: bool,
  /// everybody left
  dead: bool,
  /// the library subscribed the source once more after that
  relaxed: bool,
  fails: Vec<String>,
  depth: usize,
  dead_seen: bool,
}
impl W {
  fn give(&mut self, i: usize, ev: &Ev) {
    let s = &mut self.subs[i];
    match s.via {
      Via::Map => s.exp.push(match ev {
        Ev::N(v) => Ev::N(V::i(v.num() + 1000)),
        e => e.clone(),
      }),
      _ => s.exp.push(ev.clone()),
    }
    if let (Via::Take(n), false) = (s.via, ev.terminal()) {
      if s.exp.len() == n {
        s.exp.push(Ev::C);
        s.present = false;
      }
    }
    if ev.terminal() {
      s.present = false;
    }
  }
  /// the model of one event of the source, before it is sent
  fn deliver(&mut self, c: usize, ev: &Ev) {
    if !self.conns[c].open || self.relaxed {
      return;
    }
    if self.kind == CK::Replay {
      self.history.push(ev.clone());
    }
    for i in 0..self.subs.len() {
      if self.subs[i].present {
        self.give(i, ev);
      }
    }
    if ev.terminal() {
      self.terminated = true;
      self.conns[c].open = false;
    } else {
      self.left();
    }
  }
  /// after somebody may have left
  fn left(&mut self) {
    if self.kind != CK::Publish && !self.terminated && !self.subs.iter().any(|s| s.present) {
      for c in &mut self.conns {
        c.open = false;
      }
      self.dead = true;
      self.dead_seen = true;
    }
  }
  fn check(&mut self, at: &str) {
    if !self.fails.is_empty() {
      return;
    }
    for (i, s) in self.subs.iter().enumerate() {
      let t = s.got.iter().filter(|e| e.terminal()).count();
      if t > 1 || (t == 1 && !s.got.last().unwrap().terminal()) {
        self.fails.push(format!("{}: subscriber {} got {:?}", at, i, s.got));
        return;
      }
      if s.no_items && self.conns.len() <= 1 && s.got.iter().any(|e| !e.terminal()) {
        self.fails.push(format!("{}: subscriber {} came after the end and got {:?}", at, i, s.got));
        return;
      }
      if s.judged && !self.relaxed && s.got != s.exp {
        self.fails.push(format!("{}: subscriber {} ({:?}) got {:?} instead of {:?}", at, i, s.via, s.got, s.exp));
        return;
      }
    }
    let live = self.conns.iter().filter(|c| c.obs.is_subscribed()).count();
    if self.kind != CK::Publish && live > 1 {
      self.fails.push(format!("{}: {} subscriptions of the source at a time", at, live));
      return;
    }
    if !self.relaxed {
      for (i, c) in self.conns.iter().enumerate() {
        if c.obs.is_subscribed() != c.open {
          let who = if c.open { "was stopped too early" } else { "was not stopped" };
          self.fails.push(format!("{}: source subscription {} {}", at, i, who));
          return;
        }
      }
    }
    let total = self.conns.len();
    let want = match self.kind {
      CK::Publish => self.connects,
      _ if self.dead_seen || self.terminated => total,
      _ => (!self.subs.is_empty()) as usize,
    };
    if total != want {
      self.fails.push(format!("{}: the source was subscribed {} times instead of {}", at, total, want));
    }
  }
}
#[derive(Clone)]
struct X {
  w: Sh<W>,
  conn: Sh<Option<Conn>>,
  one: Sh<Option<Obl>>,
}
impl X {
  fn source(w: &Sh<W>) -> Obl {
    let w = w.clone();
    Observable::create(move |o: Observer<'static, V>| {
      let (c, evs, rude, two) = w.with(|w| {
        if w.kind != CK::Publish && (w.dead || w.terminated) {
          // it was subscribed again: the statement leaves that open
          if !w.terminated || w.kind == CK::RefCount {
            w.relaxed = true;
          }
        }
        let two = w.kind != CK::Publish && w.conns.iter().any(|c| c.obs.is_subscribed());
        w.conns.push(Cn { obs: o.clone(), open: true, ended: false });
        (w.conns.len() - 1, w.cold.clone(), w.rude, two)
      });
      if two {
        w.with(|w| w.fails.push("a second subscription of the source beside a live one".into()));
      }
      for e in evs {
        if !rude && !o.is_subscribed() {
          break;
        }
        w.with(|w| {
          w.deliver(c, &e);
          w.conns[c].ended |= e.terminal();
        });
        send(&o, &e);
      }
    })
  }
  fn subscribe(&self, via: Via, react: Option<(usize, React)>) {
    let i = self.w.with(|w| {
      w.subs.push(S {
        via,
        got: vec![],
        exp: vec![],
        present: false,
        judged: true,
        no_items: false,
        handle: None,
        react,
      });
      let i = w.subs.len() - 1;
      if w.kind == CK::Replay {
        w.subs[i].present = true;
        for e in w.history.clone() {
          if w.subs[i].present {
            w.give(i, &e);
          }
        }
        // (it is there for a moment, even if the history is all it wants)
      } else if w.terminated {
        w.subs[i].judged = false;
        w.subs[i].no_items = !w.conns.iter().any(|c| c.open) && w.conns.len() <= 1;
      } else {
        w.subs[i].present = true;
      }
      i
    });
    let o = match self.one.get() {
      Some(o) => o,
      None => {
        let c = self.conn.get().unwrap();
        c.clone().observable()
      }
    };
    let o = match via {
      Via::Direct => o,
      Via::Map => o.map(|v| V::i(v.num() + 1000)),
      Via::Take(n) => o.take(n),
    };
    let (a, b, c) = (self.clone(), self.w.clone(), self.w.clone());
    let (t1, t2, t3) = (tok(), tok(), tok());
    let sb = o.subscribe(
      move |v: V| {
        let _t = &t1;
        let r = a.w.with(|w| {
          let s = &mut w.subs[i];
          s.got.push(Ev::N(v));
          match s.react {
            Some((k, r)) if s.got.len() == k => Some(r),
            _ => None,
          }
        });
        if let Some(r) = r {
          a.react(i, r)
        }
      },
      move |e| {
        let _t = &t2;
        b.with(|w| w.subs[i].got.push(Ev::E(Er::from_rx(&e).plain())))
      },
      move || {
        let _t = &t3;
        c.with(|w| w.subs[i].got.push(Ev::C))
      },
    );
    self.w.with(|w| {
      w.subs[i].handle = Some(sb);
      if w.depth == 0 {
        w.left()
      }
    });
  }
  fn react(&self, i: usize, r: React) {
    self.w.with(|w| w.depth += 1);
    match r {
      React::Leave => self.unsub(i),
      React::Other(j) => self.unsub(j),
      React::New => {
        if self.w.with(|w| w.subs.len()) < 8 {
          self.subscribe(Via::Direct, None)
        }
      }
      React::Disconnect => self.disconnect(0),
    }
    self.w.with(|w| {
      w.depth -= 1;
      if w.depth == 0 {
        w.left();
      }
    });
  }
  fn unsub(&self, i: usize) {
    let h = self.w.with(|w| {
      let inside = w.depth > 0;
      let h = w.subs.get(i).and_then(|s| s.handle.clone());
      if h.is_some() {
        let s = &mut w.subs[i];
        if inside {
          // what it did not get by now it will not get
          if s.exp.starts_with(&s.got) {
            s.exp = s.got.clone();
          }
        }
        s.present = false;
        w.left();
      }
      h
    });
    if let Some(h) = h {
      h.unsubscribe();
    }
  }
  fn disconnect(&self, k: usize) {
    let h = self.w.with(|w| {
      let n = w.handles.len();
      if n == 0 {
        return None;
      }
      let k = k.min(n - 1);
      w.conns[k].open = false;
      Some(w.handles[k].clone())
    });
    if let Some(h) = h {
      h.unsubscribe();
    }
  }
  fn emit(&self, ev: Ev) {
    let n = self.w.with(|w| w.conns.len());
    for c in 0..n {
      let o = self.w.with(|w| {
        let go = (w.rude || w.conns[c].obs.is_subscribed()) && (w.rude || !w.conns[c].ended);
        if go {
          w.deliver(c, &ev);
          w.conns[c].ended |= ev.terminal();
          Some(w.conns[c].obs.clone())
        } else {
          None
        }
      });
      if let Some(o) = o {
        send(&o, &ev);
      }
    }
  }
}
pub fn model() -> CaseOut {
  run(tape::with(gen), false)
}
/// the same histories; nothing is left when everything has ended and was dropped (C17)
pub fn release() -> CaseOut {
  run(tape::with(gen), true)
}
fn run(c: Case, leak: bool) -> CaseOut {
  let mut o = case_out(format!("{:?}", c));
  o.label(format!("kind:{:?}", c.kind));
  let before = live();
  let w = Sh::new(W {
    kind: c.kind,
    cold: c.cold.clone(),
    rude: c.rude,
    subs: vec![],
    conns: vec![],
    handles: vec![],
    history: vec![],
    connects: 0,
    terminated: false,
    dead: false,
    relaxed: false,
    fails: vec![],
    depth: 0,
    dead_seen: false,
  });
  let x = X { w: w.clone(), conn: Sh::new(None), one: Sh::new(None) };
  let (x2, c2) = (x.clone(), c.clone());
  let cfg = vprt::Config { hash_seed: o.key, ..Default::default() };
  let out = vprt::run(
    cfg,
    None,
    Box::new(move || {
      let c = c2;
      let conn = Conn::new(c.kind, &X::source(&x2.w));
      if c.same {
        x2.one.set(Some(conn.observable()));
      }
      x2.conn.set(Some(conn));
      x2.w.with(|w| w.check("before anything"));
      for (n, op) in c.ops.iter().enumerate() {
        match op {
          Op::Sub(v, r) => {
            if x2.w.with(|w| w.subs.len()) < 8 {
              x2.subscribe(*v, *r)
            }
          }
          Op::Unsub(i) => x2.unsub(*i),
          Op::Emit(v) => x2.emit(Ev::N(V::i(*v))),
          Op::Error(e) => x2.emit(Ev::E(Er::new(*e, 6))),
          Op::Complete => x2.emit(Ev::C),
          Op::Connect => {
            if x2.w.with(|w| w.connects) < 3 {
              x2.w.with(|w| w.connects += 1);
              let conn = x2.conn.get().unwrap();
              if let Some(h) = conn.clone().connect() {
                x2.w.with(|w| w.handles.push(h));
              }
            }
          }
          Op::Disconnect(k) => x2.disconnect(*k),
        }
        x2.w.with(|w| w.check(&format!("after operation {} ({:?})", n, op)));
      }
      // registrations of those that came and went
      let ok = x2.w.with(|w| w.fails.is_empty() && !w.relaxed);
      if ok {
        let conn = x2.conn.get().unwrap();
        let ob = conn.observable();
        let round = || {
          let s = ob.subscribe(|_| {}, |_| {}, || {});
          s.unsubscribe();
        };
        let anchor = ob.subscribe(|_| {}, |_| {}, || {});
        round();
        let conns = x2.w.with(|w| w.conns.len());
        let a = vprt::live_sync();
        for _ in 0..4 {
          round();
        }
        let b = vprt::live_sync();
        if b > a && conns == x2.w.with(|w| w.conns.len()) {
          x2.w.with(|w| w.fails.push(format!("4 subscribers that came and went left {} locks behind", b - a)));
        }
        anchor.unsubscribe();
      }
      if leak {
        let hs = x2.w.with(|w| {
          let mut v: Vec<Sub> = w.subs.iter_mut().filter_map(|s| s.handle.take()).collect();
          v.append(&mut w.handles);
          v
        });
        for h in hs {
          h.unsubscribe();
        }
      }
    }),
  );
  if let Some(t) = out.trouble() {
    o.fail(t);
  }
  w.with(|w| {
    if let (Some(f), false) = (w.fails.first(), leak) {
      o.fail(f.clone());
    }
    let served = w.subs.iter().filter(|s| !s.got.is_empty()).count();
    o.nontrivial = served > 0;
    if served > 1 {
      o.label("several subscribers were served");
    }
    if w.dead_seen {
      o.label("the last one left");
    }
    if w.terminated {
      o.label("the source ended");
    }
    if !w.cold.is_empty() && served > 0 {
      o.label("the source emitted inside subscribe");
    }
    if w.relaxed {
      o.label("subscribed again after everybody left");
    }
    if w.connects > 1 {
      o.label("connected again");
    }
  });
  x.conn.set(None);
  x.one.set(None);
  let old = w.with(|w| (std::mem::take(&mut w.subs), std::mem::take(&mut w.conns), std::mem::take(&mut w.handles)));
  drop(old);
  w.with(|w| {
    w.history.clear();
    w.cold.clear();
  });
  if leak {
    drop(x);
    drop(w);
    let now = live();
    if now != before && o.fail.is_none() {
      o.fail(format!(
        "everything has ended and was dropped, and still alive are {} items, {} closures, {} errors",
        now[0] - before[0],
        now[1] - before[1],
        now[2] - before[2]
      ));
    }
  }
  o
}

// ---- on threads ------------------------------------------------------------------------------
#[derive(Clone, Copy, Debug, PartialEq)]
enum Leave {
  Stay,
  Thread(u64),
  Inside(usize),
  /// a trigger (take_until) fires on its own thread, possibly while the subscribe is going on
  Until(u64),
}
#[derive(Clone, Copy, Debug, PartialEq)]
enum SrcKind {
  /// one producer thread, started with everything else
  Hot,
  /// each subscribe starts a thread
  Threaded,
  /// emits inside subscribe
  Sync,
}
#[derive(Clone, Copy, Debug)]
struct Ob {
  join: Option<u64>,
  via: Via,
  leave: Leave,
}
#[derive(Clone, Debug)]
struct TCase {
  kind: CK,
  src: SrcKind,
  evs: Vec<Ev>,
  gaps: Vec<u64>,
  rude: bool,
  obs: Vec<Ob>,
  /// publish: connect by the main thread before / after the early subscribers, or by a thread
  connect: (u32, u64),
  disconnect: Option<u64>,
  late: usize,
}
fn tgen(d: &mut Draw, small: bool) -> TCase {
  let kind = *d.pick(&[CK::Publish, CK::RefCount, CK::Replay]);
  let src = *d.pick(&[SrcKind::Hot, SrcKind::Threaded, SrcKind::Sync]);
  let timed = !small && d.chance(1, 3);
  let gap = |d: &mut Draw| if timed { d.below(4) as u64 } else { 0 };
  let mut n = 1 + d.below(if small { 2 } else { 4 }) as usize;
  if !small && !timed {
    n = d.burst().unwrap_or(n);
  }
  let (mut evs, mut gaps) = (vec![], vec![]);
  for i in 0..n {
    evs.push(Ev::N(item(0, i)));
    gaps.push(gap(d));
  }
  match d.weighted(&[4, 2, 2]) {
    0 => {}
    1 => evs.push(Ev::C),
    _ => evs.push(Ev::E(Er::new(d.below(3) as i64, 77))),
  }
  gaps.push(gap(d));
  let no = if small { 2 } else { 1 + d.below(3) };
  let mut obs = vec![];
  for _ in 0..no {
    obs.push(Ob {
      join: if d.chance(2, 3) { Some(gap(d)) } else { None },
      via: if small {
        Via::Direct
      } else {
        match d.below(6) {
          0 => Via::Map,
          1 => Via::Take(1 + d.below(3) as usize),
          _ => Via::Direct,
        }
      },
      leave: match d.weighted(&[4, 4, 1, 2]) {
        0 => Leave::Stay,
        1 => Leave::Thread(gap(d)),
        3 => Leave::Until(gap(d)),
        _ => Leave::Inside(1 + d.below(3) as usize),
      },
    });
  }
  TCase {
    kind,
    src,
    evs,
    gaps,
    rude: d.chance(1, 4),
    obs,
    connect: (d.below(3), gap(d)),
    disconnect: if d.chance(1, 2) { Some(gap(d)) } else { None },
    late: d.below(2) as usize,
  }
}
#[derive(Clone, Copy, Debug)]
struct Span {
  b: u64,
  e: u64,
}
const NEVER: Span = Span { b: u64::MAX, e: u64::MAX };
#[derive(Clone, Debug)]
struct Call {
  ev: Ev,
  b: u64,
  e: u64,
  conn: usize,
  /// the source was still wanted when the call returned
  after: bool,
}
struct TW {
  calls: Vec<Call>,
  obs: Vec<Observer<'static, V>>,
  sub: Vec<Span>,
  unsub: Vec<Span>,
  connect: Span,
  disconnect: Span,
  two: bool,
  open_at_end: usize,
}
fn tplay(c: &TCase, w: &Sh<TW>, o: &Observer<'static, V>, conn: usize, recs: &[Recorder]) {
  for (i, ev) in c.evs.iter().enumerate() {
    if c.gaps[i] > 0 {
      vprt::sleep_ns(c.gaps[i] * MS);
    }
    if !c.rude && !o.is_subscribed() {
      break;
    }
    let b = vprt::stamp();
    let k = w.with(|w| {
      w.calls.push(Call { ev: ev.clone(), b, e: u64::MAX, conn, after: false });
      w.calls.len() - 1
    });
    let rs: Vec<&Recorder> = recs.iter().collect();
    emission(&rs, || send(o, ev));
    let a = o.is_subscribed();
    let e = vprt::stamp();
    w.with(|w| {
      w.calls[k].e = e;
      w.calls[k].after = a;
    });
  }
}
fn tbody(c: TCase, recs: Vec<Recorder>, w: Sh<TW>) {
  let threads: Sh<Vec<usize>> = Sh::new(vec![]);
  let source = {
    let (w, c, recs, threads) = (w.clone(), c.clone(), recs.clone(), threads.clone());
    Observable::create(move |o: Observer<'static, V>| {
      let conn = w.with(|w| {
        w.obs.push(o.clone());
        w.obs.len() - 1
      });
      let all = w.with(|w| w.obs.clone());
      let live = all.iter().filter(|o| o.is_subscribed()).count();
      drop(all);
      if live > 1 {
        w.with(|w| w.two = true);
      }
      match c.src {
        SrcKind::Hot => {}
        SrcKind::Threaded => {
          let (c, w, recs) = (c.clone(), w.clone(), recs.clone());
          let t = spawn(move || tplay(&c, &w, &o, conn, &recs));
          threads.with(|v| v.push(t));
        }
        SrcKind::Sync => tplay(&c, &w, &o, conn, &recs),
      }
    })
  };
  let cn = Conn::new(c.kind, &source);
  let shared = Sh::new(cn.clone());
  let firing: Sh<Vec<usize>> = Sh::new(vec![]);
  let join = {
    let (recs, w, firing) = (recs.clone(), w.clone(), firing.clone());
    move |i: usize, ob: Ob| {
      let o = shared.get().observable();
      let o = match ob.via {
        Via::Direct => o,
        Via::Map => o.map(|v| v),
        Via::Take(n) => o.take(n),
      };
      let o = match ob.leave {
        Leave::Until(ms) => {
          let (w, firing) = (w.clone(), firing.clone());
          o.take_until(Observable::create(move |t: Observer<'static, ()>| {
            let w = w.clone();
            let f = spawn(move || {
              if ms > 0 {
                vprt::sleep_ns(ms * MS);
              }
              let b = vprt::stamp();
              w.with(|w| w.unsub[i].b = b);
              t.next(());
              let e = vprt::stamp();
              w.with(|w| w.unsub[i].e = e);
            });
            firing.with(|v| v.push(f));
          }))
        }
        _ => o,
      };
      let sub: Sh<Option<Sub>> = Sh::new(None);
      let (sub2, w2, n) = (sub.clone(), w.clone(), Sh::new(0usize));
      let b = vprt::stamp();
      w.with(|w| w.sub[i].b = b);
      let sb = recs[i].subscribe_with(&o, move |_| {
        let k = n.with(|n| {
          *n += 1;
          *n
        });
        if let Leave::Inside(at) = ob.leave {
          if k >= at {
            if let Some(x) = sub2.get() {
              let b = vprt::stamp();
              w2.with(|w| w.unsub[i].b = w.unsub[i].b.min(b));
              x.unsubscribe();
              let e = vprt::stamp();
              w2.with(|w| w.unsub[i].e = w.unsub[i].e.min(e));
            }
          }
        }
      });
      let e = vprt::stamp();
      w.with(|w| w.sub[i].e = e);
      sub.set(Some(sb.clone()));
      sb
    }
  };
  let leave = {
    let w = w.clone();
    move |i: usize, sb: &Sub| {
      let b = vprt::stamp();
      w.with(|w| w.unsub[i].b = w.unsub[i].b.min(b));
      sb.unsubscribe();
      let e = vprt::stamp();
      w.with(|w| w.unsub[i].e = w.unsub[i].e.min(e));
    }
  };
  let handle: Sh<Option<Sub>> = Sh::new(None);
  let connect = {
    let (w, cn, handle) = (w.clone(), Sh::new(cn.clone()), handle.clone());
    move || {
      let b = vprt::stamp();
      w.with(|w| w.connect.b = b);
      let x = cn.get();
      if let Some(h) = x.connect() {
        handle.set(Some(h));
      }
      let e = vprt::stamp();
      w.with(|w| w.connect.e = e);
    }
  };
  let publish = c.kind == CK::Publish;
  let mut others = vec![];
  if publish && c.connect.0 == 0 {
    connect();
  }
  let mut subs = vec![];
  for (i, o) in c.obs.iter().enumerate() {
    if o.join.is_none() {
      subs.push((i, join(i, *o)));
    }
  }
  if publish && c.connect.0 == 1 {
    connect();
  }
  if c.src == SrcKind::Hot {
    let (c2, w2, recs2) = (c.clone(), w.clone(), recs.clone());
    others.push(spawn(move || {
      for (i, ev) in c2.evs.iter().enumerate() {
        if c2.gaps[i] > 0 {
          vprt::sleep_ns(c2.gaps[i] * MS);
        }
        let all: Vec<(usize, Observer<'static, V>)> = w2.with(|w| w.obs.iter().cloned().enumerate().collect());
        for (conn, o) in all {
          if !c2.rude && !o.is_subscribed() {
            continue;
          }
          let b = vprt::stamp();
          let k = w2.with(|w| {
            w.calls.push(Call { ev: ev.clone(), b, e: u64::MAX, conn, after: false });
            w.calls.len() - 1
          });
          let rs: Vec<&Recorder> = recs2.iter().collect();
          emission(&rs, || send(&o, ev));
          let a = o.is_subscribed();
          let e = vprt::stamp();
          w2.with(|w| {
            w.calls[k].e = e;
            w.calls[k].after = a;
          });
        }
      }
    }));
  }
  if publish && c.connect.0 == 2 {
    let ms = c.connect.1;
    let connect = connect.clone();
    others.push(spawn(move || {
      vprt::sleep_ns(ms * MS);
      connect()
    }));
  }
  if let (Some(ms), true) = (c.disconnect, publish) {
    let (w, handle) = (w.clone(), handle.clone());
    others.push(spawn(move || {
      vprt::sleep_ns(ms * MS);
      if let Some(h) = handle.get() {
        let b = vprt::stamp();
        w.with(|w| w.disconnect.b = b);
        h.unsubscribe();
        let e = vprt::stamp();
        w.with(|w| w.disconnect.e = e);
      }
    }));
  }
  for (i, sb) in subs.iter() {
    if let Leave::Thread(ms) = c.obs[*i].leave {
      let (l, sb, i) = (leave.clone(), sb.clone(), *i);
      others.push(spawn(move || {
        vprt::sleep_ns(ms * MS);
        l(i, &sb)
      }));
    }
  }
  for (i, o) in c.obs.iter().enumerate() {
    if let Some(ms) = o.join {
      let (j, l, o) = (join.clone(), leave.clone(), *o);
      others.push(spawn(move || {
        vprt::sleep_ns(ms * MS);
        let sb = j(i, o);
        if let Leave::Thread(ms) = o.leave {
          vprt::sleep_ns(ms * MS);
          l(i, &sb)
        }
      }));
    }
  }
  join_all(others);
  vprt::settle();
  join_all(firing.get());
  join_all(threads.get());
  vprt::settle();
  let all = w.with(|w| w.obs.clone());
  let n = all.iter().filter(|o| o.is_subscribed()).count();
  w.with(|w| w.open_at_end = n);
  for i in 0..c.late {
    join(c.obs.len() + i, Ob { join: None, via: Via::Direct, leave: Leave::Stay });
  }
  vprt::settle();
  join_all(threads.get());
}
fn trun(c: TCase) -> CaseOut {
  let mut o = case_out(format!("{:?}", c));
  o.label(format!("kind:{:?}", c.kind));
  o.label(format!("source:{:?}", c.src));
  let n = c.obs.len() + c.late;
  let recs: Vec<Recorder> = (0..n).map(|_| Recorder::new()).collect();
  let w = Sh::new(TW {
    calls: vec![],
    obs: vec![],
    sub: vec![NEVER; n],
    unsub: vec![NEVER; n],
    connect: NEVER,
    disconnect: NEVER,
    two: false,
    open_at_end: 0,
  });
  let (c2, r2, w2) = (c.clone(), recs.clone(), w.clone());
  let out = run_sched(Default::default(), o.key, move || tbody(c2, r2, w2));
  if let Some(t) = out.trouble() {
    o.fail(t);
  } else {
    let r = w.with(|w| tjudge(&c, w, &recs, &mut o.labels));
    if let Some(m) = r {
      let mut s = String::new();
      for (i, r) in recs.iter().enumerate() {
        s += &format!("\n subscriber {}:{} {:?}", i, show_cbs(&r.cbs()), w.with(|w| (w.sub[i], w.unsub[i])));
      }
      let calls = w.with(|w| format!("{:?} connect {:?} disconnect {:?}", w.calls, w.connect, w.disconnect));
      o.fail(format!("{}{}\n {}", m, s, calls));
    }
  }
  o.nontrivial = recs.iter().any(|r| !r.cbs().is_empty());
  let old = w.with(|w| std::mem::take(&mut w.obs));
  drop(old);
  o
}
fn tjudge(c: &TCase, w: &TW, recs: &[Recorder], labels: &mut Vec<String>) -> Option<String> {
  let publish = c.kind == CK::Publish;
  if w.two && !publish {
    return Some("two subscriptions of the source at a time".into());
  }
  if publish && w.obs.len() != (w.connect.b != u64::MAX) as usize {
    return Some(format!("the source was subscribed {} times", w.obs.len()));
  }
  let n = c.obs.len();
  let all: Vec<Vec<Cb>> = (0..recs.len())
    .map(|i| {
      let mut v = recs[i].cbs();
      // the end that the trigger brings
      if i < n && matches!(c.obs[i].leave, Leave::Until(_)) && v.last().map(|x| x.ev == Ev::C).unwrap_or(false) {
        let at = v.last().unwrap().start;
        if w.unsub[i].b < at && at < w.unsub[i].e {
          v.pop();
        }
      }
      v
    })
    .collect();
  let via = |i: usize| if i < n { c.obs[i].via } else { Via::Direct };
  // when a subscriber may have left
  let gone = |i: usize| -> u64 {
    let t = match via(i) {
      Via::Take(k) if nums(&all[i]).len() >= k => all[i][0].start,
      _ => u64::MAX,
    };
    w.unsub[i].b.min(t)
  };
  // was there somebody at every moment since the first one had come?
  let covered = {
    let mut iv: Vec<(u64, u64)> = (0..n).map(|i| (w.sub[i].e, gone(i))).filter(|x| x.0 < x.1).collect();
    iv.sort();
    match iv.first().copied() {
      None => false,
      Some((t0, mut end)) => {
        let early = (0..n).any(|i| gone(i) < t0);
        for x in &iv {
          if x.0 <= end {
            end = end.max(x.1)
          }
        }
        !early && end == u64::MAX
      }
    }
  };
  if covered {
    labels.push("there always was a subscriber".into());
  }
  let once = w.obs.len() == 1;
  let term = w.calls.iter().find(|x| x.ev.terminal());
  if !publish && covered && term.is_none() && !once {
    return Some(format!("the source was subscribed {} times though there always was a subscriber", w.obs.len()));
  }
  // one that leaves before it has come may not have needed the source
  let until = c.obs.iter().any(|o| matches!(o.leave, Leave::Until(_)));
  if until {
    labels.push("left by a trigger".into());
  }
  if !publish && w.obs.is_empty() && !until {
    return Some("the source was never subscribed".into());
  }
  // when the source has to be stopped, and when not
  let everybody_left = (0..n).all(|i| match via(i) {
    Via::Take(k) => nums(&all[i]).len() >= k || w.unsub[i].e != u64::MAX,
    _ => w.unsub[i].e != u64::MAX,
  });
  if !publish && everybody_left {
    labels.push("everybody left".into());
    if w.open_at_end > 0 {
      return Some("everybody has left, but the source is still subscribed".into());
    }
  }
  if publish && w.disconnect.e != u64::MAX && w.open_at_end > 0 {
    return Some("disconnected, but the source is still subscribed".into());
  }
  if term.is_none() && w.open_at_end != 1 && (if publish { w.connect.e != u64::MAX && w.disconnect.b == u64::MAX } else { covered }) {
    return Some("the source was stopped too early".into());
  }
  for i in 0..recs.len() {
    let cbs = &all[i];
    if let Some(m) = contract(&recs[i].cbs()) {
      return Some(format!("subscriber {}: {}", i, m));
    }
    if !once {
      continue;
    }
    let (sub, unsub) = (w.sub[i], w.unsub[i]);
    let v: Vec<usize> = nums(cbs).iter().map(|x| of(*x).1).collect();
    if v.windows(2).any(|x| x[1] != x[0] + 1) {
      return Some(format!("subscriber {}: gap, repetition or disorder: {:?}", i, v));
    }
    let call = |k: usize| w.calls.iter().find(|x| x.ev == Ev::N(item(0, k)));
    for cb in cbs {
      if let Ev::N(x) = &cb.ev {
        let k = of(x.num()).1;
        let s = match call(k) {
          None => return Some(format!("item {} was never emitted", k)),
          Some(s) => s,
        };
        if s.b > cb.start {
          return Some(format!("item {} before it was emitted", k));
        }
        if s.b > unsub.e {
          return Some(format!("subscriber {}: item {} was emitted after its unsubscribe had returned", i, k));
        }
        if s.b > w.disconnect.e {
          return Some(format!("item {} was emitted after the disconnect had returned", k));
        }
        if c.kind != CK::Replay && s.e < sub.b {
          return Some(format!("subscriber {}: item {} was over before it came", i, k));
        }
      }
    }
    if c.kind == CK::Replay && v.first().map(|x| w.calls[0].ev != Ev::N(item(0, *x))).unwrap_or(false) {
      return Some(format!("subscriber {}: the beginning is missing: {:?}", i, v));
    }
    let full = matches!(via(i), Via::Take(k) if v.len() >= k);
    let taking = matches!(via(i), Via::Take(_));
    if let Via::Take(k) = via(i) {
      if v.len() > k {
        return Some(format!("take({}) let {} items through", k, v.len()));
      }
    }
    if full {
      continue;
    }
    let stays = unsub.b == u64::MAX;
    // items that it has to have
    for s in &w.calls {
      let wanted = s.after && s.conn == 0;
      let k = match &s.ev {
        Ev::N(x) => of(x.num()).1,
        _ => continue,
      };
      let here = match c.kind {
        CK::Replay => stays,
        _ => sub.e < s.b && (stays || (s.e < unsub.b && !taking)),
      };
      let conn_open = if publish { s.b > w.connect.b && s.e < w.disconnect.b } else { covered };
      if here && (wanted || conn_open) && !v.contains(&k) {
        return Some(format!("subscriber {}: item {} is missing", i, k));
      }
    }
    let got_term = cbs.iter().find(|x| x.ev.terminal());
    match (term, got_term) {
      (None, Some(t)) => return Some(format!("subscriber {}: {:?} out of nowhere", i, t.ev)),
      (Some(s), Some(t)) if s.ev != t.ev => return Some(format!("subscriber {}: {:?} instead of {:?}", i, t.ev, s.ev)),
      (Some(s), None) => {
        let here = match c.kind {
          CK::Replay => stays,
          _ => stays && sub.e < s.b,
        };
        let open = if publish { s.e < w.disconnect.b } else { covered };
        if here && open {
          return Some(format!("subscriber {}: {:?} did not arrive", i, s.ev));
        }
      }
      _ => {}
    }
  }
  // replay: those that stayed have the same
  if c.kind == CK::Replay && once {
    let mut first: Option<Vec<Ev>> = None;
    for i in 0..recs.len() {
      if w.unsub[i].b != u64::MAX || matches!(via(i), Via::Take(_)) {
        continue;
      }
      let v: Vec<Ev> = all[i].iter().map(|x| x.ev.clone()).collect();
      match &first {
        None => first = Some(v),
        Some(f) if *f != v => return Some(format!("two subscribers of a replay have {:?} and {:?}", f, v)),
        _ => {}
      }
    }
  }
  None
}
pub fn threads() -> CaseOut {
  trun(tape::with(|d| tgen(d, false)))
}
pub fn small() -> CaseOut {
  trun(tape::with(|d| tgen(d, true)))
}

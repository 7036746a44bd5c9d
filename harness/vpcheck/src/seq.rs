//! Families of single-threaded cases: generate, run the reference, run the library, judge.
use crate::ast::*;
use crate::build::{self, LibOut};
use crate::engine::CaseOut;
use crate::model::{self, ModelOut, Tr};
use crate::tape;
use crate::val::*;
use std::collections::HashMap;

fn show(t: &[Tr]) -> String {
  let mut s = String::new();
  for x in t {
    if s.len() > 1500 {
      return s + " ...";
    }
    let w = if x.who >= 1000 { format!("tap{}", x.who - 1000) } else { format!("s{}", x.who) };
    s += &format!(" [{}]{}:{:?}", x.step, w, x.ev);
  }
  s
}
fn base(case: &Case) -> CaseOut {
  let mut o = CaseOut { key: case.key(), desc: case.describe(), ..Default::default() };
  let mut names = vec![];
  op_names(&case.root, &mut names);
  for n in names {
    o.label(format!("op:{}", n))
  }
  o
}
fn has_contains(n: &Node) -> bool {
  node_has(n, &|x| match x {
    Node::Un(Op::Contains(_), _) => true,
    Node::Window(_, _, c) | Node::GroupBy(_, _, c) => c.iter().any(|o| matches!(o, Op::Contains(_))),
    _ => false,
  })
}
/// reference runs, one per accepted reading
fn models(case: &Case) -> Option<Vec<ModelOut>> {
  let mut v = vec![];
  for d in 0..(if has_contains(&case.root) { 2 } else { 1 }) {
    let m = model::run(case, d);
    if m.diverged {
      return None;
    }
    v.push(m)
  }
  Some(v)
}
fn trace_diff(m: &[ModelOut], l: &LibOut) -> Option<String> {
  if m.iter().any(|m| m.trace == l.trace) {
    return None;
  }
  Some(format!("expected:{}\n     got:{}", show(&m[0].trace), show(&l.trace)))
}
fn sub_diff(m: &[ModelOut], l: &LibOut) -> Option<String> {
  if m.iter().any(|m| m.trace == l.trace && m.subscribed == l.subscribed) {
    return None;
  }
  let m = m.iter().find(|m| m.trace == l.trace)?;
  Some(format!("is_subscribed after each step: expected {:?} got {:?}", m.subscribed, l.subscribed))
}
/// sources that must be closed but are not
fn teardown_diff(case: &Case, m: &ModelOut, l: &LibOut) -> Option<String> {
  let name = |r: &model::Rec| format!("{}{} (subscription {})", ["hot", "cold"][r.src.0 as usize], r.src.1, r.k);
  for (i, (a, b)) in m.recs.iter().zip(&l.recs).enumerate() {
    for (r, open) in b {
      if *open {
        if let Some((_, mo)) = a.iter().find(|x| x.0 == *r) {
          if !*mo {
            return Some(format!("after step {}: {} is still subscribed", i, name(r)));
          }
        }
      }
    }
  }
  if l.recs.len() < m.recs.len() {
    return None;
  }
  let cnt = |v: &Vec<(usize, usize, usize, bool)>| {
    let mut seen: HashMap<(usize, usize, usize), usize> = HashMap::new();
    let mut out = HashMap::new();
    for (a, b, c, l) in v {
      let n = seen.entry((*a, *b, *c)).or_insert(0);
      out.insert((*a, *b, *c, *n), *l);
      *n += 1;
    }
    out
  };
  let (hm, hl) = (cnt(&m.hot_live), cnt(&l.hot_live));
  for (k, v) in &hl {
    if *v && !m.reent && hm.get(k) == Some(&false) {
      return Some(format!("step {}: hot{} (subscription {}) still subscribed at its emission", k.0, k.1, k.2));
    }
  }
  for (c, v) in l.cold_emits.iter().enumerate() {
    for (k, n) in v.iter().enumerate() {
      if let Some(mn) = m.cold_emits[c].get(k) {
        if n > mn && !case.colds[c].rude {
          return Some(format!("cold{} (subscription {}) emitted {} events before it saw the end, expected {}", c, k, n, mn));
        }
      }
    }
  }
  None
}
/// The reference does not follow re-entrant calls nor the unmodelled operators; with an endless
/// source or unbounded retries in the same pipeline a run without end may be the user's own.
fn own_loop(case: &Case, m: &ModelOut, l: &LibOut) -> bool {
  let endless = l.out.livelock || l.out.overflow;
  // an item that arrives while its source is still delivering the one before: the order is open,
  // and with it whether the items such a delivery causes ever end
  if endless && m.reent {
    return true;
  }
  endless
    && (case.emit_in.is_some()
      || case.nest.is_some()
      || case.poke.is_some()
      || node_has(&case.root, &|x| match x {
        Node::Un(o, _) => unmodelled(o),
        Node::Window(_, _, c) | Node::GroupBy(_, _, c) => c.iter().any(unmodelled),
        _ => false,
      }))
    && node_has(&case.root, &|x| {
      matches!(x, Node::Repeat(_) | Node::Range(_, LONG) | Node::Endless | Node::Retry(0, _) | Node::RetryWhen(..))
    })
}
fn unmodelled(o: &Op) -> bool {
  matches!(o, Op::TimeInterval | Op::Timestamp | Op::Delay)
}
fn any_amb(n: &Node) -> bool {
  node_has(n, &|x| matches!(x, Node::Multi(MOp::Amb, _)))
}

// ---- C02 -----------------------------------------------------------------------------------
fn drive(g: &mut Gen, max: u32) -> Vec<Step> {
  let mut s = vec![Step::Sub];
  s.extend(g.emits(max));
  s
}
fn judge_trace(case: Case, need: impl Fn(&ModelOut) -> bool) -> CaseOut {
  let mut o = base(&case);
  let m = match models(&case) {
    Some(m) => m,
    None => {
      o.discard = true;
      return o;
    }
  };
  o.nontrivial = need(&m[0]);
  let l = build::run(&case, true);
  if own_loop(&case, &m[0], &l) {
    o.discard = true;
  } else if let Some(t) = l.out.trouble() {
    o.fail(t);
  } else if let Some(d) = trace_diff(&m, &l) {
    if m[0].reent {
      o.discard = true;
      return o;
    }
    o.fail(d);
  }
  if let Some(t) = m[0].trace.last() {
    o.label(match t.ev {
      Ev::N(_) => "end:open",
      Ev::E(_) => "end:error",
      Ev::C => "end:complete",
    });
  }
  o
}
/// now and then a case of many events: counts, buffers and queues beyond the usual few
fn large(g: &mut Gen) {
  if g.d.chance(1, 250) {
    g.big = *g.d.pick(&[20, 40, 70, 130, 260, 260, 520]);
  }
}
fn gen_case(c: Cfg, root: impl FnOnce(&mut Gen) -> Node, max: u32) -> Case {
  tape::with(|d| {
    let mut g = Gen::new(d, c);
    large(&mut g);
    let n = root(&mut g);
    let s = drive(&mut g, max);
    g.done(n, s)
  })
}
/// one operator over one scripted source
pub fn c02_one() -> CaseOut {
  let c = Cfg { budget: 1, endless: false, ..Cfg::chain() };
  let case = gen_case(
    c,
    |g| {
      let b = g.node(1);
      b
    },
    9,
  );
  judge_trace(case, |m| !m.trace.is_empty())
}
pub fn c02_chain() -> CaseOut {
  let c = Cfg::chain();
  let case = gen_case(
    c,
    |g| {
      let b = 2 + g.d.below(3) as i32;
      g.node(b)
    },
    10,
  );
  judge_trace(case, |m| !m.trace.is_empty())
}
/// one operator over tens of thousands of items
pub fn c02_long() -> CaseOut {
  let case = tape::with(|d| {
    let n = *d.pick(&[1030, 2050, 4100, 33_000, 66_000]);
    let mut g = Gen::new(d, Cfg::chain());
    g.big = n;
    let op = loop {
      let o = g.op();
      if !matches!(o, Op::Scan(k) | Op::Reduce(k) if k % NF2 == 4) && !unmodelled(&o) {
        break o;
      }
    };
    g.big = 0;
    let src = if g.d.chance(1, 3) {
      Node::Iter((0..n as i64).map(|i| i % 7).collect())
    } else {
      Node::Range(g.d.range(-3, 3), n as i64 + g.d.range(-2, 2))
    };
    let root = if g.d.chance(1, 6) {
      let (k, a) = (g.cnt(1, 3), if g.d.chance(1, 2) { vec![Op::Count] } else { vec![] });
      Node::Window(k, Box::new(src), a)
    } else {
      Node::Un(op, Box::new(src))
    };
    let mut c = g.done(root, vec![Step::Sub]);
    c.long = true;
    c
  });
  judge_trace(case, |m| !m.trace.is_empty())
}
// ---- C03 -----------------------------------------------------------------------------------
fn comb_root(g: &mut Gen, budget: i32) -> Node {
  match g.d.weighted(&[6, 4, 2, 1]) {
    0 => g.multi(budget),
    1 => g.trig(budget),
    2 => {
      let t = g.table_pub();
      Node::FlatMap(Box::new(g.node(budget - 1)), t)
    }
    _ => {
      let n = g.node(budget);
      n
    }
  }
}
pub fn c03_flat() -> CaseOut {
  let c = Cfg { endless: false, recover: false, window: false, budget: 1, ..Cfg::full() };
  let case = gen_case(c, |g| comb_root(g, 1), 14);
  judge_trace(case, |m| m.trace.len() > 1)
}
pub fn c03_nested() -> CaseOut {
  let c = Cfg { recover: false, ..Cfg::full() };
  let case = gen_case(
    c,
    |g| {
      let b = 2 + g.d.below(3) as i32;
      let pre = g.d.below(2) == 1;
      if pre {
        let o = g.op();
        Node::Un(o, Box::new(comb_root(g, b)))
      } else {
        comb_root(g, b)
      }
    },
    16,
  );
  judge_trace(case, |m| m.trace.len() > 1)
}
// ---- C04 -----------------------------------------------------------------------------------
pub fn c04() -> CaseOut {
  let c = Cfg { err_weight: 8, ..Cfg::full() };
  let case = gen_case(
    c,
    |g| {
      let b = 1 + g.d.below(4) as i32;
      g.node(b)
    },
    12,
  );
  judge_trace(case, |m| {
    m.trace.iter().any(|t| matches!(t.ev, Ev::E(_))) || m.cold_n.iter().any(|n| *n > 1)
  })
}
pub fn c04_recover() -> CaseOut {
  let c = Cfg { err_weight: 10, rich_cold: true, ..Cfg::full() };
  let case = gen_case(
    c,
    |g| {
      let b = 1 + g.d.below(3) as i32;
      g.recover(b)
    },
    12,
  );
  judge_trace(case, |m| {
    m.trace.iter().any(|t| matches!(t.ev, Ev::E(_))) || m.cold_n.iter().any(|n| *n > 1)
  })
}
// ---- C01 -----------------------------------------------------------------------------------
pub fn c01() -> CaseOut {
  let case = tape::with(|d| {
    let full = d.chance(3, 4);
    let c = if full {
      Cfg { rude: true, unmodelled: true, share: true, ..Cfg::full() }
    } else {
      Cfg { rude: true, unmodelled: true, ..Cfg::chain() }
    };
    let mut g = Gen::new(d, c);
    let b = g.d.below(5) as i32;
    let n = g.node(b);
    let mut s = vec![Step::Sub];
    if g.d.chance(1, 4) && !node_has(&n, &|x| matches!(x, Node::Share(..))) {
      s.push(Step::Sub);
    }
    s.extend(g.emits(14));
    // a callback that emits (the same or another source), or leaves
    let emit_in = if !g.hots.is_empty() && g.d.chance(1, 4) {
      let h = g.d.below(g.hots.len() as u32) as usize;
      Some((1 + g.d.below(4) as usize, h, g.ev(4, 4)))
    } else {
      None
    };
    let unsub_in = if g.d.chance(1, 10) { Some(1 + g.d.below(4) as usize) } else { None };
    let mut c = g.done(n, s);
    c.emit_in = emit_in;
    c.unsub_in = unsub_in;
    c
  });
  let mut o = base(&case);
  let m = model::run(&case, 0);
  if m.diverged {
    o.discard = true;
    return o;
  }
  let l = build::run(&case, true);
  if let Some(t) = l.out.trouble() {
    if own_loop(&case, &m, &l) {
      o.discard = true;
    } else {
      o.fail(t);
    }
    return o;
  }
  let subs = case.steps.iter().filter(|s| **s == Step::Sub).count();
  for i in 0..subs {
    let mut ended: Option<usize> = None;
    for t in l.trace.iter().filter(|t| t.who == i) {
      if ended.is_some() {
        o.fail(format!("subscriber {} got {:?} after its terminal:{}", i, t.ev, show(&l.trace)));
      }
      if t.ev.terminal() {
        ended = Some(t.step);
      }
    }
    if let Some(st) = ended {
      for (k, v) in l.subscribed.iter().enumerate() {
        if k >= st && v.get(i) == Some(&true) {
          o.fail(format!("subscriber {} still is_subscribed() after its terminal:{}", i, show(&l.trace)));
        }
      }
      o.nontrivial = true;
    }
  }
  o
}
// ---- C05 -----------------------------------------------------------------------------------
pub fn c05() -> CaseOut {
  let mut case = tape::with(|d| {
    let c = Cfg { share: true, ..Cfg::full() };
    let mut g = Gen::new(d, c);
    let b = g.d.below(4) as i32;
    let n = g.node(b);
    let mut s = vec![];
    let e = g.emits(10);
    let at = g.d.below(e.len() as u32 + 1) as usize;
    s.push(Step::Sub);
    s.extend(e);
    s.insert(1 + at, Step::Unsub(0));
    for _ in 0..g.d.below(3) {
      let i = 2 + at + g.d.below((s.len() - 1 - at) as u32) as usize;
      s.insert(i.min(s.len()), Step::Unsub(0));
    }
    g.done(n, s)
  });
  if tape::with(|d| d.chance(1, 4)) {
    case.unsub_in = Some(1 + tape::with(|d| d.below(4)) as usize);
  }
  case.how = tape::with(|d| d.weighted(&[3, 1, 1, 1, 1])) as u32;
  let mut o = base(&case);
  let m = match models(&case) {
    Some(m) => m,
    None => {
      o.discard = true;
      return o;
    }
  };
  let first = case.steps.iter().position(|s| matches!(s, Step::Unsub(_))).unwrap_or(0);
  o.nontrivial = m[0].subscribed.get(first.wrapping_sub(1)).map(|v| v[0]).unwrap_or(false)
    && case.steps[first..].iter().any(|s| matches!(s, Step::Emit(..)));
  let l = build::run(&case, true);
  if let Some(t) = l.out.trouble() {
    if own_loop(&case, &m[0], &l) {
      o.discard = true;
    } else {
      o.fail(t);
    }
    return o;
  }
  if let Some(d) = trace_diff(&m, &l) {
    // only what concerns the unsubscribe is judged here
    let cut = l.trace.iter().find(|t| t.who == 0 && t.step > first);
    if let Some(t) = cut {
      o.fail(format!("event {:?} delivered at step {} after unsubscribe at step {}\n{}", t.ev, t.step, first, d));
    }
  }
  if let Some(i) = l.dead_cb.iter().find(|i| **i < first) {
    o.fail(format!("is_subscribed() was false inside an item callback at step {}, before the unsubscribe at step {}", i, first));
  }
  for (i, v) in l.subscribed.iter().enumerate() {
    let ended = l.trace.iter().any(|t| t.who == 0 && t.step <= i && t.ev.terminal());
    let un = i >= first || (case.unsub_in.is_some() && m[0].subscribed.get(i).map(|x| !x[0]).unwrap_or(false));
    if v[0] && (ended || un) {
      o.fail(format!("is_subscribed() true after step {} (ended={}, unsubscribed={})", i, ended, un));
    }
    if !v[0] && !ended && !un {
      o.fail(format!("is_subscribed() false after step {} though neither terminal nor unsubscribe happened", i));
    }
  }
  o
}
// ---- C06 -----------------------------------------------------------------------------------
pub fn c06() -> CaseOut {
  let case = tape::with(|d| {
    let c = Cfg { subject: false, ..Cfg::full() };
    let mut g = Gen::new(d, c);
    large(&mut g);
    let b = 1 + g.d.below(4) as i32;
    let n = g.node(b);
    let mut s = vec![Step::Sub];
    let mut e = g.emits(12);
    if g.d.chance(1, 3) {
      let at = g.d.below(e.len() as u32 + 1) as usize;
      e.insert(at, Step::Unsub(0));
    }
    s.extend(e);
    g.done(n, s)
  });
  let mut o = base(&case);
  let m = match models(&case) {
    Some(m) => m,
    None => {
      o.discard = true;
      return o;
    }
  };
  let l = build::run(&case, true);
  if let Some(t) = l.out.trouble() {
    if own_loop(&case, &m[0], &l) {
      o.discard = true;
    } else {
      o.fail(t);
    }
    return o;
  }
  o.nontrivial = m[0].recs.iter().any(|v| v.iter().any(|r| !r.1)) || m[0].trace.iter().any(|t| t.ev.terminal());
  if let Some(mm) = m.iter().find(|m| m.trace == l.trace) {
    if let Some(d) = teardown_diff(&case, mm, &l) {
      o.fail(format!("{}\n trace:{}", d, show(&l.trace)));
    }
  }
  if !any_amb(&case.root) {
    for (i, v) in l.subscribed.iter().enumerate() {
      if v.iter().all(|x| !*x) {
        if let Some((r, _)) = l.recs[i].iter().find(|r| r.1) {
          o.fail(format!(
            "after step {} the subscription is over but {:?} is still subscribed\n trace:{}",
            i,
            r,
            show(&l.trace)
          ));
        }
      }
    }
  }
  o
}
// ---- C07, sequential part --------------------------------------------------------------------
pub fn c07_reentrant() -> CaseOut {
  let case = tape::with(|d| {
    let c = Cfg { unmodelled: true, share: true, ..Cfg::full() };
    let mut g = Gen::new(d, c);
    let b = 1 + g.d.below(4) as i32;
    let n = g.node(b);
    let mut s = vec![Step::Sub];
    s.extend(g.emits(10));
    let h = g.hots.len() as u32;
    let mut ein = None;
    if h > 0 && g.d.chance(2, 3) {
      let ev = g.ev(1, 1);
      ein = Some((1 + g.d.below(4) as usize, g.d.below(h) as usize, ev));
    }
    let nest = if g.d.chance(1, 4) { Some(1 + g.d.below(3) as usize) } else { None };
    let uin = if g.d.chance(1, 3) { Some(1 + g.d.below(4) as usize) } else { None };
    let poke = if g.d.chance(1, 2) {
      let p = match g.d.weighted(&[3, 1, 1, 1]) {
        1 => Poke::Unsub,
        2 => Poke::Sub,
        3 if h > 0 => Poke::Join(g.d.below(h) as usize),
        0 if h > 0 => {
          let ev = g.ev(1, 1);
          Poke::Emit(g.d.below(h) as usize, ev)
        }
        _ => Poke::Unsub,
      };
      Some((1 + g.d.below(8) as usize, p))
    } else {
      None
    };
    let mut c = g.done(n, s);
    c.emit_in = ein;
    c.nest = nest;
    c.unsub_in = uin;
    c.poke = poke;
    c
  });
  let mut o = base(&case);
  let m = model::run(&case, 0);
  if m.diverged {
    o.discard = true;
    return o;
  }
  let l = build::run(&case, true);
  o.nontrivial = !l.trace.is_empty() && (case.emit_in.is_some() || case.nest.is_some() || case.unsub_in.is_some() || case.poke.is_some());
  if let Some(t) = l.out.trouble() {
    if own_loop(&case, &m, &l) {
      o.discard = true;
    } else {
      o.fail(format!("{} after{}", t, show(&l.trace)));
    }
  }
  o
}
// ---- C14 -----------------------------------------------------------------------------------
pub fn c14() -> CaseOut {
  let case = tape::with(|d| {
    let c = Cfg { subject: false, ..Cfg::full() };
    let mut g = Gen::new(d, c);
    large(&mut g);
    let b = 1 + g.d.below(4) as i32;
    let n = g.node(b);
    let mut s = vec![Step::Sub];
    let mut e = g.emits(10);
    for _ in 0..1 + g.d.below(2) {
      let at = g.d.below(e.len() as u32 + 1) as usize;
      e.insert(at, Step::Sub);
    }
    if g.d.chance(1, 4) {
      let at = g.d.below(e.len() as u32 + 1) as usize;
      e.insert(at, Step::Unsub(0));
    }
    s.extend(e);
    // not with ready_set_go: its action would emit into the running callback's own source
    let nest = if g.d.chance(1, 5) && !node_has(&n, &|x| matches!(x, Node::Rsg(..))) {
      Some(1 + g.d.below(3) as usize)
    } else {
      None
    };
    let mut c = g.done(n, s);
    c.nest = nest;
    c
  });
  judge_trace(case, |m| m.trace.iter().any(|t| t.who == 1))
}
// ---- C17 -----------------------------------------------------------------------------------
pub fn c17() -> CaseOut {
  let case = tape::with(|d| {
    let c = Cfg { unmodelled: true, share: true, ..Cfg::full() };
    let mut g = Gen::new(d, c);
    let b = 1 + g.d.below(4) as i32;
    let n = g.node(b);
    let mut s = vec![Step::Sub];
    let mut e = g.emits(10);
    if g.d.chance(1, 2) {
      let at = g.d.below(e.len() as u32 + 1) as usize;
      e.insert(at, Step::Unsub(0));
    }
    s.extend(e);
    g.done(n, s)
  });
  let mut o = base(&case);
  let m = model::run(&case, 0);
  if m.diverged {
    o.discard = true;
    return o;
  }
  let l = build::run(&case, true);
  if let Some(t) = l.out.trouble() {
    if own_loop(&case, &m, &l) {
      o.discard = true;
    } else {
      o.fail(t);
    }
    return o;
  }
  o.nontrivial = true;
  o.label(match l.trace.iter().filter(|t| t.who == 0).last().map(|t| t.ev.clone()) {
    Some(Ev::C) => "end:complete",
    Some(Ev::E(_)) => "end:error",
    _ => "end:unsubscribe",
  });
  if l.leaked.iter().any(|x| *x != 0) {
    o.fail(format!(
      "still owned by the library after the end: {} items, {} closures, {} errors\n trace:{}",
      l.leaked[0],
      l.leaked[1],
      l.leaked[2],
      show(&l.trace)
    ));
  } else if l.held.iter().any(|x| *x != 0) {
    o.fail(format!(
      "still owned by the observers the sources got, after the end: {} items, {} closures, {} errors\n trace:{}",
      l.held[0],
      l.held[1],
      l.held[2],
      show(&l.trace)
    ));
  }
  o
}

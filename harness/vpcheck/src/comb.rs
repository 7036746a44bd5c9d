//! C11: combinators whose inputs emit on different threads.
use crate::engine::CaseOut;
use crate::par::U;
use crate::tape::{self, Draw};
use crate::th::*;
use crate::val::*;
use another_rxrust::prelude::*;
use vp_std::vprt;

#[derive(Clone, Copy, Debug, PartialEq)]
enum Kind {
  /// harness source, emitting on its own thread once everything is subscribed
  Hot,
  /// the same through a Subject
  Subject,
  /// spawns its emitting thread when subscribed
  Threaded,
  /// emits on the subscribing thread
  Sync,
  /// from_iter subscribed on a new thread
  SubOn,
  /// hot, observed on a new thread
  ObsOn,
  /// interval
  Interval,
}
impl Kind {
  fn cold(self) -> bool {
    !matches!(self, Kind::Hot | Kind::Subject | Kind::ObsOn)
  }
}
#[derive(Clone, Debug)]
enum T {
  In(usize),
  Merge(Vec<T>),
  Flat(Kind, Vec<T>),
  Concat(Vec<T>),
  Zip(Vec<T>),
  Amb(Vec<T>),
  ObserveOn(Box<T>),
  Map(Box<T>),
}
#[derive(Clone, Debug)]
struct Case {
  tree: T,
  take: Option<usize>,
  /// an operator with a memory below the combinator
  after: Option<U>,
  /// (kind, number of items, sleeps)
  ins: Vec<(Kind, usize, Vec<u64>)>,
}
struct G<'a> {
  d: &'a mut Draw,
  ins: Vec<(Kind, usize, Vec<u64>)>,
  max_in: usize,
  timed: bool,
}
impl G<'_> {
  fn leaf(&mut self, cold: bool) -> T {
    let k = if cold {
      *self.d.pick(&[Kind::Threaded, Kind::Sync, Kind::SubOn, Kind::Interval])
    } else {
      match self.d.weighted(&[6, 2, 2, 1, 1, 1, 1]) {
        0 => Kind::Hot,
        1 => Kind::Subject,
        2 => Kind::Threaded,
        3 => Kind::Sync,
        4 => Kind::SubOn,
        5 => Kind::ObsOn,
        _ => Kind::Interval,
      }
    };
    let n = self.d.below(4) as usize;
    let n = if k == Kind::Interval { n.max(1) } else { n };
    let n = if self.max_in > 2 && !self.timed && k != Kind::Interval { self.d.burst().unwrap_or(n) } else { n };
    let gaps = (0..=n).map(|_| if self.timed { self.d.below(3) as u64 } else { 0 }).collect();
    self.ins.push((k, n, gaps));
    T::In(self.ins.len() - 1)
  }
  fn node(&mut self, depth: usize, cold: bool) -> T {
    if depth == 0 || self.ins.len() >= self.max_in {
      return self.leaf(cold);
    }
    match self.d.weighted(&[6, 4, 3, 3, 3, 4, 1, 1]) {
      0 => T::Merge(self.kids(depth, |_| cold)),
      1 => {
        let k = if cold { *self.d.pick(&[Kind::Sync, Kind::Threaded]) } else { *self.d.pick(&[Kind::Hot, Kind::Sync, Kind::Threaded, Kind::Subject]) };
        T::Flat(k, self.kids(depth, |_| true))
      }
      2 => T::Concat(self.kids(depth, |i| cold || i > 0)),
      3 => T::Amb(self.kids(depth, |_| cold)),
      4 => {
        // deterministic columns only
        let n = 1 + self.d.below(3) as usize;
        let mut v = vec![];
        for _ in 0..=n {
          v.push(match self.d.below(4) {
            0 => T::ObserveOn(Box::new(self.leaf(cold))),
            1 => {
              let a = self.leaf(cold);
              T::Concat(vec![a, self.leaf(true)])
            }
            _ => self.leaf(cold),
          })
        }
        T::Zip(v)
      }
      5 => self.leaf(cold),
      6 => T::ObserveOn(Box::new(self.node(depth - 1, cold))),
      _ => T::Map(Box::new(self.node(depth - 1, cold))),
    }
  }
  fn kids(&mut self, depth: usize, cold: impl Fn(usize) -> bool) -> Vec<T> {
    let n = 1 + self.d.weighted(&[1, 8, 4, 2]);
    (0..n).map(|i| self.node(depth - 1, cold(i))).collect()
  }
}
fn gen(d: &mut Draw, depth: usize, max_in: usize) -> Case {
  let timed = d.chance(1, 3);
  let mut g = G { d, ins: vec![], max_in, timed };
  let mut tree = g.node(depth, false);
  if let T::In(_) = tree {
    tree = T::Merge(vec![tree, g.leaf(false)]);
  }
  let take = if g.d.chance(1, 3) { Some(1 + g.d.below(4) as usize) } else { None };
  let ins = g.ins;
  Case { tree, take, after: None, ins }
}
// ---- oracle --------------------------------------------------------------------------------
fn leaves(t: &T, out: &mut Vec<usize>) {
  match t {
    T::In(i) => out.push(*i),
    T::Merge(v) | T::Flat(_, v) | T::Concat(v) | T::Zip(v) | T::Amb(v) => v.iter().for_each(|x| leaves(x, out)),
    T::ObserveOn(a) | T::Map(a) => leaves(a, out),
  }
}
fn producer(v: &V) -> usize {
  match &v.k {
    K::L(l) => producer(&l[0]),
    _ => of(v.num()).0,
  }
}
/// the sequence a deterministic node delivers
fn det(c: &Case, t: &T) -> Option<Vec<V>> {
  match t {
    T::In(i) => Some((0..c.ins[*i].1).map(|n| item(*i, n)).collect()),
    T::Concat(v) => {
      let mut o = vec![];
      for x in v {
        o.extend(det(c, x)?)
      }
      Some(o)
    }
    T::ObserveOn(a) | T::Map(a) => det(c, a),
    _ => None,
  }
}
fn size(c: &Case, t: &T) -> Option<usize> {
  match t {
    T::In(i) => Some(c.ins[*i].1),
    T::Merge(v) | T::Flat(_, v) | T::Concat(v) => v.iter().map(|x| size(c, x)).sum(),
    T::Zip(v) => v.iter().map(|x| size(c, x)).min().unwrap(),
    T::Amb(_) => None,
    T::ObserveOn(a) | T::Map(a) => size(c, a),
  }
}
fn split(v: &[T], s: &[V]) -> Result<Vec<Vec<V>>, String> {
  let mut parts = vec![vec![]; v.len()];
  let ls: Vec<Vec<usize>> = v
    .iter()
    .map(|x| {
      let mut l = vec![];
      leaves(x, &mut l);
      l
    })
    .collect();
  for x in s {
    match ls.iter().position(|l| l.contains(&producer(x))) {
      Some(i) => parts[i].push(x.clone()),
      None => return Err(format!("{:?} comes from no input", x)),
    }
  }
  Ok(parts)
}
/// may `t` deliver `s` (and no more, unless `prefix`)?
fn accepts(c: &Case, t: &T, s: &[V], prefix: bool) -> Result<(), String> {
  match t {
    T::In(i) => {
      let want = det(c, t).unwrap();
      if s == &want[..] || (prefix && s.len() <= want.len() && s == &want[..s.len()]) {
        Ok(())
      } else {
        Err(format!("input {}: expected {:?} got {:?}", i, want, s))
      }
    }
    T::ObserveOn(a) | T::Map(a) => accepts(c, a, s, prefix),
    T::Merge(v) | T::Flat(_, v) => {
      for (x, p) in v.iter().zip(split(v, s)?) {
        accepts(c, x, &p, prefix)?
      }
      Ok(())
    }
    T::Concat(v) => {
      let parts = split(v, s)?;
      let flat: Vec<V> = parts.iter().flatten().cloned().collect();
      if flat != s {
        return Err(format!("concat: inputs out of order: {:?}", s));
      }
      let last = if prefix { parts.iter().rposition(|p| !p.is_empty()).unwrap_or(0) } else { usize::MAX };
      for (i, (x, p)) in v.iter().zip(parts.iter()).enumerate() {
        accepts(c, x, p, prefix && i >= last)?
      }
      Ok(())
    }
    T::Zip(v) => {
      let cols: Vec<Vec<V>> = v.iter().map(|x| det(c, x).unwrap()).collect();
      let n = cols.iter().map(|x| x.len()).min().unwrap();
      let mut want: Vec<V> = (0..n).map(|i| V::l(cols.iter().map(|x| x[i].clone()).collect())).collect();
      for x in s {
        match want.iter().position(|w| w == x) {
          Some(i) => {
            want.remove(i);
          }
          None => return Err(format!("zip: {:?} is no (further) tuple of i-th items", x)),
        }
      }
      if !prefix && !want.is_empty() {
        return Err(format!("zip: tuples {:?} missing", want));
      }
      Ok(())
    }
    T::Amb(v) => {
      let parts = split(v, s)?;
      let some: Vec<usize> = (0..v.len()).filter(|i| !parts[*i].is_empty()).collect();
      if some.len() > 1 {
        return Err(format!("amb: several inputs came through: {:?}", s));
      }
      let tries: Vec<usize> = if some.is_empty() { (0..v.len()).collect() } else { some };
      let mut e = String::new();
      for i in tries {
        match accepts(c, &v[i], &parts[i], prefix) {
          Ok(()) => return Ok(()),
          Err(m) => e = m,
        }
      }
      Err(format!("amb: no input delivers {:?} ({})", s, e))
    }
  }
}
// ---- run -----------------------------------------------------------------------------------
type Obl = Observable<'static, V>;
struct B {
  c: Case,
  hots: Vec<Option<Src>>,
  sbjs: Vec<Option<subjects::Subject<'static, V>>>,
  outers: Sh<Vec<(Option<Src>, Option<subjects::Subject<'static, V>>, usize)>>,
}
fn gap(ms: u64) {
  if ms > 0 {
    vprt::sleep_ns(ms * MS)
  }
}
impl B {
  fn cold(&self, kind: Kind, p: usize, n: usize, gaps: Vec<u64>, f: fn(usize, usize) -> V) -> Obl {
    match kind {
      Kind::SubOn => {
        observables::from_iter((0..n).map(|i| f(p, i)).collect::<Vec<V>>().into_iter()).subscribe_on(schedulers::new_thread_scheduler())
      }
      Kind::Interval => observables::interval(std_duration(1 + gaps[0]), schedulers::new_thread_scheduler())
        .take(n)
        .map(move |x| f(p, x as usize)),
      _ => {
        let sync = kind == Kind::Sync;
        Observable::create(move |s: Observer<'static, V>| {
          let gaps = gaps.clone();
          let body = move || {
            for i in 0..n {
              gap(gaps[i]);
              if !s.is_subscribed() {
                return;
              }
              s.next(f(p, i));
            }
            gap(gaps[n]);
            s.complete();
          };
          if sync {
            body()
          } else {
            spawn(body);
          }
        })
      }
    }
  }
  fn build(&self, t: &T) -> Obl {
    match t {
      T::In(i) => {
        let (k, n, gaps) = self.c.ins[*i].clone();
        match k {
          Kind::Hot => self.hots[*i].as_ref().unwrap().observable(),
          Kind::ObsOn => {
            self.hots[*i].as_ref().unwrap().observable().observe_on(schedulers::new_thread_scheduler())
          }
          Kind::Subject => self.sbjs[*i].as_ref().unwrap().observable(),
          _ => self.cold(k, *i, n, gaps, item),
        }
      }
      T::Merge(v) | T::Concat(v) | T::Amb(v) | T::Zip(v) => {
        let mut k: Vec<Obl> = v.iter().map(|x| self.build(x)).collect();
        let rest = k.split_off(1);
        let a = k.pop().unwrap();
        match t {
          T::Merge(_) => a.merge(&rest),
          T::Concat(_) => a.concat(&rest),
          T::Amb(_) => a.amb(&rest),
          _ => a.zip(&rest).map(V::l),
        }
      }
      T::Flat(kind, v) => {
        let inner: Vec<Obl> = v.iter().map(|x| self.build(x)).collect();
        let n = inner.len();
        let outer = match kind {
          Kind::Hot => {
            let s = Src::new();
            self.outers.with(|o| o.push((Some(s.clone()), None, n)));
            s.observable()
          }
          Kind::Subject => {
            let s = subjects::Subject::new();
            self.outers.with(|o| o.push((None, Some(s.clone()), n)));
            s.observable()
          }
          _ => self.cold(*kind, 0, n, vec![0; n + 1], |_, i| V::i(i as i64)),
        };
        outer.flat_map(move |i: V| inner[i.num() as usize].clone())
      }
      T::ObserveOn(a) => self.build(a).observe_on(schedulers::new_thread_scheduler()),
      T::Map(a) => self.build(a).map(|x| x),
    }
  }
}
fn scenario(c: Case) -> CaseOut {
  let mut o = case_out(match c.after {
    None => format!("{:?} take={:?} inputs={:?}", c.tree, c.take, c.ins),
    Some(u) => format!("{:?} then {:?} inputs={:?}", c.tree, u, c.ins),
  });
  let rec = Recorder::new();
  let (c2, r2) = (c.clone(), rec.clone());
  let still: Sh<bool> = Sh::new(true);
  let st = still.clone();
  let out = run_sched(vprt::Config::default(), o.key, move || {
    let c = c2;
    let b = B {
      hots: c.ins.iter().map(|i| if matches!(i.0, Kind::Hot | Kind::ObsOn) { Some(Src::new()) } else { None }).collect(),
      sbjs: c.ins.iter().map(|i| if i.0 == Kind::Subject { Some(subjects::Subject::new()) } else { None }).collect(),
      outers: Sh::new(vec![]),
      c: c.clone(),
    };
    let mut ob = b.build(&c.tree);
    if let Some(k) = c.take {
      ob = ob.take(k);
    }
    if let Some(u) = &c.after {
      ob = crate::par::apply(u, ob);
    }
    let sb = r2.subscribe(&ob);
    let mut ths = vec![];
    for (i, (k, n, gaps)) in c.ins.iter().enumerate() {
      if k.cold() {
        continue;
      }
      let (h, s) = (b.hots[i].clone(), b.sbjs[i].clone());
      let (n, gaps) = (*n, gaps.clone());
      ths.push(spawn(move || {
        for j in 0..=n {
          gap(gaps[j]);
          let ev = if j < n { Ev::N(item(i, j)) } else { Ev::C };
          match (&h, &s) {
            (Some(h), _) => h.emit(&ev),
            (_, Some(s)) => match ev {
              Ev::N(v) => s.next(v),
              _ => s.complete(),
            },
            _ => {}
          }
        }
      }));
    }
    for (h, s, n) in b.outers.get() {
      ths.push(spawn(move || {
        for j in 0..=n {
          let ev = if j < n { Ev::N(V::i(j as i64)) } else { Ev::C };
          match (&h, &s) {
            (Some(h), _) => h.emit(&ev),
            (_, Some(s)) => match ev {
              Ev::N(v) => s.next(v),
              _ => s.complete(),
            },
            _ => {}
          }
        }
      }));
    }
    join_all(ths);
    vprt::settle();
    vprt::sleep_ns(100 * MS);
    vprt::settle();
    st.set(sb.is_subscribed());
    sb.unsubscribe();
    for h in b.hots.iter().flatten() {
      h.clear()
    }
    for h in b.outers.get() {
      if let Some(h) = h.0 {
        h.clear()
      }
    }
  });
  if let Some(t) = out.trouble() {
    o.fail(t);
    return o;
  }
  let cbs = rec.cbs();
  let items: Vec<V> = cbs
    .iter()
    .filter_map(|x| match &x.ev {
      Ev::N(v) => Some(v.clone()),
      _ => None,
    })
    .collect();
  let show = || format!("\n got:{}", show_cbs(&cbs));
  let terms: Vec<&Cb> = cbs.iter().filter(|x| x.ev.terminal()).collect();
  if terms.len() != 1 || terms[0].ev != Ev::C {
    o.fail(format!("expected exactly one complete, got {:?}{}", terms.iter().map(|t| &t.ev).collect::<Vec<_>>(), show()));
  }
  if still.get() {
    o.fail(format!("is_subscribed() after the end{}", show()));
  }
  if let Some(m) = contract(&cbs) {
    o.fail(m);
  }
  if c.take.is_none() {
    if let Some(t) = terms.first() {
      if cbs.iter().any(|x| !x.ev.terminal() && x.end > t.start) {
        o.fail(format!("complete before the last item{}", show()));
      }
    }
  }
  if let Some(u) = &c.after {
    if let Some(m) = after(u, &c, &items) {
      o.fail(format!("{:?}: {}{}", u, m, show()));
    }
    o.label(format!("then {}", format!("{:?}", u).split('(').next().unwrap()));
  }
  match c.take {
    _ if c.after.is_some() => {}
    None => {
      if let Err(m) = accepts(&c, &c.tree, &items, false) {
        o.fail(format!("{}{}", m, show()));
      }
    }
    Some(k) => {
      if items.len() > k {
        o.fail(format!("take({}) delivered {} items{}", k, items.len(), show()));
      }
      if let Err(m) = accepts(&c, &c.tree, &items, items.len() == k) {
        o.fail(format!("take({}): {}{}", k, m, show()));
      }
      if let Some(n) = size(&c, &c.tree) {
        if items.len() != n.min(k) {
          o.fail(format!("take({}) of {} items delivered {}{}", k, n, items.len(), show()));
        }
      }
      o.label("with take");
    }
  }
  let tids: std::collections::BTreeSet<usize> = cbs.iter().map(|c| c.tid).collect();
  o.nontrivial = out.switches > 2 && tids.len() > 1;
  let mut names = vec![];
  fn ops(t: &T, n: &mut Vec<&'static str>) {
    match t {
      T::In(_) => {}
      T::Merge(v) => {
        n.push("merge");
        v.iter().for_each(|x| ops(x, n))
      }
      T::Flat(_, v) => {
        n.push("flat_map");
        v.iter().for_each(|x| ops(x, n))
      }
      T::Concat(v) => {
        n.push("concat");
        v.iter().for_each(|x| ops(x, n))
      }
      T::Zip(v) => {
        n.push("zip");
        v.iter().for_each(|x| ops(x, n))
      }
      T::Amb(v) => {
        n.push("amb");
        v.iter().for_each(|x| ops(x, n))
      }
      T::ObserveOn(a) | T::Map(a) => ops(a, n),
    }
  }
  ops(&c.tree, &mut names);
  names.sort();
  names.dedup();
  for n in names {
    o.label(n);
  }
  o
}
pub fn flat() -> CaseOut {
  let c = tape::with(|d| gen(d, 1, 4));
  scenario(c)
}
pub fn nested() -> CaseOut {
  let c = tape::with(|d| gen(d, 3, 5));
  scenario(c)
}
/// what an operator with a memory may make of all items of all inputs, in whatever order
fn after(u: &U, c: &Case, got: &[V]) -> Option<String> {
  let mut all: Vec<i64> = vec![];
  for (i, x) in c.ins.iter().enumerate() {
    all.extend((0..x.1).map(|j| item(i, j).num()));
  }
  all.sort();
  let (n, total) = (all.len(), all.iter().sum::<i64>());
  let sorted = |v: &[V]| {
    let mut v: Vec<i64> = v.iter().map(|x| x.num()).collect();
    v.sort();
    v
  };
  let exactly = |want: Vec<V>| {
    if got == &want[..] {
      None
    } else {
      Some(format!("expected {:?}", want))
    }
  };
  // so many of the items, each at most once
  let some = |k: usize| {
    let g = sorted(got);
    if g.len() != k {
      return Some(format!("expected {} items", k));
    }
    if g.windows(2).any(|w| w[0] == w[1]) || g.iter().any(|x| !all.contains(x)) {
      return Some("an item twice, or one that no input emitted".to_string());
    }
    None
  };
  let if_any = |v: V| if n > 0 { vec![v] } else { vec![] };
  match u {
    U::Skip(k) | U::SkipLast(k) => some(n.saturating_sub(*k)),
    U::Take(k) | U::TakeLast(k) => some(n.min(*k)),
    U::First | U::Last => some(n.min(1)),
    U::ElementAt(k) => some((n >= *k) as usize),
    U::StartWith => {
      if got.len() != n + 2 || sorted(&got[..2]) != vec![item(43, 0).num(), item(43, 1).num()] || sorted(&got[2..]) != all {
        return Some("expected the two values and then every item".into());
      }
      None
    }
    U::Scan => {
      if got.len() != n || (n > 0 && !got.iter().any(|x| x.num() == total)) {
        return Some(format!("expected {} results, {} among them", n, total));
      }
      None
    }
    U::Reduce | U::Sum => exactly(if_any(V::i(total))),
    U::Count => exactly(vec![V::i(n as i64)]),
    U::SumAndCount => exactly(if_any(V::new(K::P(Box::new(V::i(total)), n)))),
    U::Min => exactly(if_any(V::i(*all.first().unwrap_or(&0)))),
    U::Max => exactly(if_any(V::i(*all.last().unwrap_or(&0)))),
    U::Contains => exactly(vec![V::b(all.contains(&item(0, 1).num()))]),
    U::DefaultIfEmpty if n == 0 => exactly(vec![item(44, 0)]),
    U::IgnoreElements => exactly(vec![]),
    U::Buffer(k) => {
      let mut flat = vec![];
      let mut short = 0;
      for b in got {
        if let K::L(v) = &b.k {
          short += (v.len() != *k) as usize;
          flat.extend(v.iter().cloned());
        }
      }
      if sorted(&flat) != all || short > 1 {
        return Some(format!("expected every item once, in buffers of {}", k));
      }
      None
    }
    _ => {
      if sorted(got) != all {
        return Some("expected every item once".into());
      }
      None
    }
  }
}
/// merge or flat_map of threads, an operator with a memory below it
pub fn downstream() -> CaseOut {
  let c = tape::with(|d| {
    let timed = d.chance(1, 3);
    let mut g = G { d, ins: vec![], max_in: 4, timed };
    let n = 2 + g.d.weighted(&[4, 2]);
    let flat = g.d.chance(1, 3);
    let v: Vec<T> = (0..n).map(|_| g.leaf(flat)).collect();
    let ins = g.ins;
    let tree = if flat { T::Flat(Kind::Hot, v) } else { T::Merge(v) };
    let k = d.below(3) as usize;
    let after = *d.pick(&[
      U::Scan,
      U::Reduce,
      U::Count,
      U::Sum,
      U::SumAndCount,
      U::Min,
      U::Max,
      U::Contains,
      U::DefaultIfEmpty,
      U::IgnoreElements,
      U::StartWith,
      U::Buffer(k + 1),
      U::Skip(k),
      U::SkipLast(k),
      U::Take(k + 1),
      U::TakeLast(k),
      U::First,
      U::Last,
      U::ElementAt(k + 1),
      U::Tap,
      U::MatDemat,
      U::ToAny,
      U::ObserveOn,
      U::Distinct,
    ]);
    Case { tree, take: None, after: Some(after), ins }
  });
  scenario(c)
}
/// two inputs, one or two items; all schedules with few preemptions
pub fn small() -> CaseOut {
  let c = tape::with(|d| {
    let n = 2 + (d.below(4) == 3) as usize;
    let mut c = Case { tree: T::In(0), take: None, after: None, ins: vec![] };
    let op = d.below(5);
    for i in 0..n {
      let k = match op {
        1 => Kind::Threaded,
        2 if i > 0 => Kind::Threaded,
        _ => Kind::Hot,
      };
      let m = d.below(3) as usize;
      c.ins.push((k, m, vec![0; m + 1]));
    }
    let v: Vec<T> = (0..n).map(T::In).collect();
    c.tree = match op {
      0 => T::Merge(v),
      1 => T::Flat(Kind::Hot, v),
      2 => T::Concat(v),
      3 => T::Amb(v),
      _ => T::Zip(v),
    };
    if d.chance(1, 3) {
      c.take = Some(1 + d.below(2) as usize)
    }
    c
  });
  scenario(c)
}

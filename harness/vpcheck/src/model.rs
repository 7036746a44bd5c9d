//! Reference interpreter: the ReactiveX meaning of a pipeline, single-threaded, no shared code
//! with the library.
use crate::ast::*;
use crate::val::*;
use std::cell::{Cell, RefCell};
use std::collections::VecDeque;
use std::rc::Rc;

type NextF = Rc<dyn Fn(V)>;
type ErrF = Rc<dyn Fn(Er)>;
type CompF = Rc<dyn Fn()>;

thread_local!(static DEPTH: Cell<u32> = const { Cell::new(0) });
/// the handling of an event, while it lasts
struct Deep;
impl Deep {
  fn enter() -> Deep {
    DEPTH.with(|d| d.set(d.get() + 1));
    Deep
  }
  fn any() -> bool {
    DEPTH.with(|d| d.get() > 0)
  }
}
impl Drop for Deep {
  fn drop(&mut self) {
    DEPTH.with(|d| d.set(d.get() - 1))
  }
}
pub struct Obs {
  closed: Cell<bool>,
  f: RefCell<Option<(NextF, ErrF, CompF)>>,
  td: RefCell<Vec<Box<dyn FnOnce()>>>,
}
pub type Ob = Rc<Obs>;
impl Obs {
  fn new(n: impl Fn(V) + 'static, e: impl Fn(Er) + 'static, c: impl Fn() + 'static) -> Ob {
    Rc::new(Obs {
      closed: Cell::new(false),
      f: RefCell::new(Some((Rc::new(n), Rc::new(e), Rc::new(c)))),
      td: RefCell::new(vec![]),
    })
  }
  pub fn open(&self) -> bool {
    !self.closed.get()
  }
  fn next(&self, v: V) {
    if self.open() {
      let f = self.f.borrow().as_ref().map(|f| f.0.clone());
      if let Some(f) = f {
        let _d = Deep::enter();
        f(v)
      }
    }
  }
  fn error(&self, e: Er) {
    if !self.closed.replace(true) {
      let f = self.f.borrow_mut().take();
      if let Some(f) = f {
        (f.1)(e)
      }
      self.teardown();
    }
  }
  fn complete(&self) {
    if !self.closed.replace(true) {
      let f = self.f.borrow_mut().take();
      if let Some(f) = f {
        (f.2)()
      }
      self.teardown();
    }
  }
  pub fn unsub(&self) {
    if !self.closed.replace(true) {
      let f = self.f.borrow_mut().take();
      drop(f);
    }
    // also when a terminal is being handled right now: what is upstream of it is over
    self.teardown();
  }
  fn teardown(&self) {
    loop {
      let t = self.td.borrow_mut().pop();
      match t {
        Some(t) => t(),
        None => break,
      }
    }
  }
  fn add(&self, f: impl FnOnce() + 'static) {
    if self.open() {
      self.td.borrow_mut().push(Box::new(f));
    } else {
      f();
    }
  }
}

pub type Src = Rc<dyn Fn(Ob)>;

#[derive(Clone, Debug, PartialEq)]
pub struct Rec {
  /// (0, hot index) or (1, cold index)
  pub src: (u8, usize),
  pub k: usize,
}
#[derive(Clone, Debug, PartialEq)]
pub struct Tr {
  pub step: usize,
  /// subscriber index, or 1000 + tap index
  pub who: usize,
  pub ev: Ev,
}
pub struct St {
  pub step: usize,
  pub trace: Vec<Tr>,
  pub hot_obs: Vec<Vec<(usize, Ob)>>,
  pub hot_n: Vec<usize>,
  pub cold_n: Vec<usize>,
  /// emissions made per (cold, subscription)
  pub cold_emits: Vec<Vec<u32>>,
  pub recs: Vec<(Rec, Ob)>,
  pub subs: Vec<Ob>,
  pub hot_live: Vec<(usize, usize, usize, bool)>,
  ticks: u32,
  retries: u32,
  pub diverged: bool,
  pub reent: bool,
}
#[derive(Clone)]
pub struct Cx {
  pub s: Rc<RefCell<St>>,
  pub case: Rc<Case>,
  pub dial: u32,
  ticks: u32,
  events: usize,
}
/// dialects: places where the documents leave two readings open
pub const D_CONTAINS: u32 = 1;

impl Cx {
  pub fn new(case: &Case, dial: u32) -> Cx {
    let (h, c) = (case.hots.len(), case.colds.len());
    Cx {
      s: Rc::new(RefCell::new(St {
        step: 0,
        trace: vec![],
        hot_obs: vec![vec![]; h],
        hot_n: vec![0; h],
        cold_n: vec![0; c],
        cold_emits: vec![vec![]; c],
        recs: vec![],
        subs: vec![],
        hot_live: vec![],
        ticks: 0,
        retries: 0,
        diverged: false,
        reent: false,
      })),
      case: Rc::new(case.clone()),
      dial,
      ticks: if case.long { 300_000 } else { 700 },
      events: if case.long { 300_000 } else { 5000 },
    }
  }
  /// false when the case does not end
  fn tick(&self) -> bool {
    let mut s = self.s.borrow_mut();
    s.ticks += 1;
    if s.ticks > self.ticks {
      s.diverged = true;
    }
    !s.diverged
  }
  fn log(&self, who: usize, ev: Ev) {
    let mut s = self.s.borrow_mut();
    let step = s.step;
    if s.trace.len() > self.events {
      s.diverged = true;
    } else {
      s.trace.push(Tr { step, who, ev });
    }
  }
  pub fn emit(&self, h: usize, ev: &Ev) {
    if Deep::any() {
      self.s.borrow_mut().reent = true;
    }
    let _d = Deep::enter();
    let snap: Vec<(usize, Ob)> = self.s.borrow().hot_obs[h].clone();
    for (k, o) in snap {
      if !self.tick() {
        return;
      }
      let step = self.s.borrow().step;
      let live = o.open();
      self.s.borrow_mut().hot_live.push((step, h, k, live));
      match ev {
        Ev::N(v) => o.next(v.clone()),
        Ev::E(e) => o.error(e.clone()),
        Ev::C => o.complete(),
      }
    }
  }
}

/// observer of an upstream of `down`, closed together with it
fn up(down: &Ob, n: impl Fn(V) + 'static, e: impl Fn(Er) + 'static, c: impl Fn() + 'static) -> Ob {
  let o = Obs::new(n, e, c);
  let o2 = o.clone();
  down.add(move || o2.unsub());
  o
}
fn go(src: &Src, o: Ob) {
  if o.open() {
    src(o)
  }
}
fn errs(d: &Ob) -> impl Fn(Er) + 'static {
  let d = d.clone();
  move |e| d.error(e)
}
fn comps(d: &Ob) -> impl Fn() + 'static {
  let d = d.clone();
  move || d.complete()
}

/// a multicast subject for windows and groups
#[derive(Clone)]
struct Subj(Rc<RefCell<Vec<Ob>>>);
impl Subj {
  fn new() -> Subj {
    Subj(Rc::new(RefCell::new(vec![])))
  }
  fn src(&self) -> Src {
    let s = self.clone();
    Rc::new(move |o| s.0.borrow_mut().push(o))
  }
  fn next(&self, v: V) {
    let l = self.0.borrow().clone();
    for o in l {
      o.next(v.clone())
    }
  }
  fn error(&self, e: Er) {
    let l = std::mem::take(&mut *self.0.borrow_mut());
    for o in l {
      o.error(e.clone())
    }
  }
  fn complete(&self) {
    let l = std::mem::take(&mut *self.0.borrow_mut());
    for o in l {
      o.complete()
    }
  }
}

/// bookkeeping of flattening operators
struct Flat {
  down: Ob,
  active: Cell<usize>,
}
impl Flat {
  fn new(down: &Ob) -> Rc<Flat> {
    Rc::new(Flat { down: down.clone(), active: Cell::new(1) })
  }
  fn done(&self) {
    self.active.set(self.active.get() - 1);
    if self.active.get() == 0 {
      self.down.complete()
    }
  }
  fn inner(self: &Rc<Self>, src: &Src) {
    self.active.set(self.active.get() + 1);
    let (d, f) = (self.down.clone(), self.clone());
    let o = up(&self.down, move |v| d.next(v), errs(&self.down), move || f.done());
    go(src, o);
  }
}

pub fn comp(cx: &Cx, n: &Node) -> Src {
  let cx = cx.clone();
  match n {
    Node::Hot(h) => {
      let h = *h;
      Rc::new(move |o| {
        let mut s = cx.s.borrow_mut();
        let k = s.hot_n[h];
        s.hot_n[h] += 1;
        s.hot_obs[h].push((k, o.clone()));
        s.recs.push((Rec { src: (0, h), k }, o));
      })
    }
    Node::Cold(c) => {
      let c = *c;
      Rc::new(move |o| {
        let (k, sc) = {
          let mut s = cx.s.borrow_mut();
          let k = s.cold_n[c];
          s.cold_n[c] += 1;
          s.cold_emits[c].push(0);
          s.recs.push((Rec { src: (1, c), k }, o.clone()));
          let a = &cx.case.colds[c].attempts;
          (k, a[k.min(a.len() - 1)].clone())
        };
        for e in sc {
          if !cx.tick() {
            return;
          }
          if !o.open() && !cx.case.colds[c].rude {
            break;
          }
          cx.s.borrow_mut().cold_emits[c][k] += 1;
          match e {
            Ev::N(v) => o.next(v),
            Ev::E(e) => o.error(e),
            Ev::C => o.complete(),
          }
        }
      })
    }
    Node::Just(x) | Node::Start(x) | Node::FromRes(Ok(x)) => {
      let x = *x;
      Rc::new(move |o| {
        o.next(V::i(x));
        o.complete()
      })
    }
    Node::Iter(v) => {
      let v = v.clone();
      Rc::new(move |o| {
        for x in &v {
          o.next(V::i(*x))
        }
        o.complete()
      })
    }
    Node::Range(a, b) => {
      let (a, b) = (*a, *b);
      Rc::new(move |o| {
        for x in 0..b {
          if !o.open() || (b == LONG && !cx.tick()) {
            break;
          }
          o.next(V::i(a + x))
        }
        o.complete()
      })
    }
    Node::Empty => Rc::new(|o| o.complete()),
    Node::Never => Rc::new(|_| {}),
    Node::Err(e) | Node::FromRes(Err(e)) => {
      let e = e.clone();
      Rc::new(move |o| o.error(e.clone()))
    }
    Node::Repeat(x) => {
      let x = *x;
      Rc::new(move |o| {
        while o.open() && cx.tick() {
          o.next(V::i(x))
        }
      })
    }
    Node::Endless => Rc::new(move |o| {
      let mut i = 0;
      while o.open() && cx.tick() {
        o.next(V::i(i));
        i += 1
      }
    }),
    Node::Defer(a) => comp(&cx, a),
    Node::Share(_, a) => comp(&cx, a),
    Node::Un(op, a) => apply(&cx, op, comp(&cx, a)),
    Node::Rsg(a, acts) => {
      let a = comp(&cx, a);
      let acts = acts.clone();
      Rc::new(move |o| {
        go(&a, o);
        for (h, e) in &acts {
          cx.emit(*h, e)
        }
      })
    }
    Node::Multi(op, v) => multi(&cx, *op, v.iter().map(|x| comp(&cx, x)).collect()),
    Node::Trig(op, a, b) => trig(&cx, *op, comp(&cx, a), comp(&cx, b)),
    Node::FlatMap(a, t) => {
      let a = comp(&cx, a);
      let t: Vec<Src> = t.iter().map(|x| comp(&cx, x)).collect();
      Rc::new(move |d| {
        let fl = Flat::new(&d);
        let (fl2, t) = (fl.clone(), t.clone());
        let o = up(
          &d,
          move |v| fl.inner(&t[v.num().rem_euclid(t.len() as i64) as usize]),
          errs(&d),
          move || fl2.done(),
        );
        go(&a, o)
      })
    }
    Node::Resume(a, t) => {
      let a = comp(&cx, a);
      let t: Vec<Src> = t.iter().map(|x| comp(&cx, x)).collect();
      Rc::new(move |d| {
        let (d1, d2, t) = (d.clone(), d.clone(), t.clone());
        let me: Rc<RefCell<Option<Ob>>> = Rc::new(RefCell::new(None));
        let me2 = me.clone();
        let o = up(
          &d,
          move |v| d1.next(v),
          move |e| {
            let m = me2.borrow_mut().take();
            if let Some(m) = m {
              m.teardown()
            }
            let d3 = d2.clone();
            let o = up(&d2, move |v| d3.next(v), errs(&d2), comps(&d2));
            go(&t[e.code.rem_euclid(t.len() as i64) as usize], o)
          },
          comps(&d),
        );
        *me.borrow_mut() = Some(o.clone());
        let me3 = me.clone();
        d.add(move || {
          me3.borrow_mut().take();
        });
        go(&a, o)
      })
    }
    Node::TmSrc(_) | Node::Tm(..) => unreachable!("not modelled"),
    Node::Retry(n, a) => {
      let n = *n;
      let a = comp(&cx, a);
      Rc::new(move |d| attempt(&cx, &a, &d, 1, Rc::new(move |k, _| n == 0 || k < n)))
    }
    Node::RetryWhen(p, a) => {
      let p = *p;
      let a = comp(&cx, a);
      Rc::new(move |d| attempt(&cx, &a, &d, 1, Rc::new(move |_, e| pred_e(p, e.code))))
    }
    Node::Window(n, a, chain) => {
      let (n, a, chain) = (*n, comp(&cx, a), chain.clone());
      Rc::new(move |d| {
        let fl = Flat::new(&d);
        let cur: Rc<RefCell<Option<(Subj, usize)>>> = Rc::new(RefCell::new(None));
        let (c1, c2, c3) = (cur.clone(), cur.clone(), cur);
        let (fl2, cx, chain, d2) = (fl.clone(), cx.clone(), chain.clone(), d.clone());
        let o = up(
          &d,
          move |v| {
            let w = c1.borrow().as_ref().map(|w| w.0.clone());
            let w = match w {
              Some(w) => w,
              None => {
                let w = Subj::new();
                *c1.borrow_mut() = Some((w.clone(), 0));
                fl.inner(&chain_src(&cx, &chain, w.src()));
                w
              }
            };
            w.next(v);
            let full = {
              let mut c = c1.borrow_mut();
              match &mut *c {
                Some((_, k)) => {
                  *k += 1;
                  *k == n
                }
                None => false,
              }
            };
            if full {
              *c1.borrow_mut() = None;
              w.complete();
            }
          },
          move |e| {
            let w = c2.borrow_mut().take();
            if let Some((w, _)) = w {
              w.error(e.clone())
            }
            d2.error(e)
          },
          move || {
            let w = c3.borrow_mut().take();
            if let Some((w, _)) = w {
              w.complete()
            }
            fl2.done()
          },
        );
        go(&a, o)
      })
    }
    Node::GroupBy(kf, a, chain) => {
      let (kf, a, chain) = (*kf, comp(&cx, a), chain.clone());
      Rc::new(move |d| {
        let fl = Flat::new(&d);
        let gs: Rc<RefCell<Vec<(i64, Subj)>>> = Rc::new(RefCell::new(vec![]));
        let (g1, g2, g3) = (gs.clone(), gs.clone(), gs);
        let (fl2, cx, chain, d2) = (fl.clone(), cx.clone(), chain.clone(), d.clone());
        let o = up(
          &d,
          move |v| {
            let k = key(kf, &v);
            let g = g1.borrow().iter().find(|g| g.0 == k).map(|g| g.1.clone());
            let g = match g {
              Some(g) => g,
              None => {
                let g = Subj::new();
                g1.borrow_mut().push((k, g.clone()));
                fl.inner(&chain_src(&cx, &chain, g.src()));
                g
              }
            };
            g.next(v)
          },
          move |e| {
            let l = std::mem::take(&mut *g2.borrow_mut());
            for (_, g) in l {
              g.error(e.clone())
            }
            d2.error(e)
          },
          move || {
            let l = std::mem::take(&mut *g3.borrow_mut());
            for (_, g) in l {
              g.complete()
            }
            fl2.done()
          },
        );
        go(&a, o)
      })
    }
  }
}

fn attempt(cx: &Cx, a: &Src, d: &Ob, k: usize, again: Rc<dyn Fn(usize, &Er) -> bool>) {
  let (cx2, a2, d2, d1) = (cx.clone(), a.clone(), d.clone(), d.clone());
  let me: Rc<RefCell<Option<Ob>>> = Rc::new(RefCell::new(None));
  let me2 = me.clone();
  let o = up(
    d,
    move |v| d1.next(v),
    move |e| {
      if again(k, &e) {
        let m = me2.borrow_mut().take();
        if let Some(m) = m {
          m.teardown()
        }
        let over = {
          let mut s = cx2.s.borrow_mut();
          s.retries += 1;
          if s.retries > 40 {
            s.diverged = true
          }
          s.diverged
        };
        if !over {
          attempt(&cx2, &a2, &d2, k + 1, again.clone())
        }
      } else {
        d2.error(e)
      }
    },
    comps(d),
  );
  *me.borrow_mut() = Some(o.clone());
  let me3 = me.clone();
  d.add(move || {
    me3.borrow_mut().take();
  });
  go(a, o)
}

fn chain_src(cx: &Cx, chain: &[Op], s: Src) -> Src {
  let mut s = s;
  for op in chain {
    s = apply(cx, op, s)
  }
  s
}

fn apply(cx: &Cx, op: &Op, a: Src) -> Src {
  let cx = cx.clone();
  let op = op.clone();
  Rc::new(move |d: Ob| {
    let dn = d.clone();
    let nx = move |v: V| dn.next(v);
    let d2 = d.clone();
    let d3 = d.clone();
    // operators that keep an optional value and emit it at the end
    let folded = |f: Box<dyn Fn(Option<V>, V) -> V>| {
      let acc: Rc<RefCell<Option<V>>> = Rc::new(RefCell::new(None));
      let acc2 = acc.clone();
      let d2 = d.clone();
      let o = up(
        &d,
        move |v| {
          let old = acc.borrow_mut().take();
          *acc.borrow_mut() = Some(f(old, v));
        },
        errs(&d),
        move || {
          let r = acc2.borrow_mut().take();
          if let Some(v) = r {
            d2.next(v)
          }
          d2.complete()
        },
      );
      go(&a, o)
    };
    match op.clone() {
      Op::Map(f) => go(&a, up(&d, move |v| nx(f1(f, v)), errs(&d), comps(&d))),
      Op::Filter(p) => go(
        &a,
        up(
          &d,
          move |v| {
            if pred(p, &v) {
              nx(v)
            }
          },
          errs(&d),
          comps(&d),
        ),
      ),
      Op::Take(_) | Op::First | Op::ElementAt(_) => {
        // element_at(n): skip n-1, take one, complete at the n-th item
        let (skip, n) = match op {
          Op::Take(n) => (0, n),
          Op::First => (0, 1),
          Op::ElementAt(0) => (0, 0),
          Op::ElementAt(n) => (n - 1, 1),
          _ => unreachable!(),
        };
        if n == 0 {
          d.complete();
          return;
        }
        let c = Cell::new(0);
        go(
          &a,
          up(
            &d,
            move |v| {
              c.set(c.get() + 1);
              if c.get() <= skip {
                return;
              }
              let k = c.get() - skip;
              if k <= n {
                d2.next(v);
              }
              if k >= n {
                d2.complete()
              }
            },
            errs(&d),
            comps(&d),
          ),
        )
      }
      Op::Skip(n) => {
        let c = Cell::new(0);
        go(
          &a,
          up(
            &d,
            move |v| {
              c.set(c.get() + 1);
              if c.get() > n {
                nx(v)
              }
            },
            errs(&d),
            comps(&d),
          ),
        )
      }
      Op::TakeLast(_) | Op::Last => {
        let n = match op {
          Op::TakeLast(n) => n,
          _ => 1,
        };
        let q: Rc<RefCell<VecDeque<V>>> = Rc::new(RefCell::new(VecDeque::new()));
        let q2 = q.clone();
        go(
          &a,
          up(
            &d,
            move |v| {
              let mut q = q.borrow_mut();
              q.push_back(v);
              while q.len() > n {
                q.pop_front();
              }
            },
            errs(&d),
            move || {
              let q = std::mem::take(&mut *q2.borrow_mut());
              for v in q {
                d2.next(v)
              }
              d2.complete()
            },
          ),
        )
      }
      Op::SkipLast(n) => {
        let q: RefCell<VecDeque<V>> = RefCell::new(VecDeque::new());
        go(
          &a,
          up(
            &d,
            move |v| {
              q.borrow_mut().push_back(v);
              let out = if q.borrow().len() > n { q.borrow_mut().pop_front() } else { None };
              if let Some(v) = out {
                nx(v)
              }
            },
            errs(&d),
            comps(&d),
          ),
        )
      }
      Op::TakeWhile(p) => go(
        &a,
        up(
          &d,
          move |v| {
            if pred(p, &v) {
              d2.next(v)
            } else {
              d2.complete()
            }
          },
          errs(&d),
          comps(&d),
        ),
      ),
      Op::SkipWhile(p) => {
        let on = Cell::new(false);
        go(
          &a,
          up(
            &d,
            move |v| {
              if !on.get() && !pred(p, &v) {
                on.set(true)
              }
              if on.get() {
                nx(v)
              }
            },
            errs(&d),
            comps(&d),
          ),
        )
      }
      Op::Distinct => {
        let last: RefCell<Option<V>> = RefCell::new(None);
        go(
          &a,
          up(
            &d,
            move |v| {
              let new = last.borrow().as_ref() != Some(&v);
              if new {
                *last.borrow_mut() = Some(v.clone());
                nx(v)
              }
            },
            errs(&d),
            comps(&d),
          ),
        )
      }
      Op::Scan(f) => {
        let acc: RefCell<Option<V>> = RefCell::new(None);
        go(
          &a,
          up(
            &d,
            move |v| {
              let old = acc.borrow_mut().take();
              let new = match old {
                Some(o) => f2(f, o, v),
                None => v,
              };
              *acc.borrow_mut() = Some(new.clone());
              nx(new)
            },
            errs(&d),
            comps(&d),
          ),
        )
      }
      Op::Reduce(f) => folded(Box::new(move |o, v| match o {
        Some(o) => f2(f, o, v),
        None => v,
      })),
      Op::Sum => folded(Box::new(|o, v| match o {
        Some(o) => o + v,
        None => v,
      })),
      Op::Min => folded(Box::new(|o, v| match o {
        Some(o) => {
          if v < o {
            v
          } else {
            o
          }
        }
        None => v,
      })),
      Op::Max => folded(Box::new(|o, v| match o {
        Some(o) => {
          if v > o {
            v
          } else {
            o
          }
        }
        None => v,
      })),
      Op::SumAndCount => folded(Box::new(|o, v| match o {
        Some(V { k: K::P(s, n), .. }) => V::new(K::P(Box::new(*s + v), n + 1)),
        _ => V::new(K::P(Box::new(v), 1)),
      })),
      Op::Count => {
        let n = Rc::new(Cell::new(0));
        let n2 = n.clone();
        go(
          &a,
          up(
            &d,
            move |_| n.set(n.get() + 1),
            errs(&d),
            move || {
              d2.next(V::i(n2.get()));
              d2.complete()
            },
          ),
        )
      }
      Op::All(p) => go(
        &a,
        up(
          &d,
          move |v| {
            if !pred(p, &v) {
              d2.next(V::b(false));
              d2.complete()
            }
          },
          errs(&d),
          move || {
            d3.next(V::b(true));
            d3.complete()
          },
        ),
      ),
      Op::Contains(t) => {
        let d4 = d.clone();
        let dial = cx.dial;
        go(
          &a,
          up(
            &d,
            move |v| {
              if v == V::i(t) {
                d2.next(V::b(true));
                d2.complete()
              }
            },
            move |e| {
              if dial & D_CONTAINS != 0 {
                d4.error(e)
              } else {
                d4.next(V::b(false));
                d4.complete()
              }
            },
            move || {
              d3.next(V::b(false));
              d3.complete()
            },
          ),
        )
      }
      Op::DefaultIfEmpty(x) => {
        let any = Rc::new(Cell::new(false));
        let any2 = any.clone();
        go(
          &a,
          up(
            &d,
            move |v| {
              any.set(true);
              nx(v)
            },
            errs(&d),
            move || {
              if !any2.get() {
                d2.next(V::i(x))
              }
              d2.complete()
            },
          ),
        )
      }
      Op::IgnoreElements => go(&a, up(&d, |_| {}, errs(&d), comps(&d))),
      Op::StartWith(v) => {
        for x in v {
          d.next(V::i(x))
        }
        if d.open() {
          go(&a, up(&d, nx, errs(&d), comps(&d)))
        }
      }
      Op::Buffer(n) => {
        let b: Rc<RefCell<Vec<V>>> = Rc::new(RefCell::new(vec![]));
        let b2 = b.clone();
        go(
          &a,
          up(
            &d,
            move |v| {
              b.borrow_mut().push(v);
              if b.borrow().len() == n {
                let l = std::mem::take(&mut *b.borrow_mut());
                nx(V::l(l))
              }
            },
            errs(&d),
            move || {
              let l = std::mem::take(&mut *b2.borrow_mut());
              if !l.is_empty() {
                d2.next(V::l(l))
              }
              d2.complete()
            },
          ),
        )
      }
      Op::Mat => go(
        &a,
        up(
          &d,
          move |v| nx(V::new(K::MN(Box::new(v)))),
          move |e| {
            d2.next(V::new(K::ME(e)));
            d2.complete()
          },
          move || {
            d3.next(V::new(K::MC));
            d3.complete()
          },
        ),
      ),
      Op::Demat => go(
        &a,
        up(
          &d,
          move |v| match &v.k {
            K::MN(x) => d2.next((**x).clone()),
            K::ME(e) => d2.error(e.clone()),
            K::MC => d2.complete(),
            _ => d2.next(v),
          },
          errs(&d),
          comps(&d),
        ),
      ),
      Op::Tap(t) => {
        let (c1, c2, c3) = (cx.clone(), cx.clone(), cx.clone());
        go(
          &a,
          up(
            &d,
            move |v| {
              c1.log(1000 + t, Ev::N(v.clone()));
              nx(v)
            },
            move |e| {
              c2.log(1000 + t, Ev::E(e.clone()));
              d2.error(e)
            },
            move || {
              c3.log(1000 + t, Ev::C);
              d3.complete()
            },
          ),
        )
      }
      Op::MapToAny | Op::ObserveOnDefault | Op::SubscribeOnDefault | Op::Delay | Op::Timestamp => {
        go(&a, up(&d, nx, errs(&d), comps(&d)))
      }
      Op::TimeInterval => go(&a, up(&d, |_| {}, errs(&d), comps(&d))),
    }
  })
}

fn multi(_cx: &Cx, op: MOp, v: Vec<Src>) -> Src {
  match op {
    MOp::Merge => Rc::new(move |d| {
      let left = Rc::new(Cell::new(v.len()));
      let os: Vec<Ob> = v
        .iter()
        .map(|_| {
          let (d1, d2, left) = (d.clone(), d.clone(), left.clone());
          up(
            &d,
            move |x| d1.next(x),
            errs(&d),
            move || {
              left.set(left.get() - 1);
              if left.get() == 0 {
                d2.complete()
              }
            },
          )
        })
        .collect();
      for (s, o) in v.iter().zip(os) {
        go(s, o)
      }
    }),
    MOp::Concat => Rc::new(move |d| concat(Rc::new(v.clone()), 0, &d)),
    MOp::Amb => Rc::new(move |d| {
      let winner: Rc<Cell<Option<usize>>> = Rc::new(Cell::new(None));
      let me: Rc<RefCell<Vec<Ob>>> = Rc::new(RefCell::new(vec![]));
      let os: Vec<Ob> = (0..v.len())
        .map(|i| {
          let win = {
            let (w, me) = (winner.clone(), me.clone());
            // a loser is closed when it first tries to signal
            move || {
              if w.get().is_none() {
                w.set(Some(i))
              }
              if w.get() != Some(i) {
                let o = me.borrow().get(i).cloned();
                if let Some(o) = o {
                  o.unsub()
                }
                return false;
              }
              true
            }
          };
          let (w1, w2, w3) = (win.clone(), win.clone(), win);
          let (d1, d2, d3) = (d.clone(), d.clone(), d.clone());
          up(
            &d,
            move |x| {
              if w1() {
                d1.next(x)
              }
            },
            move |e| {
              if w2() {
                d2.error(e)
              }
            },
            move || {
              if w3() {
                d3.complete()
              }
            },
          )
        })
        .collect();
      *me.borrow_mut() = os.clone();
      let me2 = me.clone();
      d.add(move || me2.borrow_mut().clear());
      for (s, o) in v.iter().zip(os) {
        go(s, o)
      }
    }),
    MOp::Zip | MOp::SeqEq => Rc::new(move |d| {
      let n = v.len();
      let seq = op == MOp::SeqEq;
      let q: Rc<RefCell<Vec<VecDeque<Option<V>>>>> = Rc::new(RefCell::new(vec![VecDeque::new(); n]));
      let left = Rc::new(Cell::new(n));
      let fill = {
        let (q, d) = (q.clone(), d.clone());
        move |i: usize, x: Option<V>| {
          q.borrow_mut()[i].push_back(x);
          loop {
            let row: Vec<Option<V>> = {
              let mut q = q.borrow_mut();
              if !d.open() || q.iter().any(|c| c.is_empty()) {
                break;
              }
              q.iter_mut().map(|c| c.pop_front().unwrap()).collect()
            };
            if seq {
              if row.iter().any(|x| *x != row[0]) {
                d.next(V::b(false));
                d.complete()
              } else if row[0].is_none() {
                d.next(V::b(true));
                d.complete()
              }
            } else {
              d.next(V::l(row.into_iter().map(|x| x.unwrap()).collect()))
            }
          }
        }
      };
      let os: Vec<Ob> = (0..n)
        .map(|i| {
          let (f1, f2) = (fill.clone(), fill.clone());
          let (left, d1) = (left.clone(), d.clone());
          up(
            &d,
            move |x| f1(i, Some(x)),
            errs(&d),
            move || {
              if seq {
                f2(i, None)
              } else {
                left.set(left.get() - 1);
                if left.get() == 0 {
                  d1.complete()
                }
              }
            },
          )
        })
        .collect();
      let q2 = q.clone();
      d.add(move || q2.borrow_mut().clear());
      for (s, o) in v.iter().zip(os) {
        go(s, o)
      }
    }),
    MOp::Comb(f) => Rc::new(move |d| {
      let n = v.len();
      let cur: Rc<RefCell<Vec<Option<V>>>> = Rc::new(RefCell::new(vec![None; n]));
      let left = Rc::new(Cell::new(n));
      let os: Vec<Ob> = (0..n)
        .map(|i| {
          let (cur, left) = (cur.clone(), left.clone());
          let (d1, d2) = (d.clone(), d.clone());
          up(
            &d,
            move |x| {
              cur.borrow_mut()[i] = Some(x);
              let row: Option<Vec<V>> = cur.borrow().iter().cloned().collect();
              if let Some(r) = row {
                d1.next(comb(f, r))
              }
            },
            errs(&d),
            move || {
              left.set(left.get() - 1);
              if left.get() == 0 {
                d2.complete()
              }
            },
          )
        })
        .collect();
      for (s, o) in v.iter().zip(os) {
        go(s, o)
      }
    }),
  }
}
/// user function of combine_latest
pub fn comb(f: u32, r: Vec<V>) -> V {
  if f % 2 == 0 {
    V::l(r)
  } else {
    V::i(r.iter().fold(0, |a, x| (a * 7 + x.num()) % 1_000_003))
  }
}

fn concat(v: Rc<Vec<Src>>, i: usize, d: &Ob) {
  if i == v.len() {
    d.complete();
    return;
  }
  let (d1, d2, v2) = (d.clone(), d.clone(), v.clone());
  let o = up(d, move |x| d1.next(x), errs(d), move || concat(v2.clone(), i + 1, &d2));
  go(&v[i], o)
}

fn trig(cx: &Cx, op: TOp, a: Src, b: Src) -> Src {
  let cx = cx.clone();
  Rc::new(move |d| {
    let (d1, d2, d3) = (d.clone(), d.clone(), d.clone());
    match op {
      TOp::TakeUntil => {
        let t = up(&d, move |_| d1.complete(), errs(&d), || {});
        let s = up(&d, move |x| d2.next(x), errs(&d), comps(&d));
        go(&b, t);
        go(&a, s)
      }
      TOp::SkipUntil => {
        let on = Rc::new(Cell::new(false));
        let on2 = on.clone();
        let me: Rc<RefCell<Option<Ob>>> = Rc::new(RefCell::new(None));
        let me2 = me.clone();
        let t = up(
          &d,
          move |_| {
            on.set(true);
            let m = me2.borrow_mut().take();
            if let Some(m) = m {
              m.unsub()
            }
          },
          errs(&d),
          || {},
        );
        *me.borrow_mut() = Some(t.clone());
        let me3 = me.clone();
        d.add(move || {
          me3.borrow_mut().take();
        });
        let s = up(
          &d,
          move |x| {
            if on2.get() {
              d2.next(x)
            }
          },
          errs(&d),
          comps(&d),
        );
        go(&b, t);
        go(&a, s)
      }
      TOp::SwitchOnNext => {
        let on0 = Rc::new(Cell::new(false));
        let (on1, on2) = (on0.clone(), on0.clone());
        let me: Rc<RefCell<Option<Ob>>> = Rc::new(RefCell::new(None));
        let (me2, me3) = (me.clone(), me.clone());
        let cx2 = cx.clone();
        let s = up(
          &d,
          move |x| {
            if on1.get() {
              let m = me2.borrow_mut().take();
              if let Some(m) = m {
                m.unsub()
              }
            } else {
              d2.next(x)
            }
          },
          move |e| {
            if on2.get() {
              // left open by the documents: is a replaced source that has not emitted since
              // still listened to?
              cx2.s.borrow_mut().diverged = true;
            }
            d3.error(e)
          },
          || {},
        );
        *me.borrow_mut() = Some(s.clone());
        d.add(move || {
          me3.borrow_mut().take();
        });
        let on3 = on0.clone();
        let t = up(
          &d,
          move |x| {
            on3.set(true);
            d1.next(x)
          },
          errs(&d),
          comps(&d),
        );
        go(&a, s);
        go(&b, t)
      }
      TOp::Sample => {
        let pend: Rc<RefCell<Option<V>>> = Rc::new(RefCell::new(None));
        let p2 = pend.clone();
        let t = up(
          &d,
          move |_| {
            let v = pend.borrow_mut().take();
            if let Some(v) = v {
              d3.next(v)
            }
          },
          errs(&d),
          || {},
        );
        let s = up(&d, move |x| *p2.borrow_mut() = Some(x), errs(&d), comps(&d));
        go(&b, t);
        go(&a, s)
      }
    }
  })
}

/// model run of a whole case
pub struct ModelOut {
  pub trace: Vec<Tr>,
  /// after each step, whether each subscriber is subscribed
  pub subscribed: Vec<Vec<bool>>,
  /// after each step, whether each source subscription is open
  pub recs: Vec<Vec<(Rec, bool)>>,
  pub hot_live: Vec<(usize, usize, usize, bool)>,
  pub cold_emits: Vec<Vec<u32>>,
  pub cold_n: Vec<usize>,
  pub hot_n: Vec<usize>,
  pub diverged: bool,
  /// a hot source emitted while an event was being handled: whether an operator has drawn its
  /// consequences from the outer event yet is left open, so that runs need not agree
  pub reent: bool,
}

fn subscribe(cx: &Cx, root: &Src) {
  let i = cx.s.borrow().subs.len();
  let (c1, c2, c3) = (cx.clone(), cx.clone(), cx.clone());
  let root2 = root.clone();
  let cnt = Rc::new(Cell::new(0));
  let evs = Rc::new(Cell::new(0));
  let (e1, e2, e3) = (evs.clone(), evs.clone(), evs);
  // in-callback unsubscribe works only once the caller has the subscription
  let handle: Rc<Cell<bool>> = Rc::new(Cell::new(false));
  let (h1, h2) = (handle.clone(), handle.clone());
  let react = move |cx: &Cx, evs: &Cell<usize>, h: &Cell<bool>| {
    evs.set(evs.get() + 1);
    if i == 0 && cx.case.unsub_in == Some(evs.get()) && h.get() {
      let o = cx.s.borrow().subs[0].clone();
      o.unsub()
    }
  };
  let o = Obs::new(
    move |v| {
      c1.log(i, Ev::N(v));
      cnt.set(cnt.get() + 1);
      if i == 0 && c1.case.nest == Some(cnt.get()) {
        subscribe(&c1, &root2)
      }
      if i == 0 {
        if let Some((n, h, e)) = &c1.case.emit_in {
          if *n == cnt.get() {
            c1.emit(*h, e)
          }
        }
      }
      react(&c1, &e1, &h1)
    },
    move |e| {
      c2.log(i, Ev::E(e));
      e2.set(e2.get() + 1);
    },
    move || {
      c3.log(i, Ev::C);
      e3.set(e3.get() + 1);
    },
  );
  cx.s.borrow_mut().subs.push(o.clone());
  root(o);
  h2.set(true);
}

pub fn run(case: &Case, dial: u32) -> ModelOut {
  let cx = Cx::new(case, dial);
  let root = comp(&cx, &case.root);
  let mut subscribed = vec![];
  let mut recs = vec![];
  for (i, st) in case.steps.iter().enumerate() {
    cx.s.borrow_mut().step = i;
    match st {
      Step::Sub => subscribe(&cx, &root),
      Step::Emit(h, e) => cx.emit(*h, e),
      Step::Unsub(k) => {
        let o = cx.s.borrow().subs.get(*k).cloned();
        if let Some(o) = o {
          o.unsub()
        }
      }
    }
    let s = cx.s.borrow();
    subscribed.push(s.subs.iter().map(|o| o.open()).collect());
    recs.push(s.recs.iter().map(|(r, o)| (r.clone(), o.open())).collect());
    if s.diverged {
      break;
    }
  }
  let all = cx.s.borrow().subs.clone();
  for o in all {
    o.unsub()
  }
  let mut s = cx.s.borrow_mut();
  for l in s.hot_obs.iter_mut() {
    l.clear()
  }
  s.recs.clear();
  s.subs.clear();
  ModelOut {
    trace: std::mem::take(&mut s.trace),
    subscribed,
    recs,
    hot_live: std::mem::take(&mut s.hot_live),
    cold_emits: std::mem::take(&mut s.cold_emits),
    cold_n: s.cold_n.clone(),
    hot_n: s.hot_n.clone(),
    diverged: s.diverged,
    reent: s.reent,
  }
}

//! Pipelines, source scripts and driver scripts, and their generators.
use crate::tape::Draw;
use crate::val::*;
use std::fmt;

#[derive(Clone, Debug, PartialEq)]
pub enum Op {
  Map(u32),
  Filter(u32),
  Take(usize),
  Skip(usize),
  TakeLast(usize),
  SkipLast(usize),
  TakeWhile(u32),
  SkipWhile(u32),
  First,
  Last,
  ElementAt(usize),
  Distinct,
  Scan(u32),
  Reduce(u32),
  Count,
  Sum,
  SumAndCount,
  Min,
  Max,
  All(u32),
  Contains(i64),
  DefaultIfEmpty(i64),
  IgnoreElements,
  StartWith(Vec<i64>),
  Buffer(usize),
  Mat,
  Demat,
  Tap(usize),
  MapToAny,
  /// identities as far as the sequence goes
  ObserveOnDefault,
  SubscribeOnDefault,
  Delay,
  Timestamp,
  /// not modelled: only in model-free checks
  TimeInterval,
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum MOp {
  Merge,
  Concat,
  Amb,
  Zip,
  Comb(u32),
  SeqEq,
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum TOp {
  TakeUntil,
  SkipUntil,
  Sample,
  /// not modelled
  SwitchOnNext,
}
/// sources and operators on the virtual clock (ns); only in the timed families
#[derive(Clone, Debug, PartialEq)]
pub enum TmSrc {
  Interval(u64),
  Timer(u64),
  /// a thread of its own: gap before each event, and the event
  Script(Vec<(u64, Ev)>),
  /// the same, whatever the observer says
  Rude(Vec<(u64, Ev)>),
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Tm {
  Delay(u64),
  Timeout(u64),
  Debounce(u64),
  /// how much later the scheduler runs things
  ObserveOn(u64),
  SubscribeOn(u64),
  TimeInterval,
}
/// the length of a long range
pub const LONG: i64 = 1 << 40;
#[derive(Clone, PartialEq)]
pub enum Node {
  Hot(usize),
  Cold(usize),
  Just(i64),
  Iter(Vec<i64>),
  Range(i64, i64),
  Empty,
  Never,
  Err(Er),
  Start(i64),
  FromRes(Result<i64, Er>),
  Repeat(i64),
  /// from_iter over an endless iterator
  Endless,
  Defer(Box<Node>),
  Un(Op, Box<Node>),
  Multi(MOp, Vec<Node>),
  Trig(TOp, Box<Node>, Box<Node>),
  FlatMap(Box<Node>, Vec<Node>),
  Resume(Box<Node>, Vec<Node>),
  Retry(usize, Box<Node>),
  RetryWhen(u32, Box<Node>),
  Window(usize, Box<Node>, Vec<Op>),
  GroupBy(u32, Box<Node>, Vec<Op>),
  Rsg(Box<Node>, Vec<(usize, Ev)>),
  /// ref_count / replay, used by one subscriber
  Share(bool, Box<Node>),
  TmSrc(TmSrc),
  Tm(Tm, Box<Node>),
}
impl fmt::Debug for Node {
  fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
    match self {
      Node::Hot(h) => write!(f, "hot{}", h),
      Node::Cold(c) => write!(f, "cold{}", c),
      Node::Just(x) => write!(f, "just({})", x),
      Node::Iter(v) if v.len() > 700 => write!(f, "from_iter[0,1,..6,0,.. {} items]", v.len()),
      Node::Iter(v) => write!(f, "from_iter{:?}", v),
      Node::Range(a, b) => write!(f, "range({},{})", a, b),
      Node::Empty => write!(f, "empty"),
      Node::Never => write!(f, "never"),
      Node::Err(e) => write!(f, "error({:?})", e),
      Node::Start(x) => write!(f, "start({})", x),
      Node::FromRes(r) => write!(f, "from_result({:?})", r),
      Node::Repeat(x) => write!(f, "repeat({})", x),
      Node::Endless => write!(f, "from_iter(0..)"),
      Node::Defer(n) => write!(f, "defer({:?})", n),
      Node::Un(o, n) => write!(f, "{:?}.{:?}", n, o),
      Node::Multi(o, n) => write!(f, "{:?}{:?}", o, n),
      Node::Trig(o, s, t) => write!(f, "{:?}.{:?}({:?})", s, o, t),
      Node::FlatMap(s, t) => write!(f, "{:?}.flat_map(n=>{:?}[n])", s, t),
      Node::Resume(s, t) => write!(f, "{:?}.on_error_resume_next(e=>{:?}[e])", s, t),
      Node::Retry(n, s) => write!(f, "{:?}.retry({})", s, n),
      Node::RetryWhen(p, s) => write!(f, "{:?}.retry_when(p{})", s, p),
      Node::Window(n, s, c) => write!(f, "{:?}.window({}).flat_map(w=>w{:?})", s, n, c),
      Node::GroupBy(k, s, c) => write!(f, "{:?}.group_by(k{}).flat_map(g=>g{:?})", s, k, c),
      Node::Rsg(n, a) => write!(f, "ready_set_go({:?},{:?})", a, n),
      Node::TmSrc(s) => write!(f, "{:?}", s),
      Node::Tm(o, n) => write!(f, "{:?}.{:?}", n, o),
      Node::Share(r, n) => write!(f, "{:?}.{}", n, if *r { "replay()" } else { "ref_count()" }),
    }
  }
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum HotKind {
  /// emits only to observers that are subscribed and did not get its terminal
  Polite,
  /// emits whatever the observers say
  Rude,
  /// a real Subject of the library
  Subject,
}
#[derive(Clone, Debug)]
pub struct ColdSpec {
  /// script of the k-th subscription (the last one repeats)
  pub attempts: Vec<Vec<Ev>>,
  pub rude: bool,
}
#[derive(Clone, Debug, PartialEq)]
pub enum Step {
  Sub,
  Emit(usize, Ev),
  Unsub(usize),
}
#[derive(Clone, Debug)]
pub struct Case {
  pub hots: Vec<HotKind>,
  pub colds: Vec<ColdSpec>,
  pub root: Node,
  pub steps: Vec<Step>,
  /// on the n-th item of subscriber 0, subscribe once more from inside the callback
  pub nest: Option<usize>,
  /// on the n-th event (item or terminal) of subscriber 0, unsubscribe it from inside the callback
  pub unsub_in: Option<usize>,
  /// the way of unsubscribing (th::unsubscribe)
  pub how: u32,
  /// many thousand items
  pub long: bool,
  /// on the n-th item of subscriber 0, emit this from inside the callback (once)
  pub emit_in: Option<(usize, usize, Ev)>,
  /// in the n-th call of a closure given to an operator or creation function
  pub poke: Option<(usize, Poke)>,
}
/// what a closure does with the library while it is being called
#[derive(Clone, Debug)]
pub enum Poke {
  Emit(usize, Ev),
  /// unsubscribes subscriber 0
  Unsub,
  /// subscribes the whole once more
  Sub,
  /// subscribes to this subject
  Join(usize),
}
impl Case {
  pub fn describe(&self) -> String {
    let mut s = format!("pipeline: {:?}\n", self.root);
    for (i, h) in self.hots.iter().enumerate() {
      s += &format!("hot{}: {:?}\n", i, h);
    }
    for (i, c) in self.colds.iter().enumerate() {
      s += &format!("cold{}: {:?}{}\n", i, c.attempts, if c.rude { " rude" } else { "" });
    }
    s += &format!("steps: {:?}", self.steps);
    if let Some(n) = self.nest {
      s += &format!("\nsubscribe again inside callback at item {}", n);
    }
    if let Some(n) = self.unsub_in {
      s += &format!("\nunsubscribe inside callback at event {}", n);
    }
    if let Some((n, h, e)) = &self.emit_in {
      s += &format!("\nemit {:?} into hot{} inside callback at item {}", e, h, n);
    }
    if let Some((n, p)) = &self.poke {
      s += &format!("\ncall {} of the operators' closures: {:?}", n, p);
    }
    s
  }
  pub fn key(&self) -> u64 {
    use std::hash::{Hash, Hasher};
    let mut h = std::collections::hash_map::DefaultHasher::new();
    self.describe().hash(&mut h);
    h.finish()
  }
}

/// what may be generated
#[derive(Clone, Copy)]
pub struct Cfg {
  pub budget: i32,
  pub multi: bool,
  pub flat: bool,
  pub recover: bool,
  pub window: bool,
  pub endless: bool,
  pub rude: bool,
  pub subject: bool,
  pub hot: bool,
  pub rsg: bool,
  pub share: bool,
  pub unmodelled: bool,
  pub rich_cold: bool,
  /// sources and operators on the virtual clock
  pub timed: bool,
  pub err_weight: u32,
}
impl Cfg {
  pub fn chain() -> Cfg {
    Cfg {
      budget: 3,
      multi: false,
      flat: false,
      recover: false,
      window: true,
      endless: true,
      rude: false,
      subject: false,
      hot: true,
      rsg: false,
      share: false,
      unmodelled: false,
      rich_cold: false,
      timed: false,
      err_weight: 2,
    }
  }
  pub fn full() -> Cfg {
    Cfg {
      budget: 4,
      multi: true,
      flat: true,
      recover: true,
      window: true,
      endless: true,
      rude: false,
      subject: true,
      hot: true,
      rsg: true,
      share: false,
      unmodelled: false,
      rich_cold: true,
      timed: false,
      err_weight: 2,
    }
  }
}

pub struct Gen<'a> {
  pub d: &'a mut Draw,
  pub c: Cfg,
  pub hots: Vec<HotKind>,
  pub colds: Vec<ColdSpec>,
  pub uid: u64,
  pub taps: usize,
  /// inside a table of flat_map / resume / a retried source: no single-use sources
  multi_use: u32,
  in_amb: u32,
  /// group_by below: emissions at completion are not ordered
  groups: u32,
  /// 0, or the order of magnitude of counts and lengths in a case of many events
  pub big: u32,
}

impl<'a> Gen<'a> {
  pub fn new(d: &'a mut Draw, c: Cfg) -> Gen<'a> {
    Gen { d, c, hots: vec![], colds: vec![], uid: 0, taps: 0, multi_use: 0, in_amb: 0, groups: 0, big: 0 }
  }
  pub fn item(&mut self) -> i64 {
    self.d.range(0, 4)
  }
  pub fn er(&mut self) -> Er {
    self.uid += 1;
    Er::new(self.d.range(0, 3), self.uid)
  }
  pub fn ev(&mut self, we: u32, wc: u32) -> Ev {
    match self.d.weighted(&[10, we, wc]) {
      0 => Ev::N(V::i(self.item())),
      1 => Ev::E(self.er()),
      _ => Ev::C,
    }
  }
  /// a count about as large as the number of events
  fn large(&mut self) -> usize {
    let b = self.big;
    match self.d.below(4) {
      0 => self.d.below(b + 1) as usize,
      1 => (b - 1 + self.d.below(3)) as usize,
      2 => (b / 2 + self.d.below(3)) as usize,
      _ => (b + b / 8) as usize,
    }
  }
  /// the count of an operator
  pub fn cnt(&mut self, lo: u32, n: u32) -> usize {
    if self.big > 0 && self.d.chance(2, 3) {
      self.large().max(lo as usize)
    } else {
      (lo + self.d.below(n)) as usize
    }
  }
  /// well-formed script
  pub fn script(&mut self, max: u32) -> Vec<Ev> {
    let n = if self.big > 0 && self.d.chance(1, 2) { self.large() as u32 } else { self.d.below(max + 1) };
    let mut v: Vec<Ev> = (0..n).map(|_| Ev::N(V::i(self.item()))).collect();
    match self.d.weighted(&[6, self.c.err_weight, 1]) {
      0 => v.push(Ev::C),
      1 => v.push(Ev::E(self.er())),
      _ => {}
    }
    v
  }
  fn rude_script(&mut self) -> Vec<Ev> {
    let n = self.d.below(7);
    (0..n).map(|_| self.ev(3, 3)).collect()
  }
  fn hot(&mut self, single: bool) -> Node {
    // reuse an instrumented hot source now and then
    let reuse: Vec<usize> =
      (0..self.hots.len()).filter(|i| self.hots[*i] != HotKind::Subject).collect();
    if !reuse.is_empty() && (self.hots.len() >= 4 || self.d.chance(1, 5)) {
      return Node::Hot(*self.d.pick(&reuse));
    }
    let k = if self.c.subject && single && self.d.chance(1, 5) {
      HotKind::Subject
    } else if self.c.rude && self.d.chance(3, 4) {
      HotKind::Rude
    } else {
      HotKind::Polite
    };
    self.hots.push(k);
    Node::Hot(self.hots.len() - 1)
  }
  fn cold(&mut self) -> Node {
    let rude = self.c.rude && self.d.chance(1, 2);
    let many = if self.c.rich_cold && self.in_amb == 0 && self.d.chance(1, 2) { 1 + self.d.below(4) } else { 1 };
    let max = if self.c.budget > 2 { 5 } else { 8 };
    let attempts =
      (0..many).map(|_| if rude { self.rude_script() } else { self.script(max) }).collect();
    self.colds.push(ColdSpec { attempts, rude });
    Node::Cold(self.colds.len() - 1)
  }
  fn ns(&mut self) -> u64 {
    300_000 + self.d.below(4_700_000) as u64
  }
  fn tm_src(&mut self) -> TmSrc {
    match self.d.weighted(&[3, 1, 6]) {
      0 => TmSrc::Interval(self.ns()),
      1 => TmSrc::Timer(self.ns()),
      _ => {
        let rude = self.c.rude && self.d.chance(3, 4);
        let v = if rude { self.rude_script() } else { self.script(6) };
        let mut first = true;
        let v = v
          .into_iter()
          .map(|e| {
            let g = if first || self.d.chance(3, 4) { self.ns() } else { 0 };
            first = false;
            (g, e)
          })
          .collect();
        if rude {
          TmSrc::Rude(v)
        } else {
          TmSrc::Script(v)
        }
      }
    }
  }
  fn tm(&mut self) -> Tm {
    match self.d.below(7) {
      0 => Tm::Delay(self.ns()),
      1 => Tm::Timeout(self.ns()),
      2 => Tm::Debounce(self.ns()),
      3 => Tm::ObserveOn(1000 + self.d.below(90_000) as u64),
      4 => Tm::SubscribeOn(1000 + self.d.below(90_000) as u64),
      _ => Tm::TimeInterval,
    }
  }
  pub fn leaf(&mut self) -> Node {
    if self.c.timed && self.d.chance(4, 5) {
      return Node::TmSrc(self.tm_src());
    }
    let single = self.multi_use == 0;
    let w = [
      if self.c.hot { 6 } else { 0 },
      6,
      1,
      2,
      1,
      1,
      1,
      1,
      1,
      1,
      if self.c.endless { 2 } else { 0 },
      if self.c.endless { 1 } else { 0 },
    ];
    match self.d.weighted(&w) {
      0 => self.hot(single),
      1 => self.cold(),
      2 => Node::Just(self.item()),
      3 => {
        let n = self.cnt(0, 6);
        Node::Iter((0..n).map(|_| self.item()).collect())
      }
      4 => {
        let a = self.d.range(-1, 3);
        Node::Range(a, self.cnt(0, 6) as i64)
      }
      5 => Node::Empty,
      6 => Node::Never,
      7 => Node::Err(self.er()),
      8 => Node::Start(self.item()),
      9 => {
        if self.d.chance(1, 2) {
          Node::FromRes(Err(self.er()))
        } else {
          Node::FromRes(Ok(self.item()))
        }
      }
      10 => Node::Repeat(self.item()),
      _ => {
        if self.d.chance(1, 3) {
          // as good as endless
          Node::Range(self.d.range(-1, 3), LONG)
        } else {
          Node::Endless
        }
      }
    }
  }
  pub fn op(&mut self) -> Op {
    let n = self.d.below(if self.c.unmodelled { 34 } else { 33 });
    match n {
      0 => Op::Map(self.d.below(NF1)),
      1 => Op::Filter(self.d.below(NP)),
      2 => Op::Take(self.cnt(0, 6)),
      3 => Op::Skip(self.cnt(0, 6)),
      4 => Op::TakeLast(self.cnt(0, 6)),
      5 => Op::SkipLast(self.cnt(0, 6)),
      6 => Op::TakeWhile(self.d.below(NP)),
      7 => Op::SkipWhile(self.d.below(NP)),
      8 => Op::First,
      9 => Op::Last,
      10 => Op::ElementAt(self.cnt(1, 5)),
      11 => Op::Distinct,
      12 => Op::Scan(self.d.below(NF2)),
      13 => Op::Reduce(self.d.below(NF2)),
      14 => Op::Count,
      15 => Op::Sum,
      16 => Op::SumAndCount,
      17 => Op::Min,
      18 => Op::Max,
      19 => Op::All(self.d.below(NP)),
      20 => Op::Contains(self.item()),
      21 => Op::DefaultIfEmpty(self.item()),
      22 => Op::IgnoreElements,
      23 => {
        let n = self.cnt(0, 4);
        Op::StartWith((0..n).map(|_| self.item()).collect())
      }
      24 => Op::Buffer(self.cnt(1, 5)),
      25 => Op::Mat,
      26 => Op::Demat,
      27 | 28 => {
        self.taps += 1;
        Op::Tap(self.taps - 1)
      }
      29 => Op::MapToAny,
      30 => [Op::ObserveOnDefault, Op::SubscribeOnDefault][self.d.below(2) as usize].clone(),
      31 => [Op::Delay, Op::Timestamp][self.d.below(2) as usize].clone(),
      32 => Op::Mat,
      _ => Op::TimeInterval,
    }
  }
  /// operator that emits nothing when its source completes
  fn quiet_op(&mut self) -> Op {
    match self.d.below(9) {
      0 => Op::Map(self.d.below(NF1)),
      1 => Op::Filter(self.d.below(NP)),
      2 => Op::Take(1 + self.d.below(4) as usize),
      3 => Op::Skip(self.d.below(4) as usize),
      4 => Op::Scan(self.d.below(NF2)),
      5 => Op::TakeWhile(self.d.below(NP)),
      6 => Op::SkipWhile(self.d.below(NP)),
      7 => Op::Distinct,
      _ => Op::First,
    }
  }
  /// a table for flat_map / resume: small sub-pipelines
  fn table(&mut self) -> Vec<Node> {
    self.multi_use += 1;
    let big = std::mem::take(&mut self.big);
    let n = 1 + self.d.below(3);
    let v = (0..n)
      .map(|_| {
        let b = self.d.below(2) as i32;
        let e = self.c.endless;
        self.c.endless = false;
        let r = self.node(b);
        self.c.endless = e;
        r
      })
      .collect();
    self.multi_use -= 1;
    self.big = big;
    v
  }
  pub fn node(&mut self, budget: i32) -> Node {
    if budget <= 0 {
      return self.leaf();
    }
    if self.c.timed && self.d.chance(2, 5) {
      let t = self.tm();
      return Node::Tm(t, Box::new(self.node(budget - 1)));
    }
    let m = |b: bool, w: u32| if b { w } else { 0 };
    let w = [
      14,
      m(self.c.multi, 8),
      m(self.c.multi, 5),
      m(self.c.flat, 3),
      m(self.c.recover, 2),
      m(self.c.recover, 2),
      // (over a source that fails at once it never ends)
      m(self.c.recover && !self.c.timed, 2),
      m(self.c.window, 1),
      m(self.c.window && self.groups == 0, 1),
      1,
      m(self.c.rsg, 1),
      m(self.c.share && self.multi_use == 0, 1),
    ];
    let b = Box::new;
    match self.d.weighted(&w) {
      0 => {
        let o = self.op();
        Node::Un(o, b(self.node(budget - 1)))
      }
      1 => self.multi(budget),
      2 => self.trig(budget),
      3 => {
        let t = self.table();
        Node::FlatMap(b(self.node(budget - 1)), t)
      }
      4 => {
        let t = self.table();
        Node::Resume(b(self.node(budget - 1)), t)
      }
      5 => {
        self.multi_use += 1;
        let r = Node::Retry((self.d.below(5) as usize).max(self.c.timed as usize), b(self.node(budget - 1)));
        self.multi_use -= 1;
        r
      }
      6 => {
        self.multi_use += 1;
        let r = Node::RetryWhen(self.d.below(NPE), b(self.node(budget - 1)));
        self.multi_use -= 1;
        r
      }
      7 => {
        let n = self.cnt(1, 3);
        let k = self.d.below(3);
        let c = (0..k).map(|_| self.op()).filter(|o| !matches!(o, Op::Tap(_))).collect();
        Node::Window(n, b(self.node(budget - 1)), c)
      }
      8 => {
        let k = self.d.below(NKEY);
        let n = self.d.below(3);
        let c = (0..n).map(|_| self.quiet_op()).collect();
        self.groups += 1;
        let r = Node::GroupBy(k, b(self.node(budget - 1)), c);
        self.groups -= 1;
        r
      }
      9 => Node::Defer(b(self.node(budget - 1))),
      10 => {
        let n = b(self.node(budget - 1));
        let inst: Vec<usize> = (0..self.hots.len()).collect();
        if inst.is_empty() {
          return *n;
        }
        let k = self.d.below(4);
        let mut acts = vec![];
        for _ in 0..k {
          let h = *self.d.pick(&inst);
          let e = self.ev(1, 1);
          let stop = e.terminal();
          acts.push((h, e));
          if stop {
            break;
          }
        }
        Node::Rsg(n, acts)
      }
      _ => Node::Share(self.d.chance(1, 2), b(self.node(budget - 1))),
    }
  }
  pub fn table_pub(&mut self) -> Vec<Node> {
    self.table()
  }
  /// a recovery operator over a pipeline
  pub fn recover(&mut self, budget: i32) -> Node {
    self.multi_use += 1;
    let b = Box::new;
    let r = match self.d.below(3) {
      0 => Node::Retry((self.d.below(5) as usize).max(self.c.timed as usize), b(self.node(budget - 1))),
      1 => Node::RetryWhen(self.d.below(NPE), b(self.node(budget - 1))),
      _ => {
        let t = self.table();
        Node::Resume(b(self.node(budget - 1)), t)
      }
    };
    self.multi_use -= 1;
    r
  }
  pub fn multi(&mut self, budget: i32) -> Node {
    let op = match self.d.below(6) {
      0 => MOp::Merge,
      1 => MOp::Concat,
      2 => MOp::Zip,
      3 => MOp::Comb(self.d.below(NF1)),
      4 => MOp::Amb,
      _ => MOp::SeqEq,
    };
    self.multi_of(op, budget)
  }
  pub fn multi_of(&mut self, op: MOp, budget: i32) -> Node {
    let n = 1 + self.d.weighted(&[1, 5, 3, 1]);
    if op == MOp::Amb {
      self.in_amb += 1;
    }
    let mut left = budget - 1;
    let mut v = vec![];
    for _ in 0..n {
      let b = if left > 0 { self.d.below(left as u32 + 1) as i32 } else { 0 };
      left -= b;
      v.push(self.node(b));
    }
    if op == MOp::Amb {
      self.in_amb -= 1;
    }
    Node::Multi(op, v)
  }
  pub fn trig(&mut self, budget: i32) -> Node {
    let op = match self.d.below(4) {
      0 => TOp::TakeUntil,
      1 => TOp::SkipUntil,
      2 => TOp::Sample,
      _ => TOp::SwitchOnNext,
    };
    let left = (budget - 1).max(0);
    let a = self.d.below(left as u32 + 1) as i32;
    let s = self.node(a);
    let t = self.node(left - a);
    Node::Trig(op, Box::new(s), Box::new(t))
  }
  /// events of all hot sources in one random order
  pub fn emits(&mut self, max: u32) -> Vec<Step> {
    let mut v = vec![];
    if self.hots.is_empty() {
      return v;
    }
    let n = if self.big > 0 { self.large() as u32 } else { self.d.below(max + 1) };
    // (long histories should not end after the first few events)
    let scarce = (self.big / 4).max(1);
    for _ in 0..n {
      let h = self.d.below(self.hots.len() as u32) as usize;
      let (e, c) = if self.hots[h] == HotKind::Rude { (2, 2) } else { (self.c.err_weight.min(1), 2) };
      let mut ev = self.ev(e, c);
      if ev.terminal() && !self.d.chance(1, scarce) {
        ev = Ev::N(V::i(self.item()));
      }
      v.push(Step::Emit(h, ev));
    }
    v
  }
  pub fn done(self, root: Node, steps: Vec<Step>) -> Case {
    Case { hots: self.hots, colds: self.colds, root, steps, nest: None, unsub_in: None, how: 0, long: false, emit_in: None, poke: None }
  }
}

pub fn node_has(n: &Node, f: &dyn Fn(&Node) -> bool) -> bool {
  if f(n) {
    return true;
  }
  let any = |v: &Vec<Node>| v.iter().any(|x| node_has(x, f));
  match n {
    Node::Defer(a) | Node::Un(_, a) | Node::Retry(_, a) | Node::RetryWhen(_, a) => node_has(a, f),
    Node::Window(_, a, _) | Node::GroupBy(_, a, _) | Node::Rsg(a, _) | Node::Share(_, a) | Node::Tm(_, a) => node_has(a, f),
    Node::Multi(_, v) => any(v),
    Node::Trig(_, a, b) => node_has(a, f) || node_has(b, f),
    Node::FlatMap(a, v) | Node::Resume(a, v) => node_has(a, f) || any(v),
    _ => false,
  }
}
/// names of the operators in a pipeline, for the evidence
pub fn op_names(n: &Node, out: &mut Vec<String>) {
  let head = |s: String| s.split(|c: char| c == '(' || c == '[').next().unwrap_or("").to_string();
  let mut add = |s: String| {
    if !out.contains(&s) {
      out.push(s)
    }
  };
  match n {
    Node::Hot(_) => add("hot".into()),
    Node::Cold(_) => add("cold".into()),
    Node::Un(o, _) => add(head(format!("{:?}", o))),
    Node::Multi(o, _) => add(head(format!("{:?}", o))),
    Node::Trig(o, ..) => add(format!("{:?}", o)),
    Node::FlatMap(..) => add("flat_map".into()),
    Node::Resume(..) => add("on_error_resume_next".into()),
    Node::Retry(..) => add("retry".into()),
    Node::RetryWhen(..) => add("retry_when".into()),
    Node::Window(..) => add("window_with_count".into()),
    Node::GroupBy(..) => add("group_by".into()),
    Node::Rsg(..) => add("ready_set_go".into()),
    Node::Share(r, _) => add(if *r { "replay".into() } else { "ref_count".into() }),
    Node::Defer(_) => add("defer".into()),
    Node::Tm(o, _) => add(head(format!("{:?}", o))),
    Node::TmSrc(o) => add(head(format!("{:?}", o))),
    o => add(head(format!("{:?}", o))),
  }
  match n {
    Node::Defer(a) | Node::Un(_, a) | Node::Retry(_, a) | Node::RetryWhen(_, a) => op_names(a, out),
    Node::Window(_, a, _) | Node::GroupBy(_, a, _) | Node::Rsg(a, _) | Node::Share(_, a) | Node::Tm(_, a) => op_names(a, out),
    Node::Multi(_, v) => v.iter().for_each(|x| op_names(x, out)),
    Node::Trig(_, a, b) => {
      op_names(a, out);
      op_names(b, out)
    }
    Node::FlatMap(a, v) | Node::Resume(a, v) => {
      op_names(a, out);
      v.iter().for_each(|x| op_names(x, out))
    }
    _ => {}
  }
}

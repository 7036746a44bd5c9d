//! Choice tapes: every random decision of a case is a recorded draw, so a case can be replayed
//! and shrunk. Stream 0 holds input decisions, stream 1 scheduling decisions. 0 is always the
//! simplest choice (for a schedule: the current thread goes on).
use std::cell::RefCell;
use vp_std::vprt::Kind;

#[derive(Clone)]
pub struct Rng(u64, u64);
pub fn mix(mut z: u64) -> u64 {
  z = z.wrapping_add(0x9E3779B97F4A7C15);
  z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
  z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
  z ^ (z >> 31)
}
impl Rng {
  pub fn new(seed: u64) -> Rng {
    Rng(mix(seed), mix(seed ^ 0xdeadbeefcafef00d) | 1)
  }
  pub fn next(&mut self) -> u64 {
    self.0 = self.0.wrapping_add(self.1 | 1).wrapping_add(0x9E3779B97F4A7C14);
    mix(self.0)
  }
  pub fn below(&mut self, n: u64) -> u64 {
    if n <= 1 {
      0
    } else {
      ((self.next() as u128 * n as u128) >> 64) as u64
    }
  }
}

#[derive(Clone, Default, Debug, PartialEq)]
pub struct Tape {
  pub inp: Vec<u32>,
  pub sch: Vec<u32>,
}

/// How scheduling decisions are generated.
#[derive(Clone, Debug)]
pub enum Policy {
  /// never preempt; forced choices uniform
  Run,
  /// preempt with probability 1/den at each point
  Walk(u32),
  /// random thread priorities with change points at the given choice numbers
  Pct { prio: Vec<i64>, change: Vec<u64>, low: i64 },
}

/// One decision of an enumerated schedule: (options, chosen, is a preemption)
#[derive(Clone, Debug)]
pub struct EnumStep {
  pub n: usize,
  pub k: usize,
  pub preempt: bool,
}

pub struct Draw {
  pub tape: Tape,
  ipos: usize,
  spos: usize,
  rng: Option<Rng>,
  policy: Policy,
  nchoice: u64,
  /// systematic enumeration of schedules: forced prefix, then 0
  pub en: Option<(Vec<usize>, Vec<EnumStep>)>,
}

impl Draw {
  pub fn generate(seed: u64) -> Draw {
    Draw {
      tape: Tape::default(),
      ipos: 0,
      spos: 0,
      rng: Some(Rng::new(seed)),
      policy: Policy::Walk(4),
      nchoice: 0,
      en: None,
    }
  }
  pub fn replay(tape: Tape) -> Draw {
    Draw { tape, ipos: 0, spos: 0, rng: None, policy: Policy::Run, nchoice: 0, en: None }
  }
  /// replay the inputs, enumerate schedules: choices follow `prefix`, then 0
  pub fn enumerate(inp: Vec<u32>, prefix: Vec<usize>) -> Draw {
    Draw {
      tape: Tape { inp, sch: vec![] },
      ipos: 0,
      spos: 0,
      rng: None,
      policy: Policy::Run,
      nchoice: 0,
      en: Some((prefix, vec![])),
    }
  }
  pub fn used(&self) -> Tape {
    let mut t = self.tape.clone();
    if self.rng.is_none() {
      t.inp.truncate(self.ipos);
      t.sch.truncate(self.spos);
    }
    t
  }
  pub fn below(&mut self, n: u32) -> u32 {
    if n <= 1 {
      return 0;
    }
    if let Some(r) = &mut self.rng {
      let v = r.below(n as u64) as u32;
      self.tape.inp.push(v);
      v
    } else {
      let v = self.tape.inp.get(self.ipos).copied().unwrap_or(0);
      if self.ipos < self.tape.inp.len() {
        self.ipos += 1;
      }
      v % n
    }
  }
  /// a number in lo..=hi (lo simplest)
  pub fn range(&mut self, lo: i64, hi: i64) -> i64 {
    lo + self.below((hi - lo + 1) as u32) as i64
  }
  /// true with probability num/den (false simplest)
  pub fn chance(&mut self, num: u32, den: u32) -> bool {
    self.below(den) >= den - num
  }
  pub fn weighted(&mut self, w: &[u32]) -> usize {
    let total: u32 = w.iter().sum();
    let mut x = self.below(total);
    for (i, c) in w.iter().enumerate() {
      if x < *c {
        return i;
      }
      x -= c;
    }
    0
  }
  /// now and then a large number: of items, tasks, observers
  pub fn burst(&mut self) -> Option<usize> {
    if self.chance(1, 400) {
      Some(*self.pick(&[20, 40, 70, 130, 260, 260]))
    } else {
      None
    }
  }
  pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
    &xs[self.below(xs.len() as u32) as usize]
  }
  /// choose the way schedules are generated for this case (not recorded: only its results are)
  pub fn set_policy_random(&mut self) {
    if let Some(r) = &mut self.rng {
      self.policy = match r.below(10) {
        0 => Policy::Run,
        1 => Policy::Walk(2),
        2 => Policy::Walk(3),
        3 => Policy::Walk(6),
        4 => Policy::Walk(12),
        5 => Policy::Walk(30),
        _ => {
          let mut prio: Vec<i64> = (0..16).map(|_| (r.next() >> 16) as i64 & 0xffffff).collect();
          if r.below(2) == 0 {
            prio[0] = 1 << 40;
          }
          let d = 1 + r.below(4);
          let span = [20u64, 60, 150][r.below(3) as usize];
          let change = (0..d).map(|_| r.below(span)).collect();
          Policy::Pct { prio, change, low: 0 }
        }
      };
    }
  }
  pub fn sched(&mut self, kind: Kind, n: usize, tids: &[usize]) -> usize {
    if n <= 1 {
      return 0;
    }
    self.nchoice += 1;
    if let Some((prefix, log)) = &mut self.en {
      let i = log.len();
      let k = prefix.get(i).copied().unwrap_or(0).min(n - 1);
      log.push(EnumStep { n, k, preempt: kind == Kind::Preempt });
      self.tape.sch.push(k as u32);
      self.spos = self.tape.sch.len();
      return k;
    }
    if let Some(r) = &mut self.rng {
      let k = match kind {
        Kind::Spurious => (r.below(6) == 0) as u64,
        Kind::Notify => r.below(n as u64),
        Kind::Preempt | Kind::Forced => match &mut self.policy {
          Policy::Run => {
            if kind == Kind::Forced {
              r.below(n as u64)
            } else {
              0
            }
          }
          Policy::Walk(den) => {
            if kind == Kind::Forced {
              r.below(n as u64)
            } else if r.below(*den as u64) == 0 {
              1 + r.below(n as u64 - 1)
            } else {
              0
            }
          }
          Policy::Pct { prio, change, low } => {
            if change.contains(&self.nchoice) && kind == Kind::Preempt {
              *low -= 1;
              let t = tids[0] % prio.len();
              prio[t] = *low;
            }
            let mut best = 0;
            for i in 1..n {
              if prio[tids[i] % prio.len()] > prio[tids[best] % prio.len()] {
                best = i;
              }
            }
            best as u64
          }
        },
      };
      self.tape.sch.push(k as u32);
      k as usize
    } else {
      let v = self.tape.sch.get(self.spos).copied().unwrap_or(0) as usize;
      if self.spos < self.tape.sch.len() {
        self.spos += 1;
      }
      v % n
    }
  }
}

thread_local! {
  static CUR: RefCell<Draw> = RefCell::new(Draw::replay(Tape::default()));
}
/// run `f` on the draw source of the current case
pub fn with<R>(f: impl FnOnce(&mut Draw) -> R) -> R {
  CUR.with(|c| f(&mut c.borrow_mut()))
}
pub fn install(d: Draw) {
  CUR.with(|c| *c.borrow_mut() = d);
}
pub fn take() -> Draw {
  CUR.with(|c| c.replace(Draw::replay(Tape::default())))
}

/// Next schedule prefix in depth-first order with at most `bound` preemptions, or None.
pub fn next_prefix(log: &[EnumStep], bound: usize) -> Option<Vec<usize>> {
  let mut i = log.len();
  while i > 0 {
    i -= 1;
    let s = &log[i];
    if s.k + 1 < s.n {
      let pre: usize = log[..i].iter().filter(|x| x.preempt && x.k != 0).count();
      let cost = if s.preempt { 1 } else { 0 };
      if pre + cost <= bound {
        let mut p: Vec<usize> = log[..i].iter().map(|x| x.k).collect();
        p.push(s.k + 1);
        return Some(p);
      }
    }
  }
  None
}

/// Greedy tape shrinker: `fails` says whether a tape still fails and returns the tape it used.
pub fn shrink(start: Tape, budget: usize, fails: &mut dyn FnMut(&Tape) -> Option<Tape>) -> Tape {
  let mut best = start;
  let mut left = budget;
  let better = |a: &Tape, b: &Tape| -> bool {
    let nz = |t: &Tape| t.sch.iter().filter(|x| **x != 0).count();
    let sum = |t: &Tape| t.inp.iter().map(|x| *x as u64).sum::<u64>();
    (a.inp.len(), sum(a), nz(a), a.sch.len()) < (b.inp.len(), sum(b), nz(b), b.sch.len())
  };
  let mut try_one = |cand: Tape, best: &mut Tape, left: &mut usize| -> bool {
    if *left == 0 {
      return false;
    }
    *left -= 1;
    if let Some(used) = fails(&cand) {
      if better(&used, best) {
        *best = used;
        return true;
      } else if better(&cand, best) {
        *best = cand;
        return true;
      }
    }
    false
  };
  loop {
    let mut improved = false;
    // drop the schedule altogether
    if best.sch.iter().any(|x| *x != 0) {
      let mut c = best.clone();
      c.sch.clear();
      improved |= try_one(c, &mut best, &mut left);
    }
    // delete chunks of the input tape
    for size in [16usize, 8, 4, 3, 2, 1] {
      let mut i = best.inp.len();
      while i > 0 && left > 0 {
        let lo = i.saturating_sub(size);
        if lo < best.inp.len() {
          let mut c = best.clone();
          let hi = i.min(c.inp.len());
          c.inp.drain(lo..hi);
          if try_one(c, &mut best, &mut left) {
            improved = true;
          }
        }
        i = lo;
      }
    }
    // lower values
    let mut i = 0;
    while i < best.inp.len() && left > 0 {
      let v = best.inp[i];
      if v > 0 {
        for nv in [0, v / 2, v - 1] {
          if nv < v {
            let mut c = best.clone();
            c.inp[i] = nv;
            if try_one(c, &mut best, &mut left) {
              improved = true;
              break;
            }
          }
        }
      }
      i += 1;
    }
    // zero schedule chunks
    for size in [64usize, 16, 4, 1] {
      let mut i = 0;
      while i < best.sch.len() && left > 0 {
        let hi = (i + size).min(best.sch.len());
        if best.sch[i..hi].iter().any(|x| *x != 0) {
          let mut c = best.clone();
          for x in &mut c.sch[i..hi] {
            *x = 0;
          }
          if try_one(c, &mut best, &mut left) {
            improved = true;
          }
        }
        i = hi;
      }
    }
    if !improved || left == 0 {
      break;
    }
  }
  best
}

//! Item type, error payloads, live counters and the fixed families of user functions.
use another_rxrust::prelude::*;
use std::cell::{Cell, RefCell};
use std::cmp::Ordering;
use std::fmt;
use std::rc::Rc;

// ---- live counters -------------------------------------------------------------------------
pub const ITEM: usize = 0;
pub const CLOSURE: usize = 1;
pub const ERROR: usize = 2;
thread_local! {
  static LIVE: Cell<[i64; 3]> = const { Cell::new([0; 3]) };
}
pub fn live() -> [i64; 3] {
  LIVE.with(|l| l.get())
}
fn live_add(k: usize, n: i64) {
  let _ = LIVE.try_with(|l| {
    let mut a = l.get();
    a[k] += n;
    l.set(a);
  });
}
/// counts its live copies
pub struct Cnt(usize);
impl Cnt {
  pub fn new(k: usize) -> Cnt {
    live_add(k, 1);
    Cnt(k)
  }
}
impl Clone for Cnt {
  fn clone(&self) -> Cnt {
    Cnt::new(self.0)
  }
}
impl Drop for Cnt {
  fn drop(&mut self) {
    live_add(self.0, -1);
  }
}
/// token captured by every closure handed to the library
pub fn tok() -> Cnt {
  Cnt::new(CLOSURE)
}

// ---- shared harness state ------------------------------------------------------------------
/// Harness state captured by the closures given to the library. All virtual threads run on one
/// OS thread, so the unsafe impls are sound here.
pub struct Sh<T>(pub Rc<RefCell<T>>);
unsafe impl<T> Send for Sh<T> {}
unsafe impl<T> Sync for Sh<T> {}
impl<T> Clone for Sh<T> {
  fn clone(&self) -> Self {
    Sh(self.0.clone())
  }
}
impl<T> Sh<T> {
  pub fn new(t: T) -> Sh<T> {
    Sh(Rc::new(RefCell::new(t)))
  }
  pub fn with<R>(&self, f: impl FnOnce(&mut T) -> R) -> R {
    f(&mut self.0.borrow_mut())
  }
}
impl<T: Clone> Sh<T> {
  pub fn get(&self) -> T {
    self.0.borrow().clone()
  }
}
impl<T> Sh<T> {
  pub fn set(&self, t: T) {
    *self.0.borrow_mut() = t;
  }
}

// ---- errors --------------------------------------------------------------------------------
pub struct Payload {
  pub code: i64,
  pub uid: u64,
  _c: Cnt,
}
impl fmt::Debug for Payload {
  fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
    write!(f, "E{}u{}", self.code, self.uid)
  }
}
impl Payload {
  pub fn new(code: i64, uid: u64) -> Payload {
    Payload { code, uid, _c: Cnt::new(ERROR) }
  }
}
pub fn rx_error(code: i64, uid: u64) -> RxError {
  RxError::from_error(Payload::new(code, uid))
}
/// An error as seen by the harness: (code, uid) of the payload; -1/0 when the payload is not ours.
#[derive(Clone)]
pub struct Er {
  pub code: i64,
  pub uid: u64,
  pub rx: Option<RxError>,
}
impl Er {
  pub fn new(code: i64, uid: u64) -> Er {
    Er { code, uid, rx: None }
  }
  pub fn from_rx(e: &RxError) -> Er {
    match e.downcast_ref::<Payload>() {
      Some(p) => Er { code: p.code, uid: p.uid, rx: Some(e.clone()) },
      None => Er { code: -1, uid: 0, rx: Some(e.clone()) },
    }
  }
  pub fn to_rx(&self) -> RxError {
    match &self.rx {
      Some(e) => e.clone(),
      None => rx_error(self.code, self.uid),
    }
  }
  /// the same error without a handle on the library's object
  pub fn plain(&self) -> Er {
    Er::new(self.code, self.uid)
  }
}
impl PartialEq for Er {
  fn eq(&self, o: &Er) -> bool {
    self.code == o.code && self.uid == o.uid
  }
}
impl fmt::Debug for Er {
  fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
    if self.code == -1 {
      write!(f, "E?")
    } else {
      write!(f, "E{}.{}", self.code, self.uid)
    }
  }
}

// ---- items ---------------------------------------------------------------------------------
#[derive(Clone, PartialEq)]
pub enum K {
  I(i64),
  B(bool),
  L(Vec<V>),
  /// (sum, count)
  P(Box<V>, usize),
  MN(Box<V>),
  ME(Er),
  MC,
  U,
}
#[derive(Clone)]
pub struct V {
  pub k: K,
  _c: Cnt,
}
impl V {
  pub fn new(k: K) -> V {
    V { k, _c: Cnt::new(ITEM) }
  }
  pub fn i(x: i64) -> V {
    V::new(K::I(x))
  }
  pub fn b(x: bool) -> V {
    V::new(K::B(x))
  }
  /// a list; one with more than 60 values in it becomes a number (feedback loops would
  /// otherwise build values of exponential size)
  pub fn l(x: Vec<V>) -> V {
    let v = V::new(K::L(x));
    let mut left = 60;
    if v.fits(&mut left) {
      v
    } else {
      V::i(v.num())
    }
  }
  fn fits(&self, left: &mut u32) -> bool {
    if *left == 0 {
      return false;
    }
    *left -= 1;
    match &self.k {
      K::L(v) => v.iter().all(|x| x.fits(left)),
      K::P(a, _) | K::MN(a) => a.fits(left),
      _ => true,
    }
  }
  pub fn num(&self) -> i64 {
    match &self.k {
      K::I(x) => *x,
      K::B(b) => *b as i64,
      K::L(v) => v.iter().fold(v.len() as i64, |a, x| (a.wrapping_mul(3) + x.num()) % 1_000_003),
      K::P(a, n) => (a.num() + *n as i64) % 1_000_003,
      K::MN(a) => a.num(),
      K::ME(e) => 100 + e.code,
      K::MC => 99,
      K::U => 7,
    }
  }
  fn tag(&self) -> u8 {
    match &self.k {
      K::I(_) => 0,
      K::B(_) => 1,
      K::L(_) => 2,
      K::P(..) => 3,
      K::MN(_) => 4,
      K::ME(_) => 5,
      K::MC => 6,
      K::U => 7,
    }
  }
  pub fn mat(m: Material<V>) -> V {
    match m {
      Material::Next(v) => V::new(K::MN(Box::new(v))),
      Material::Error(e) => V::new(K::ME(Er::from_rx(&e))),
      Material::Complete => V::new(K::MC),
    }
  }
  pub fn to_mat(self) -> Material<V> {
    match &self.k {
      K::MN(v) => Material::Next((**v).clone()),
      K::ME(e) => Material::Error(e.to_rx()),
      K::MC => Material::Complete,
      _ => Material::Next(self),
    }
  }
  /// copy without handles on library objects and not counted twice
  pub fn plain(&self) -> V {
    V::new(match &self.k {
      K::L(v) => K::L(v.iter().map(|x| x.plain()).collect()),
      K::P(a, n) => K::P(Box::new(a.plain()), *n),
      K::MN(a) => K::MN(Box::new(a.plain())),
      K::ME(e) => K::ME(e.plain()),
      k => k.clone(),
    })
  }
}
impl PartialEq for V {
  fn eq(&self, o: &V) -> bool {
    self.k == o.k
  }
}
impl PartialOrd for V {
  fn partial_cmp(&self, o: &V) -> Option<Ordering> {
    Some((self.num(), self.tag()).cmp(&(o.num(), o.tag())))
  }
}
impl std::ops::Add for V {
  type Output = V;
  fn add(self, o: V) -> V {
    V::i((self.num() + o.num()) % 1_000_003)
  }
}
impl fmt::Debug for V {
  fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
    match &self.k {
      K::I(x) => write!(f, "{}", x),
      K::B(b) => write!(f, "{}", b),
      K::L(v) => write!(f, "{:?}", v),
      K::P(a, n) => write!(f, "<{:?},{}>", a, n),
      K::MN(a) => write!(f, "M({:?})", a),
      K::ME(e) => write!(f, "M({:?})", e),
      K::MC => write!(f, "M(C)"),
      K::U => write!(f, "()"),
    }
  }
}

// ---- events --------------------------------------------------------------------------------
#[derive(Clone, PartialEq)]
pub enum Ev {
  N(V),
  E(Er),
  C,
}
impl fmt::Debug for Ev {
  fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
    match self {
      Ev::N(v) => write!(f, "{:?}", v),
      Ev::E(e) => write!(f, "!{:?}", e),
      Ev::C => write!(f, "C"),
    }
  }
}
impl Ev {
  pub fn terminal(&self) -> bool {
    !matches!(self, Ev::N(_))
  }
  pub fn plain(&self) -> Ev {
    match self {
      Ev::N(v) => Ev::N(v.plain()),
      Ev::E(e) => Ev::E(e.plain()),
      Ev::C => Ev::C,
    }
  }
}

// ---- function families ---------------------------------------------------------------------
pub const NF1: u32 = 6;
pub fn f1(id: u32, v: V) -> V {
  match id % NF1 {
    0 => V::i(v.num() + 1),
    1 => V::i((v.num() * 2) % 1_000_003),
    2 => V::i(v.num().rem_euclid(3)),
    3 => V::l(vec![v]),
    4 => V::i(0),
    _ => V::i(-v.num()),
  }
}
pub const NP: u32 = 7;
pub fn pred(id: u32, v: &V) -> bool {
  let n = v.num();
  match id % NP {
    0 => n % 2 == 0,
    1 => n < 2,
    2 => true,
    3 => false,
    4 => n != 1,
    5 => n > 2,
    _ => n % 3 != 2,
  }
}
pub const NF2: u32 = 5;
pub fn f2(id: u32, a: V, b: V) -> V {
  match id % NF2 {
    0 => V::i((a.num() + b.num()) % 1_000_003),
    1 => V::i((a.num() * 10 + b.num()) % 1_000_003),
    2 => {
      if b > a {
        b
      } else {
        a
      }
    }
    3 => V::i((a.num() - b.num()) % 1_000_003),
    _ => V::l(vec![a, b]),
  }
}
pub const NKEY: u32 = 3;
pub fn key(id: u32, v: &V) -> i64 {
  match id % NKEY {
    0 => v.num().rem_euclid(2),
    1 => v.num().rem_euclid(3),
    _ => 0,
  }
}
pub const NPE: u32 = 4;
pub fn pred_e(id: u32, code: i64) -> bool {
  match id % NPE {
    0 => code % 2 == 0,
    1 => code < 2,
    2 => code != 1,
    _ => false,
  }
}

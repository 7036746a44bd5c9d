//! HashMap/HashSet with a hash seed owned by the harness (iteration order is otherwise random).
pub use ::std::collections::*;
use ::std::borrow::Borrow;
use ::std::fmt;
use ::std::hash::{BuildHasher, Hash, Hasher};
use ::std::ops::{Deref, DerefMut, Index};

#[derive(Clone, Copy)]
pub struct VpState(u64);
impl Default for VpState {
  fn default() -> Self {
    VpState(crate::vprt::hash_seed())
  }
}
pub struct VpHasher(u64);
impl Hasher for VpHasher {
  fn finish(&self) -> u64 {
    let mut z = self.0;
    z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
    z ^ (z >> 31)
  }
  fn write(&mut self, b: &[u8]) {
    for x in b {
      self.0 = (self.0 ^ (*x as u64)).wrapping_mul(0x100000001b3).rotate_left(7);
    }
  }
}
impl BuildHasher for VpState {
  type Hasher = VpHasher;
  fn build_hasher(&self) -> VpHasher {
    VpHasher(self.0.wrapping_mul(0x9E3779B97F4A7C15) ^ 0xcbf29ce484222325)
  }
}

pub struct HashMap<K, V, S = VpState>(::std::collections::HashMap<K, V, S>);
impl<K, V, S> HashMap<K, V, S> {
  pub fn with_hasher(s: S) -> Self {
    HashMap(::std::collections::HashMap::with_hasher(s))
  }
  pub fn with_capacity_and_hasher(n: usize, s: S) -> Self {
    HashMap(::std::collections::HashMap::with_capacity_and_hasher(n, s))
  }
  pub fn into_keys(self) -> hash_map::IntoKeys<K, V> {
    self.0.into_keys()
  }
  pub fn into_values(self) -> hash_map::IntoValues<K, V> {
    self.0.into_values()
  }
}
impl<K, V> HashMap<K, V> {
  pub fn new() -> Self {
    HashMap(::std::collections::HashMap::with_hasher(VpState::default()))
  }
  pub fn with_capacity(n: usize) -> Self {
    HashMap(::std::collections::HashMap::with_capacity_and_hasher(n, VpState::default()))
  }
}
impl<K, V, S> Deref for HashMap<K, V, S> {
  type Target = ::std::collections::HashMap<K, V, S>;
  fn deref(&self) -> &Self::Target {
    &self.0
  }
}
impl<K, V, S> DerefMut for HashMap<K, V, S> {
  fn deref_mut(&mut self) -> &mut Self::Target {
    &mut self.0
  }
}
impl<K, V, S: Default> Default for HashMap<K, V, S> {
  fn default() -> Self {
    HashMap(Default::default())
  }
}
impl<K: Clone, V: Clone, S: Clone> Clone for HashMap<K, V, S> {
  fn clone(&self) -> Self {
    HashMap(self.0.clone())
  }
}
impl<K: fmt::Debug, V: fmt::Debug, S> fmt::Debug for HashMap<K, V, S> {
  fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
    self.0.fmt(f)
  }
}
impl<K: Eq + Hash, V: PartialEq, S: BuildHasher> PartialEq for HashMap<K, V, S> {
  fn eq(&self, o: &Self) -> bool {
    self.0 == o.0
  }
}
impl<K: Eq + Hash, V, S: BuildHasher + Default> FromIterator<(K, V)> for HashMap<K, V, S> {
  fn from_iter<I: IntoIterator<Item = (K, V)>>(i: I) -> Self {
    let mut m: Self = HashMap(Default::default());
    m.0.extend(i);
    m
  }
}
impl<K: Eq + Hash, V, S: BuildHasher> Extend<(K, V)> for HashMap<K, V, S> {
  fn extend<I: IntoIterator<Item = (K, V)>>(&mut self, i: I) {
    self.0.extend(i)
  }
}
impl<K: Eq + Hash, V, const N: usize> From<[(K, V); N]> for HashMap<K, V> {
  fn from(a: [(K, V); N]) -> Self {
    a.into_iter().collect()
  }
}
impl<K, V, S> IntoIterator for HashMap<K, V, S> {
  type Item = (K, V);
  type IntoIter = hash_map::IntoIter<K, V>;
  fn into_iter(self) -> Self::IntoIter {
    self.0.into_iter()
  }
}
impl<'a, K, V, S> IntoIterator for &'a HashMap<K, V, S> {
  type Item = (&'a K, &'a V);
  type IntoIter = hash_map::Iter<'a, K, V>;
  fn into_iter(self) -> Self::IntoIter {
    self.0.iter()
  }
}
impl<'a, K, V, S> IntoIterator for &'a mut HashMap<K, V, S> {
  type Item = (&'a K, &'a mut V);
  type IntoIter = hash_map::IterMut<'a, K, V>;
  fn into_iter(self) -> Self::IntoIter {
    self.0.iter_mut()
  }
}
impl<K: Eq + Hash + Borrow<Q>, Q: Eq + Hash + ?Sized, V, S: BuildHasher> Index<&Q> for HashMap<K, V, S> {
  type Output = V;
  fn index(&self, k: &Q) -> &V {
    &self.0[k]
  }
}

pub struct HashSet<T>(::std::collections::HashSet<T, VpState>);
impl<T> HashSet<T> {
  pub fn new() -> Self {
    HashSet(::std::collections::HashSet::with_hasher(VpState::default()))
  }
  pub fn with_capacity(n: usize) -> Self {
    HashSet(::std::collections::HashSet::with_capacity_and_hasher(n, VpState::default()))
  }
}
impl<T> Deref for HashSet<T> {
  type Target = ::std::collections::HashSet<T, VpState>;
  fn deref(&self) -> &Self::Target {
    &self.0
  }
}
impl<T> DerefMut for HashSet<T> {
  fn deref_mut(&mut self) -> &mut Self::Target {
    &mut self.0
  }
}
impl<T> Default for HashSet<T> {
  fn default() -> Self {
    HashSet::new()
  }
}
impl<T: Clone> Clone for HashSet<T> {
  fn clone(&self) -> Self {
    HashSet(self.0.clone())
  }
}
impl<T: fmt::Debug> fmt::Debug for HashSet<T> {
  fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
    self.0.fmt(f)
  }
}
impl<T: Eq + Hash> FromIterator<T> for HashSet<T> {
  fn from_iter<I: IntoIterator<Item = T>>(i: I) -> Self {
    let mut m = HashSet::new();
    m.0.extend(i);
    m
  }
}
impl<T: Eq + Hash> Extend<T> for HashSet<T> {
  fn extend<I: IntoIterator<Item = T>>(&mut self, i: I) {
    self.0.extend(i)
  }
}
impl<T> IntoIterator for HashSet<T> {
  type Item = T;
  type IntoIter = hash_set::IntoIter<T>;
  fn into_iter(self) -> Self::IntoIter {
    self.0.into_iter()
  }
}
impl<'a, T> IntoIterator for &'a HashSet<T> {
  type Item = &'a T;
  type IntoIter = hash_set::Iter<'a, T>;
  fn into_iter(self) -> Self::IntoIter {
    self.0.iter()
  }
}
impl<T: Eq + Hash, const N: usize> From<[T; N]> for HashSet<T> {
  fn from(a: [T; N]) -> Self {
    a.into_iter().collect()
  }
}
impl<T: Eq + Hash> PartialEq for HashSet<T> {
  fn eq(&self, o: &Self) -> bool {
    self.0 == o.0
  }
}
impl<T: Eq + Hash> Eq for HashSet<T> {}
impl<'a, T: Eq + Hash + Copy + 'a> Extend<&'a T> for HashSet<T> {
  fn extend<I: IntoIterator<Item = &'a T>>(&mut self, i: I) {
    self.0.extend(i)
  }
}

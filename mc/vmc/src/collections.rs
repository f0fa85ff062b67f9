pub use std::collections::*;

/// Hash maps iterate in an order that only depends on their content and history, so that executions can be replayed.
#[derive(Clone, Default, Debug)]
pub struct Fixed;
impl std::hash::BuildHasher for Fixed {
    type Hasher = std::collections::hash_map::DefaultHasher;
    fn build_hasher(&self) -> Self::Hasher {
        std::collections::hash_map::DefaultHasher::new()
    }
}

use std::borrow::Borrow;
use std::collections as real;
use std::hash::Hash;
use std::ops::{Deref, DerefMut, Index};

pub mod hash_map {
    pub use super::{Fixed as RandomState, HashMap};
    pub use std::collections::hash_map::{DefaultHasher, Entry, IntoIter, IntoKeys, IntoValues, Iter, IterMut, Keys, OccupiedEntry, VacantEntry, Values, ValuesMut, Drain};
}
pub mod hash_set {
    pub use super::HashSet;
    pub use std::collections::hash_set::{Drain, IntoIter, Iter};
}

#[derive(Clone)]
pub struct HashMap<K, V>(real::HashMap<K, V, Fixed>);
impl<K, V> HashMap<K, V> {
    pub fn new() -> Self {
        HashMap(real::HashMap::with_hasher(Fixed))
    }
    pub fn with_capacity(n: usize) -> Self {
        HashMap(real::HashMap::with_capacity_and_hasher(n, Fixed))
    }
    pub fn into_keys(self) -> real::hash_map::IntoKeys<K, V> {
        self.0.into_keys()
    }
    pub fn into_values(self) -> real::hash_map::IntoValues<K, V> {
        self.0.into_values()
    }
}
impl<K, V> Default for HashMap<K, V> {
    fn default() -> Self {
        Self::new()
    }
}
impl<K, V> Deref for HashMap<K, V> {
    type Target = real::HashMap<K, V, Fixed>;
    fn deref(&self) -> &Self::Target {
        &self.0
    }
}
impl<K, V> DerefMut for HashMap<K, V> {
    fn deref_mut(&mut self) -> &mut Self::Target {
        &mut self.0
    }
}
impl<K: Eq + Hash + Borrow<Q>, Q: Eq + Hash + ?Sized, V> Index<&Q> for HashMap<K, V> {
    type Output = V;
    fn index(&self, k: &Q) -> &V {
        &self.0[k]
    }
}
impl<K, V> IntoIterator for HashMap<K, V> {
    type Item = (K, V);
    type IntoIter = real::hash_map::IntoIter<K, V>;
    fn into_iter(self) -> Self::IntoIter {
        self.0.into_iter()
    }
}
impl<'a, K, V> IntoIterator for &'a HashMap<K, V> {
    type Item = (&'a K, &'a V);
    type IntoIter = real::hash_map::Iter<'a, K, V>;
    fn into_iter(self) -> Self::IntoIter {
        self.0.iter()
    }
}
impl<'a, K, V> IntoIterator for &'a mut HashMap<K, V> {
    type Item = (&'a K, &'a mut V);
    type IntoIter = real::hash_map::IterMut<'a, K, V>;
    fn into_iter(self) -> Self::IntoIter {
        self.0.iter_mut()
    }
}
impl<K: Eq + Hash, V> FromIterator<(K, V)> for HashMap<K, V> {
    fn from_iter<I: IntoIterator<Item = (K, V)>>(i: I) -> Self {
        let mut m = Self::new();
        m.0.extend(i);
        m
    }
}
impl<K: Eq + Hash, V> Extend<(K, V)> for HashMap<K, V> {
    fn extend<I: IntoIterator<Item = (K, V)>>(&mut self, i: I) {
        self.0.extend(i)
    }
}
impl<K: Eq + Hash, V: PartialEq> PartialEq for HashMap<K, V> {
    fn eq(&self, o: &Self) -> bool {
        self.0 == o.0
    }
}
impl<K: std::fmt::Debug, V: std::fmt::Debug> std::fmt::Debug for HashMap<K, V> {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        self.0.fmt(f)
    }
}

#[derive(Clone)]
pub struct HashSet<K>(real::HashSet<K, Fixed>);
impl<K> HashSet<K> {
    pub fn new() -> Self {
        HashSet(real::HashSet::with_hasher(Fixed))
    }
    pub fn with_capacity(n: usize) -> Self {
        HashSet(real::HashSet::with_capacity_and_hasher(n, Fixed))
    }
}
impl<K> Default for HashSet<K> {
    fn default() -> Self {
        Self::new()
    }
}
impl<K> Deref for HashSet<K> {
    type Target = real::HashSet<K, Fixed>;
    fn deref(&self) -> &Self::Target {
        &self.0
    }
}
impl<K> DerefMut for HashSet<K> {
    fn deref_mut(&mut self) -> &mut Self::Target {
        &mut self.0
    }
}
impl<K> IntoIterator for HashSet<K> {
    type Item = K;
    type IntoIter = real::hash_set::IntoIter<K>;
    fn into_iter(self) -> Self::IntoIter {
        self.0.into_iter()
    }
}
impl<'a, K> IntoIterator for &'a HashSet<K> {
    type Item = &'a K;
    type IntoIter = real::hash_set::Iter<'a, K>;
    fn into_iter(self) -> Self::IntoIter {
        self.0.iter()
    }
}
impl<K: Eq + Hash> FromIterator<K> for HashSet<K> {
    fn from_iter<I: IntoIterator<Item = K>>(i: I) -> Self {
        let mut m = Self::new();
        m.0.extend(i);
        m
    }
}

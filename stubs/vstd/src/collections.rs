pub use ::std::collections::*;
use ::std::borrow::Borrow;
use ::std::fmt::{self, Debug};
use ::std::hash::Hash;
use ::std::marker::PhantomData;

pub use ::std::collections::hash_map::RandomState;

pub mod hash_map {
    pub use super::{Entry, HashMap, OccupiedEntry, VacantEntry};
    pub use ::std::collections::hash_map::{DefaultHasher, RandomState};
}
pub mod hash_set {
    pub use super::HashSet;
}

pub struct HashSet<T, S = RandomState> {
    v: Vec<T>,
    s: PhantomData<S>,
}

impl<T: Clone, S> Clone for HashSet<T, S> {
    fn clone(&self) -> Self {
        HashSet { v: self.v.clone(), s: PhantomData }
    }
}
impl<T: Debug, S> Debug for HashSet<T, S> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.debug_set().entries(self.v.iter()).finish()
    }
}
impl<T, S> Default for HashSet<T, S> {
    fn default() -> Self {
        HashSet { v: Vec::new(), s: PhantomData }
    }
}
impl<T> HashSet<T, RandomState> {
    pub fn new() -> Self {
        Self::default()
    }
    pub fn with_capacity(n: usize) -> Self {
        HashSet { v: Vec::with_capacity(n), s: PhantomData }
    }
}
impl<T, S> HashSet<T, S> {
    pub fn len(&self) -> usize {
        self.v.len()
    }
    pub fn is_empty(&self) -> bool {
        self.v.is_empty()
    }
    pub fn iter(&self) -> ::std::slice::Iter<'_, T> {
        self.v.iter()
    }
    pub fn clear(&mut self) {
        self.v.clear()
    }
    pub fn drain(&mut self) -> ::std::vec::Drain<'_, T> {
        self.v.drain(..)
    }
    pub fn with_hasher(_s: S) -> Self {
        Self::default()
    }
    pub fn with_capacity_and_hasher(n: usize, _s: S) -> Self {
        HashSet { v: Vec::with_capacity(n), s: PhantomData }
    }
    pub fn capacity(&self) -> usize {
        self.v.capacity()
    }
    pub fn shrink_to_fit(&mut self) {}
    pub fn reserve(&mut self, _n: usize) {}
    pub fn retain<F: FnMut(&T) -> bool>(&mut self, f: F) {
        self.v.retain(f)
    }
}
impl<T: Eq + Hash, S> HashSet<T, S> {
    pub fn contains<Q: ?Sized + Eq + Hash>(&self, k: &Q) -> bool
    where
        T: Borrow<Q>,
    {
        let mut found = false;
        for x in &self.v {
            found |= x.borrow() == k;
        }
        found
    }
    pub fn get<Q: ?Sized + Eq + Hash>(&self, k: &Q) -> Option<&T>
    where
        T: Borrow<Q>,
    {
        self.v.iter().find(|x| (*x).borrow() == k)
    }
    pub fn insert(&mut self, k: T) -> bool {
        if self.contains(&k) {
            false
        } else {
            self.v.push(k);
            true
        }
    }
    pub fn remove<Q: ?Sized + Eq + Hash>(&mut self, k: &Q) -> bool
    where
        T: Borrow<Q>,
    {
        match self.v.iter().position(|x| x.borrow() == k) {
            Some(i) => {
                self.v.remove(i);
                true
            }
            None => false,
        }
    }
    pub fn take<Q: ?Sized + Eq + Hash>(&mut self, k: &Q) -> Option<T>
    where
        T: Borrow<Q>,
    {
        self.v.iter().position(|x| x.borrow() == k).map(|i| self.v.remove(i))
    }
    pub fn replace(&mut self, k: T) -> Option<T> {
        let old = self.take(&k);
        self.v.push(k);
        old
    }
    pub fn get_or_insert_with<F: FnOnce() -> T>(&mut self, f: F) -> &T {
        let k = f();
        let i = match self.v.iter().position(|x| *x == k) {
            Some(i) => i,
            None => {
                self.v.push(k);
                self.v.len() - 1
            }
        };
        &self.v[i]
    }
    pub fn symmetric_difference<'a>(&'a self, o: &'a HashSet<T, S>) -> impl Iterator<Item = &'a T> + 'a {
        self.difference(o).chain(o.difference(self))
    }
    pub fn is_subset<S2>(&self, o: &HashSet<T, S2>) -> bool {
        self.v.iter().all(|x| o.contains(x))
    }
    pub fn is_superset<S2>(&self, o: &HashSet<T, S2>) -> bool {
        o.is_subset(self)
    }
    pub fn is_disjoint<S2>(&self, o: &HashSet<T, S2>) -> bool {
        !self.v.iter().any(|x| o.contains(x))
    }
    pub fn union<'a>(&'a self, o: &'a HashSet<T, S>) -> impl Iterator<Item = &'a T> + 'a {
        self.v.iter().chain(o.v.iter().filter(move |x| !self.contains(*x)))
    }
    pub fn intersection<'a>(&'a self, o: &'a HashSet<T, S>) -> impl Iterator<Item = &'a T> + 'a {
        self.v.iter().filter(move |x| o.contains(*x))
    }
    pub fn difference<'a>(&'a self, o: &'a HashSet<T, S>) -> impl Iterator<Item = &'a T> + 'a {
        self.v.iter().filter(move |x| !o.contains(*x))
    }
}
impl<T: Eq + Hash, S> PartialEq for HashSet<T, S> {
    fn eq(&self, o: &Self) -> bool {
        self.len() == o.len() && self.is_subset(o)
    }
}
impl<T: Eq + Hash, S> Eq for HashSet<T, S> {}
impl<T: Eq + Hash, S> Extend<T> for HashSet<T, S> {
    fn extend<I: IntoIterator<Item = T>>(&mut self, it: I) {
        for x in it {
            self.insert(x);
        }
    }
}
impl<'a, T: Eq + Hash + Copy + 'a, S> Extend<&'a T> for HashSet<T, S> {
    fn extend<I: IntoIterator<Item = &'a T>>(&mut self, it: I) {
        for x in it {
            self.insert(*x);
        }
    }
}
impl<T: Eq + Hash, S> FromIterator<T> for HashSet<T, S> {
    fn from_iter<I: IntoIterator<Item = T>>(it: I) -> Self {
        let mut s = Self::default();
        s.extend(it);
        s
    }
}
impl<T: Eq + Hash, const N: usize> From<[T; N]> for HashSet<T, RandomState> {
    fn from(a: [T; N]) -> Self {
        a.into_iter().collect()
    }
}
impl<T: Eq + Hash + Clone, S> ::std::ops::BitOr<&HashSet<T, S>> for &HashSet<T, S> {
    type Output = HashSet<T, S>;
    fn bitor(self, o: &HashSet<T, S>) -> HashSet<T, S> {
        self.union(o).cloned().collect()
    }
}
impl<T: Eq + Hash + Clone, S> ::std::ops::BitAnd<&HashSet<T, S>> for &HashSet<T, S> {
    type Output = HashSet<T, S>;
    fn bitand(self, o: &HashSet<T, S>) -> HashSet<T, S> {
        self.intersection(o).cloned().collect()
    }
}
impl<T: Eq + Hash + Clone, S> ::std::ops::Sub<&HashSet<T, S>> for &HashSet<T, S> {
    type Output = HashSet<T, S>;
    fn sub(self, o: &HashSet<T, S>) -> HashSet<T, S> {
        self.difference(o).cloned().collect()
    }
}
impl<T, S> IntoIterator for HashSet<T, S> {
    type Item = T;
    type IntoIter = ::std::vec::IntoIter<T>;
    fn into_iter(self) -> Self::IntoIter {
        self.v.into_iter()
    }
}
impl<'a, T, S> IntoIterator for &'a HashSet<T, S> {
    type Item = &'a T;
    type IntoIter = ::std::slice::Iter<'a, T>;
    fn into_iter(self) -> Self::IntoIter {
        self.v.iter()
    }
}

pub struct HashMap<K, V, S = RandomState> {
    v: Vec<(K, V)>,
    s: PhantomData<S>,
}
impl<K: Clone, V: Clone, S> Clone for HashMap<K, V, S> {
    fn clone(&self) -> Self {
        HashMap { v: self.v.clone(), s: PhantomData }
    }
}
impl<K: Debug, V: Debug, S> Debug for HashMap<K, V, S> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.debug_map().entries(self.v.iter().map(|(k, v)| (k, v))).finish()
    }
}
impl<K, V, S> Default for HashMap<K, V, S> {
    fn default() -> Self {
        HashMap { v: Vec::new(), s: PhantomData }
    }
}
impl<K, V> HashMap<K, V, RandomState> {
    pub fn new() -> Self {
        Self::default()
    }
    pub fn with_capacity(n: usize) -> Self {
        HashMap { v: Vec::with_capacity(n), s: PhantomData }
    }
}
impl<K, V, S> HashMap<K, V, S> {
    pub fn len(&self) -> usize {
        self.v.len()
    }
    pub fn is_empty(&self) -> bool {
        self.v.is_empty()
    }
    pub fn clear(&mut self) {
        self.v.clear()
    }
    pub fn iter(&self) -> MapIter<'_, K, V> {
        MapIter(self.v.iter())
    }
    pub fn iter_mut(&mut self) -> MapIterMut<'_, K, V> {
        MapIterMut(self.v.iter_mut())
    }
    pub fn drain(&mut self) -> ::std::vec::Drain<'_, (K, V)> {
        self.v.drain(..)
    }
    pub fn capacity(&self) -> usize {
        self.v.capacity()
    }
    pub fn shrink_to_fit(&mut self) {}
    pub fn keys(&self) -> impl Iterator<Item = &K> + '_ {
        self.v.iter().map(|(k, _)| k)
    }
    pub fn values(&self) -> impl Iterator<Item = &V> + '_ {
        self.v.iter().map(|(_, v)| v)
    }
    pub fn values_mut(&mut self) -> impl Iterator<Item = &mut V> + '_ {
        self.v.iter_mut().map(|(_, v)| v)
    }
    pub fn into_keys(self) -> impl Iterator<Item = K> {
        self.v.into_iter().map(|(k, _)| k)
    }
    pub fn into_values(self) -> impl Iterator<Item = V> {
        self.v.into_iter().map(|(_, v)| v)
    }
    pub fn with_hasher(_s: S) -> Self {
        Self::default()
    }
    pub fn with_capacity_and_hasher(n: usize, _s: S) -> Self {
        HashMap { v: Vec::with_capacity(n), s: PhantomData }
    }
    pub fn reserve(&mut self, _n: usize) {}
    pub fn retain<F: FnMut(&K, &mut V) -> bool>(&mut self, mut f: F) {
        self.v.retain_mut(|(k, v)| f(k, v))
    }
}
impl<K: Eq + Hash, V, S> HashMap<K, V, S> {
    fn pos<Q: ?Sized + Eq + Hash>(&self, k: &Q) -> Option<usize>
    where
        K: Borrow<Q>,
    {
        self.v.iter().position(|(x, _)| x.borrow() == k)
    }
    pub fn contains_key<Q: ?Sized + Eq + Hash>(&self, k: &Q) -> bool
    where
        K: Borrow<Q>,
    {
        self.pos(k).is_some()
    }
    pub fn get<Q: ?Sized + Eq + Hash>(&self, k: &Q) -> Option<&V>
    where
        K: Borrow<Q>,
    {
        self.pos(k).map(|i| &self.v[i].1)
    }
    pub fn get_mut<Q: ?Sized + Eq + Hash>(&mut self, k: &Q) -> Option<&mut V>
    where
        K: Borrow<Q>,
    {
        self.pos(k).map(move |i| &mut self.v[i].1)
    }
    pub fn insert(&mut self, k: K, v: V) -> Option<V> {
        match self.pos(&k) {
            Some(i) => Some(::std::mem::replace(&mut self.v[i].1, v)),
            None => {
                self.v.push((k, v));
                None
            }
        }
    }
    pub fn remove<Q: ?Sized + Eq + Hash>(&mut self, k: &Q) -> Option<V>
    where
        K: Borrow<Q>,
    {
        self.pos(k).map(|i| self.v.remove(i).1)
    }
    pub fn get_key_value<Q: ?Sized + Eq + Hash>(&self, k: &Q) -> Option<(&K, &V)>
    where
        K: Borrow<Q>,
    {
        self.pos(k).map(|i| (&self.v[i].0, &self.v[i].1))
    }
    pub fn remove_entry<Q: ?Sized + Eq + Hash>(&mut self, k: &Q) -> Option<(K, V)>
    where
        K: Borrow<Q>,
    {
        self.pos(k).map(|i| self.v.remove(i))
    }
    pub fn entry(&mut self, k: K) -> Entry<'_, K, V> {
        match self.pos(&k) {
            Some(i) => Entry::Occupied(OccupiedEntry { v: &mut self.v, i, k }),
            None => Entry::Vacant(VacantEntry { v: &mut self.v, k }),
        }
    }
}
pub enum Entry<'a, K, V> {
    Occupied(OccupiedEntry<'a, K, V>),
    Vacant(VacantEntry<'a, K, V>),
}
pub struct OccupiedEntry<'a, K, V> {
    v: &'a mut Vec<(K, V)>,
    i: usize,
    k: K,
}
pub struct VacantEntry<'a, K, V> {
    v: &'a mut Vec<(K, V)>,
    k: K,
}
impl<'a, K, V> OccupiedEntry<'a, K, V> {
    pub fn key(&self) -> &K {
        &self.k
    }
    pub fn get(&self) -> &V {
        &self.v[self.i].1
    }
    pub fn get_mut(&mut self) -> &mut V {
        &mut self.v[self.i].1
    }
    pub fn into_mut(self) -> &'a mut V {
        &mut self.v[self.i].1
    }
    pub fn insert(&mut self, v: V) -> V {
        ::std::mem::replace(self.get_mut(), v)
    }
    pub fn remove(self) -> V {
        self.v.remove(self.i).1
    }
    pub fn remove_entry(self) -> (K, V) {
        self.v.remove(self.i)
    }
}
impl<'a, K, V> VacantEntry<'a, K, V> {
    pub fn key(&self) -> &K {
        &self.k
    }
    pub fn into_key(self) -> K {
        self.k
    }
    pub fn insert(self, v: V) -> &'a mut V {
        self.v.push((self.k, v));
        let i = self.v.len() - 1;
        &mut self.v[i].1
    }
}
impl<'a, K, V> Entry<'a, K, V> {
    pub fn key(&self) -> &K {
        match self {
            Entry::Occupied(o) => &o.k,
            Entry::Vacant(v) => &v.k,
        }
    }
    pub fn and_modify<F: FnOnce(&mut V)>(mut self, f: F) -> Self {
        if let Entry::Occupied(o) = &mut self {
            f(o.get_mut());
        }
        self
    }
    pub fn or_insert_with<F: FnOnce() -> V>(self, f: F) -> &'a mut V {
        match self {
            Entry::Occupied(o) => o.into_mut(),
            Entry::Vacant(v) => v.insert(f()),
        }
    }
    pub fn or_insert_with_key<F: FnOnce(&K) -> V>(self, f: F) -> &'a mut V {
        match self {
            Entry::Occupied(o) => o.into_mut(),
            Entry::Vacant(v) => {
                let d = f(&v.k);
                v.insert(d)
            }
        }
    }
    pub fn or_insert(self, d: V) -> &'a mut V {
        self.or_insert_with(|| d)
    }
    pub fn or_default(self) -> &'a mut V
    where
        V: Default,
    {
        self.or_insert_with(V::default)
    }
}
impl<K: Eq + Hash, V, const N: usize> From<[(K, V); N]> for HashMap<K, V, RandomState> {
    fn from(a: [(K, V); N]) -> Self {
        a.into_iter().collect()
    }
}
impl<'a, K: Eq + Hash + Copy + 'a, V: Copy + 'a, S> Extend<(&'a K, &'a V)> for HashMap<K, V, S> {
    fn extend<I: IntoIterator<Item = (&'a K, &'a V)>>(&mut self, it: I) {
        for (k, v) in it {
            self.insert(*k, *v);
        }
    }
}
impl<K: Eq + Hash + Borrow<Q>, Q: ?Sized + Eq + Hash, V, S> ::std::ops::Index<&Q> for HashMap<K, V, S> {
    type Output = V;
    fn index(&self, k: &Q) -> &V {
        self.get(k).expect("no entry found for key")
    }
}
pub struct MapIter<'a, K, V>(::std::slice::Iter<'a, (K, V)>);
impl<'a, K, V> Clone for MapIter<'a, K, V> {
    fn clone(&self) -> Self {
        MapIter(self.0.clone())
    }
}
impl<'a, K, V> Iterator for MapIter<'a, K, V> {
    type Item = (&'a K, &'a V);
    fn next(&mut self) -> Option<Self::Item> {
        self.0.next().map(|(k, v)| (k, v))
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        self.0.size_hint()
    }
}
impl<'a, K, V> ExactSizeIterator for MapIter<'a, K, V> {}
pub struct MapIterMut<'a, K, V>(::std::slice::IterMut<'a, (K, V)>);
impl<'a, K, V> Iterator for MapIterMut<'a, K, V> {
    type Item = (&'a K, &'a mut V);
    fn next(&mut self) -> Option<Self::Item> {
        self.0.next().map(|(k, v)| (&*k, v))
    }
}
impl<'a, K, V, S> IntoIterator for &'a HashMap<K, V, S> {
    type Item = (&'a K, &'a V);
    type IntoIter = MapIter<'a, K, V>;
    fn into_iter(self) -> Self::IntoIter {
        self.iter()
    }
}
impl<'a, K, V, S> IntoIterator for &'a mut HashMap<K, V, S> {
    type Item = (&'a K, &'a mut V);
    type IntoIter = MapIterMut<'a, K, V>;
    fn into_iter(self) -> Self::IntoIter {
        self.iter_mut()
    }
}
impl<K: Eq + Hash, V, S> Extend<(K, V)> for HashMap<K, V, S> {
    fn extend<I: IntoIterator<Item = (K, V)>>(&mut self, it: I) {
        for (k, v) in it {
            self.insert(k, v);
        }
    }
}
impl<K: Eq + Hash, V, S> FromIterator<(K, V)> for HashMap<K, V, S> {
    fn from_iter<I: IntoIterator<Item = (K, V)>>(it: I) -> Self {
        let mut s = Self::default();
        s.extend(it);
        s
    }
}
impl<K, V, S> IntoIterator for HashMap<K, V, S> {
    type Item = (K, V);
    type IntoIter = ::std::vec::IntoIter<(K, V)>;
    fn into_iter(self) -> Self::IntoIter {
        self.v.into_iter()
    }
}
impl<K: Eq + Hash, V: PartialEq, S> PartialEq for HashMap<K, V, S> {
    fn eq(&self, o: &Self) -> bool {
        self.v.len() == o.v.len() && self.v.iter().all(|(k, v)| o.get(k) == Some(v))
    }
}
impl<K: Eq + Hash, V: Eq, S> Eq for HashMap<K, V, S> {}

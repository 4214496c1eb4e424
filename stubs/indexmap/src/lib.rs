//! Model of `indexmap::IndexSet`: an insertion-ordered set over any `BuildHasher`.  Membership is
//! "same hash and ==", as in the real crate; the probing structure (hashbrown) is not modelled.
//! Entries are appended on every insert and marked live or not, so that the slot an entry lands
//! in does not depend on earlier duplicates.
use std::borrow::Borrow;
use std::fmt::{self, Debug};
use std::hash::{BuildHasher, Hash};

pub mod set {
    pub use super::{IndexSet, IntoIter, Iter};
}

struct E<T> {
    hash: u64,
    live: bool,
    v: T,
}
pub struct IndexSet<T, S = std::collections::hash_map::RandomState> {
    e: Vec<E<T>>,
    s: S,
}
impl<T: Clone, S: Clone> Clone for IndexSet<T, S> {
    fn clone(&self) -> Self {
        let mut e = Vec::with_capacity(self.e.len() + 1);
        for x in &self.e {
            e.push(E { hash: x.hash, live: x.live, v: x.v.clone() });
        }
        IndexSet { e, s: self.s.clone() }
    }
}
impl<T: Debug, S> Debug for IndexSet<T, S> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.debug_set().entries(self.iter()).finish()
    }
}
impl<T, S: Default> Default for IndexSet<T, S> {
    fn default() -> Self {
        IndexSet { e: Vec::with_capacity(64), s: S::default() }
    }
}
impl<T> IndexSet<T> {
    pub fn new() -> Self {
        Self::default()
    }
    pub fn with_capacity(_n: usize) -> Self {
        Self::default()
    }
}
impl<T, S> IndexSet<T, S> {
    pub fn with_capacity_and_hasher(_n: usize, s: S) -> Self {
        IndexSet { e: Vec::with_capacity(64), s }
    }
    pub fn with_hasher(s: S) -> Self {
        IndexSet { e: Vec::with_capacity(64), s }
    }
    pub fn len(&self) -> usize {
        let mut n = 0;
        for x in &self.e {
            n += x.live as usize;
        }
        n
    }
    pub fn is_empty(&self) -> bool {
        self.len() == 0
    }
    pub fn iter(&self) -> Iter<'_, T> {
        Iter { e: &self.e, i: 0, j: self.e.len() }
    }
    pub fn clear(&mut self) {
        self.e.clear()
    }
    pub fn reserve(&mut self, _n: usize) {}
    pub fn capacity(&self) -> usize {
        self.e.capacity()
    }
    pub fn shrink_to_fit(&mut self) {}
    pub fn hasher(&self) -> &S {
        &self.s
    }
    pub fn get_index(&self, i: usize) -> Option<&T> {
        self.iter().nth(i)
    }
    pub fn first(&self) -> Option<&T> {
        self.iter().next()
    }
    pub fn last(&self) -> Option<&T> {
        self.iter().next_back()
    }
    pub fn truncate(&mut self, n: usize) {
        let mut k = 0;
        for x in &mut self.e {
            if x.live {
                if k >= n {
                    x.live = false;
                }
                k += 1;
            }
        }
    }
    pub fn retain<F: FnMut(&T) -> bool>(&mut self, mut f: F) {
        for x in &mut self.e {
            if x.live && !f(&x.v) {
                x.live = false;
            }
        }
    }
}
impl<T: Hash + Eq, S: BuildHasher> IndexSet<T, S> {
    fn h<Q: ?Sized + Hash>(&self, k: &Q) -> u64 {
        self.s.hash_one(k)
    }
    pub fn contains<Q: ?Sized + Hash + Eq>(&self, k: &Q) -> bool
    where
        T: Borrow<Q>,
    {
        let h = self.h(k);
        let mut found = false;
        for x in &self.e {
            if x.live && x.hash == h && x.v.borrow() == k {
                found = true;
            }
        }
        found
    }
    pub fn insert(&mut self, v: T) -> bool {
        let hash = self.h(&v);
        let live = !self.contains(&v);
        self.e.push(E { hash, live, v });
        live
    }
    pub fn insert_full(&mut self, v: T) -> (usize, bool) {
        match self.get_index_of(&v) {
            Some(i) => (i, false),
            None => {
                self.insert(v);
                (self.len() - 1, true)
            }
        }
    }
    pub fn get_index_of<Q: ?Sized + Hash + Eq>(&self, k: &Q) -> Option<usize>
    where
        T: Borrow<Q>,
    {
        let h = self.h(k);
        let mut i = 0;
        for x in &self.e {
            if x.live {
                if x.hash == h && x.v.borrow() == k {
                    return Some(i);
                }
                i += 1;
            }
        }
        None
    }
    pub fn get<Q: ?Sized + Hash + Eq>(&self, k: &Q) -> Option<&T>
    where
        T: Borrow<Q>,
    {
        self.get_index_of(k).and_then(|i| self.get_index(i))
    }
    pub fn shift_remove<Q: ?Sized + Hash + Eq>(&mut self, k: &Q) -> bool
    where
        T: Borrow<Q>,
    {
        let h = self.h(k);
        for x in &mut self.e {
            if x.live && x.hash == h && x.v.borrow() == k {
                x.live = false;
                return true;
            }
        }
        false
    }
    fn raw_index(&self, i: usize) -> Option<usize> {
        let mut k = 0;
        for (j, x) in self.e.iter().enumerate() {
            if x.live {
                if k == i {
                    return Some(j);
                }
                k += 1;
            }
        }
        None
    }
    fn raw_of<Q: ?Sized + Hash + Eq>(&self, k: &Q) -> Option<usize>
    where
        T: Borrow<Q>,
    {
        let h = self.h(k);
        self.e.iter().position(|x| x.live && x.hash == h && x.v.borrow() == k)
    }
    fn raw_swap_out(&mut self, j: usize) {
        let last = self.e.iter().rposition(|x| x.live).unwrap();
        self.e.swap(j, last);
        self.e[last].live = false;
    }
    pub fn swap_remove<Q: ?Sized + Hash + Eq>(&mut self, k: &Q) -> bool
    where
        T: Borrow<Q>,
    {
        match self.raw_of(k) {
            Some(j) => {
                self.raw_swap_out(j);
                true
            }
            None => false,
        }
    }
    pub fn shift_remove_index(&mut self, i: usize) -> Option<T> {
        self.raw_index(i).map(|j| self.e.remove(j).v)
    }
    pub fn swap_remove_index(&mut self, i: usize) -> Option<T> {
        self.raw_index(i).map(|j| {
            let last = self.e.iter().rposition(|x| x.live).unwrap();
            self.e.truncate(last + 1);
            self.e.swap_remove(j).v
        })
    }
    pub fn shift_take<Q: ?Sized + Hash + Eq>(&mut self, k: &Q) -> Option<T>
    where
        T: Borrow<Q>,
    {
        self.raw_of(k).map(|j| self.e.remove(j).v)
    }
    pub fn replace(&mut self, v: T) -> Option<T> {
        match self.raw_of(&v) {
            Some(j) => Some(std::mem::replace(&mut self.e[j].v, v)),
            None => {
                self.insert(v);
                None
            }
        }
    }
    pub fn is_subset<S2: BuildHasher>(&self, o: &IndexSet<T, S2>) -> bool {
        self.iter().all(|x| o.contains(x))
    }
    pub fn is_superset<S2: BuildHasher>(&self, o: &IndexSet<T, S2>) -> bool {
        o.is_subset(self)
    }
    pub fn is_disjoint<S2: BuildHasher>(&self, o: &IndexSet<T, S2>) -> bool {
        !self.iter().any(|x| o.contains(x))
    }
    pub fn pop(&mut self) -> Option<T> {
        while let Some(x) = self.e.pop() {
            if x.live {
                return Some(x.v);
            }
        }
        None
    }
}
impl<T: Hash + Eq, S: BuildHasher> Extend<T> for IndexSet<T, S> {
    fn extend<I: IntoIterator<Item = T>>(&mut self, it: I) {
        for x in it {
            self.insert(x);
        }
    }
}
impl<T: Hash + Eq, S: BuildHasher + Default> FromIterator<T> for IndexSet<T, S> {
    fn from_iter<I: IntoIterator<Item = T>>(it: I) -> Self {
        let mut s = Self::default();
        s.extend(it);
        s
    }
}
impl<T: Hash + Eq, S: BuildHasher> PartialEq for IndexSet<T, S> {
    fn eq(&self, o: &Self) -> bool {
        self.len() == o.len() && self.iter().all(|x| o.contains(x))
    }
}
impl<T: Hash + Eq, S: BuildHasher> Eq for IndexSet<T, S> {}
impl<T, S> std::ops::Index<usize> for IndexSet<T, S> {
    type Output = T;
    fn index(&self, i: usize) -> &T {
        self.get_index(i).expect("IndexSet: index out of bounds")
    }
}
pub struct Iter<'a, T> {
    e: &'a [E<T>],
    i: usize,
    j: usize,
}
impl<'a, T> Clone for Iter<'a, T> {
    fn clone(&self) -> Self {
        Iter { e: self.e, i: self.i, j: self.j }
    }
}
impl<'a, T> Iterator for Iter<'a, T> {
    type Item = &'a T;
    fn next(&mut self) -> Option<&'a T> {
        while self.i < self.j {
            let x = &self.e[self.i];
            self.i += 1;
            if x.live {
                return Some(&x.v);
            }
        }
        None
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        let mut n = 0;
        for x in &self.e[self.i..self.j] {
            n += x.live as usize;
        }
        (n, Some(n))
    }
}
impl<'a, T> DoubleEndedIterator for Iter<'a, T> {
    fn next_back(&mut self) -> Option<&'a T> {
        while self.i < self.j {
            self.j -= 1;
            let x = &self.e[self.j];
            if x.live {
                return Some(&x.v);
            }
        }
        None
    }
}
impl<'a, T> ExactSizeIterator for Iter<'a, T> {}
impl<'a, T, S> IntoIterator for &'a IndexSet<T, S> {
    type Item = &'a T;
    type IntoIter = Iter<'a, T>;
    fn into_iter(self) -> Iter<'a, T> {
        self.iter()
    }
}
pub struct IntoIter<T>(std::vec::IntoIter<E<T>>);
impl<T> Iterator for IntoIter<T> {
    type Item = T;
    fn next(&mut self) -> Option<T> {
        self.0.by_ref().find(|x| x.live).map(|x| x.v)
    }
}
impl<T, S> IntoIterator for IndexSet<T, S> {
    type Item = T;
    type IntoIter = IntoIter<T>;
    fn into_iter(self) -> IntoIter<T> {
        IntoIter(self.e.into_iter())
    }
}

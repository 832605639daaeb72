//! Stand-in for apendleton/min-max-heap-rs (the git dependency cannot be fetched here).
//! A double-ended priority queue kept as an ascending vector.

use std::ops::{Deref, DerefMut};

#[derive(Clone, Debug)]
pub struct MinMaxHeap<T> {
    v: Vec<T>, // ascending
}

impl<T: Ord> Default for MinMaxHeap<T> {
    fn default() -> Self {
        MinMaxHeap::new()
    }
}

impl<T> MinMaxHeap<T> {
    pub fn len(&self) -> usize {
        self.v.len()
    }
    pub fn is_empty(&self) -> bool {
        self.v.is_empty()
    }
    pub fn clear(&mut self) {
        self.v.clear()
    }
    pub fn capacity(&self) -> usize {
        self.v.capacity()
    }
    pub fn reserve(&mut self, additional: usize) {
        self.v.reserve(additional)
    }
    pub fn shrink_to_fit(&mut self) {
        self.v.shrink_to_fit()
    }
    pub fn into_vec(self) -> Vec<T> {
        self.v
    }
    pub fn iter(&self) -> std::slice::Iter<'_, T> {
        self.v.iter()
    }
    pub fn drain(&mut self) -> std::vec::Drain<'_, T> {
        self.v.drain(..)
    }
}

impl<T: Ord> MinMaxHeap<T> {
    pub fn new() -> Self {
        MinMaxHeap { v: Vec::new() }
    }
    pub fn with_capacity(n: usize) -> Self {
        MinMaxHeap { v: Vec::with_capacity(n) }
    }
    fn position(&self, e: &T) -> usize {
        let (mut lo, mut hi) = (0, self.v.len());
        while lo < hi {
            let mid = (lo + hi) / 2;
            if self.v[mid] <= *e {
                lo = mid + 1;
            } else {
                hi = mid;
            }
        }
        lo
    }
    pub fn push(&mut self, e: T) {
        let at = self.position(&e);
        self.v.insert(at, e);
    }
    pub fn peek_min(&self) -> Option<&T> {
        self.v.first()
    }
    pub fn peek_max(&self) -> Option<&T> {
        self.v.last()
    }
    pub fn pop_min(&mut self) -> Option<T> {
        if self.v.is_empty() {
            None
        } else {
            Some(self.v.remove(0))
        }
    }
    pub fn pop_max(&mut self) -> Option<T> {
        self.v.pop()
    }
    pub fn push_pop_min(&mut self, e: T) -> T {
        self.push(e);
        self.v.remove(0)
    }
    pub fn push_pop_max(&mut self, e: T) -> T {
        self.push(e);
        self.v.pop().unwrap()
    }
    pub fn replace_min(&mut self, e: T) -> Option<T> {
        let out = self.pop_min();
        self.push(e);
        out
    }
    pub fn replace_max(&mut self, e: T) -> Option<T> {
        let out = self.pop_max();
        self.push(e);
        out
    }
    pub fn into_vec_asc(self) -> Vec<T> {
        self.v
    }
    pub fn into_vec_desc(mut self) -> Vec<T> {
        self.v.reverse();
        self.v
    }
    pub fn append(&mut self, other: &mut MinMaxHeap<T>) {
        for e in other.v.drain(..) {
            self.push(e);
        }
    }
    pub fn peek_min_mut(&mut self) -> Option<PeekMinMut<'_, T>> {
        if self.v.is_empty() {
            None
        } else {
            Some(PeekMinMut { heap: self, live: true })
        }
    }
    pub fn peek_max_mut(&mut self) -> Option<PeekMaxMut<'_, T>> {
        if self.v.is_empty() {
            None
        } else {
            Some(PeekMaxMut { heap: self, live: true })
        }
    }
}

/// Mutable access to the greatest element; it is put back in its place when the guard goes away.
pub struct PeekMaxMut<'a, T: Ord> {
    heap: &'a mut MinMaxHeap<T>,
    live: bool,
}
impl<'a, T: Ord> PeekMaxMut<'a, T> {
    pub fn pop(mut self) -> T {
        self.live = false;
        self.heap.v.pop().unwrap()
    }
}
impl<'a, T: Ord> Deref for PeekMaxMut<'a, T> {
    type Target = T;
    fn deref(&self) -> &T {
        self.heap.v.last().unwrap()
    }
}
impl<'a, T: Ord> DerefMut for PeekMaxMut<'a, T> {
    fn deref_mut(&mut self) -> &mut T {
        self.heap.v.last_mut().unwrap()
    }
}
impl<'a, T: Ord> Drop for PeekMaxMut<'a, T> {
    fn drop(&mut self) {
        if self.live {
            let e = self.heap.v.pop().unwrap();
            self.heap.push(e);
        }
    }
}

/// Mutable access to the smallest element; it is put back in its place when the guard goes away.
pub struct PeekMinMut<'a, T: Ord> {
    heap: &'a mut MinMaxHeap<T>,
    live: bool,
}
impl<'a, T: Ord> PeekMinMut<'a, T> {
    pub fn pop(mut self) -> T {
        self.live = false;
        self.heap.v.remove(0)
    }
}
impl<'a, T: Ord> Deref for PeekMinMut<'a, T> {
    type Target = T;
    fn deref(&self) -> &T {
        self.heap.v.first().unwrap()
    }
}
impl<'a, T: Ord> DerefMut for PeekMinMut<'a, T> {
    fn deref_mut(&mut self) -> &mut T {
        self.heap.v.first_mut().unwrap()
    }
}
impl<'a, T: Ord> Drop for PeekMinMut<'a, T> {
    fn drop(&mut self) {
        if self.live {
            let e = self.heap.v.remove(0);
            self.heap.push(e);
        }
    }
}

pub struct IntoIter<T>(std::vec::IntoIter<T>);
impl<T> Iterator for IntoIter<T> {
    type Item = T;
    fn next(&mut self) -> Option<T> {
        self.0.next()
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        self.0.size_hint()
    }
}
impl<T> ExactSizeIterator for IntoIter<T> {}
impl<T> IntoIterator for MinMaxHeap<T> {
    type Item = T;
    type IntoIter = IntoIter<T>;
    fn into_iter(self) -> IntoIter<T> {
        IntoIter(self.v.into_iter())
    }
}
impl<'a, T> IntoIterator for &'a MinMaxHeap<T> {
    type Item = &'a T;
    type IntoIter = std::slice::Iter<'a, T>;
    fn into_iter(self) -> Self::IntoIter {
        self.v.iter()
    }
}
impl<T: Ord> Extend<T> for MinMaxHeap<T> {
    fn extend<I: IntoIterator<Item = T>>(&mut self, it: I) {
        for e in it {
            self.push(e)
        }
    }
}
impl<T: Ord> std::iter::FromIterator<T> for MinMaxHeap<T> {
    fn from_iter<I: IntoIterator<Item = T>>(it: I) -> Self {
        let mut h = MinMaxHeap::new();
        h.extend(it);
        h
    }
}
impl<T: Ord> From<Vec<T>> for MinMaxHeap<T> {
    fn from(v: Vec<T>) -> Self {
        v.into_iter().collect()
    }
}

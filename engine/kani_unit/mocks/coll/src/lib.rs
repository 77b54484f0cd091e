//! Hash collections by linear search: same observable behaviour, no hashing to reason about.
use std::borrow::Borrow;

/// Entries are appended at known positions; the last one for a key counts.
#[derive(Debug, Clone)]
pub struct HashMap<K, V> {
    v: Vec<(K, V)>,
    distinct: usize,
}
impl<K, V> Default for HashMap<K, V> {
    fn default() -> Self {
        HashMap { v: Vec::new(), distinct: 0 }
    }
}
pub enum Entry<'a, K, V> {
    Occupied(&'a mut V),
    Vacant(&'a mut HashMap<K, V>, K),
}
impl<'a, K, V> Entry<'a, K, V> {
    pub fn or_insert_with(self, f: impl FnOnce() -> V) -> &'a mut V {
        match self {
            Entry::Occupied(v) => v,
            Entry::Vacant(m, k) => {
                m.v.push((k, f()));
                m.distinct += 1;
                let n = m.v.len() - 1;
                &mut m.v[n].1
            }
        }
    }
    pub fn or_insert(self, v: V) -> &'a mut V {
        self.or_insert_with(|| v)
    }
}
impl<K: Eq, V> HashMap<K, V> {
    pub fn new() -> Self {
        Self::default()
    }
    pub fn with_capacity(n: usize) -> Self {
        HashMap { v: Vec::with_capacity(n), distinct: 0 }
    }
    fn pos<Q: Eq + ?Sized>(&self, k: &Q) -> Option<usize>
    where
        K: Borrow<Q>,
    {
        let mut at = None;
        let mut i = 0;
        while i < self.v.len() {
            if self.v[i].0.borrow() == k {
                at = Some(i);
            }
            i += 1;
        }
        at
    }
    pub fn get<Q: Eq + ?Sized>(&self, k: &Q) -> Option<&V>
    where
        K: Borrow<Q>,
    {
        match self.pos(k) {
            Some(i) => Some(&self.v[i].1),
            None => None,
        }
    }
    pub fn get_mut<Q: Eq + ?Sized>(&mut self, k: &Q) -> Option<&mut V>
    where
        K: Borrow<Q>,
    {
        match self.pos(k) {
            Some(i) => Some(&mut self.v[i].1),
            None => None,
        }
    }
    pub fn contains_key<Q: Eq + ?Sized>(&self, k: &Q) -> bool
    where
        K: Borrow<Q>,
    {
        self.pos(k).is_some()
    }
    pub fn insert(&mut self, k: K, v: V) -> Option<V> {
        match self.pos(&k) {
            Some(i) => Some(std::mem::replace(&mut self.v[i].1, v)),
            None => {
                self.v.push((k, v));
                self.distinct += 1;
                None
            }
        }
    }
    pub fn entry(&mut self, k: K) -> Entry<'_, K, V> {
        match self.pos(&k) {
            Some(i) => Entry::Occupied(&mut self.v[i].1),
            None => Entry::Vacant(self, k),
        }
    }
    pub fn len(&self) -> usize {
        self.distinct
    }
    pub fn is_empty(&self) -> bool {
        self.v.is_empty()
    }
}
/// Keys as numbers. At most three different numbers of 128 and more are kept; lists with more of them are not considered.
/// (The request checks refuse such numbers before they get here.)
pub trait Key {
    fn num(&self) -> u64;
}
macro_rules! keys {
    ($($t:ty)*) => { $(impl Key for $t { fn num(&self) -> u64 { *self as u64 } })* };
}
keys! { u8 u16 u32 u64 usize }
impl<T: Key + ?Sized> Key for &T {
    fn num(&self) -> u64 {
        (**self).num()
    }
}
fn beyond() {
    #[cfg(kani)]
    kani::assume(false);
}
#[derive(Debug, Clone)]
pub struct HashSet<K> {
    bits: u128,
    large: [u64; 3],
    distinct: usize,
    k: std::marker::PhantomData<K>,
}
impl<K> Default for HashSet<K> {
    fn default() -> Self {
        HashSet { bits: 0, large: [0; 3], distinct: 0, k: std::marker::PhantomData }
    }
}
impl<K: Key> HashSet<K> {
    pub fn new() -> Self {
        Self::default()
    }
    pub fn with_capacity(_: usize) -> Self {
        Self::default()
    }
    pub fn contains<Q: Key + ?Sized>(&self, k: &Q) -> bool {
        let k = k.num();
        if k < 128 {
            self.bits >> k & 1 == 1
        } else {
            self.large[0] == k || self.large[1] == k || self.large[2] == k
        }
    }
    pub fn insert(&mut self, k: K) -> bool {
        let new = !self.contains(&k);
        self.distinct += new as usize;
        let k = k.num();
        if k < 128 {
            self.bits |= 1 << k;
        } else if new {
            if self.large[0] == 0 {
                self.large[0] = k;
            } else if self.large[1] == 0 {
                self.large[1] = k;
            } else if self.large[2] == 0 {
                self.large[2] = k;
            } else {
                beyond();
            }
        }
        new
    }
    pub fn len(&self) -> usize {
        self.distinct
    }
    pub fn is_empty(&self) -> bool {
        self.distinct == 0
    }
}
impl<K: Key> FromIterator<K> for HashSet<K> {
    fn from_iter<I: IntoIterator<Item = K>>(it: I) -> Self {
        let mut s = HashSet::new();
        s.extend(it);
        s
    }
}
impl<K: Key> Extend<K> for HashSet<K> {
    fn extend<I: IntoIterator<Item = K>>(&mut self, it: I) {
        for k in it {
            self.insert(k);
        }
    }
}
impl<K: Eq, V> FromIterator<(K, V)> for HashMap<K, V> {
    fn from_iter<I: IntoIterator<Item = (K, V)>>(it: I) -> Self {
        let mut s = HashMap::new();
        for (k, v) in it {
            s.insert(k, v);
        }
        s
    }
}
pub use std::collections::{BTreeMap, BTreeSet, BinaryHeap, VecDeque};
pub mod hash_map {
    pub use super::{Entry, HashMap};
}

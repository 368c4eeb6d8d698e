//! Model of `indexmap`: keeps insertion order like the real one, but finds keys by comparing them.
//! (Hashing bytes that are not known would make every address depend on them.)
use std::borrow::Borrow;
use std::hash::Hash;
#[derive(Clone, Debug)]
pub struct IndexMap<K, V> { list: Vec<(K, V)> }
impl<K, V> Default for IndexMap<K, V> { fn default() -> Self { IndexMap { list: Vec::new() } } }
impl<K: Hash + Eq, V> IndexMap<K, V> {
    pub fn new() -> Self { IndexMap { list: Vec::new() } }
    pub fn with_capacity(n: usize) -> Self { IndexMap { list: Vec::with_capacity(n) } }
    pub fn len(&self) -> usize { self.list.len() }
    pub fn is_empty(&self) -> bool { self.list.is_empty() }
    pub fn clear(&mut self) { self.list.clear() }
    fn find<Q: ?Sized + Eq>(&self, k: &Q) -> Option<usize> where K: Borrow<Q> {
        let mut i = 0;
        while i < self.list.len() { if self.list[i].0.borrow() == k { return Some(i); } i += 1; }
        None
    }
    pub fn get<Q: ?Sized + Hash + Eq>(&self, k: &Q) -> Option<&V> where K: Borrow<Q> { match self.find(k) { Some(i) => Some(&self.list[i].1), None => None } }
    pub fn get_mut<Q: ?Sized + Hash + Eq>(&mut self, k: &Q) -> Option<&mut V> where K: Borrow<Q> { match self.find(k) { Some(i) => Some(&mut self.list[i].1), None => None } }
    pub fn contains_key<Q: ?Sized + Hash + Eq>(&self, k: &Q) -> bool where K: Borrow<Q> { self.find(k).is_some() }
    pub fn insert(&mut self, k: K, v: V) -> Option<V> {
        match self.find(&k) { Some(i) => Some(std::mem::replace(&mut self.list[i].1, v)), None => { self.list.push((k, v)); None } }
    }
    pub fn get_index(&self, i: usize) -> Option<(&K, &V)> { self.list.get(i).map(|e| (&e.0, &e.1)) }
    pub fn entry(&mut self, key: K) -> map::Entry<'_, K, V> {
        match self.find(&key) {
            Some(at) => map::Entry::Occupied(map::OccupiedEntry { list: &mut self.list, key, at }),
            None => map::Entry::Vacant(map::VacantEntry { list: &mut self.list, key }),
        }
    }
}
impl<K, V> IndexMap<K, V> {
    pub fn iter(&self) -> map::Iter<'_, K, V> { map::Iter(self.list.iter()) }
    pub fn iter_mut(&mut self) -> impl DoubleEndedIterator<Item = (&K, &mut V)> { self.list.iter_mut().map(|e| (&e.0, &mut e.1)) }
    pub fn keys(&self) -> impl DoubleEndedIterator<Item = &K> { self.list.iter().map(|e| &e.0) }
    pub fn values(&self) -> impl DoubleEndedIterator<Item = &V> { self.list.iter().map(|e| &e.1) }
    pub fn values_mut(&mut self) -> impl DoubleEndedIterator<Item = &mut V> { self.list.iter_mut().map(|e| &mut e.1) }
}
impl<'a, K, V> IntoIterator for &'a IndexMap<K, V> { type Item = (&'a K, &'a V); type IntoIter = map::Iter<'a, K, V>; fn into_iter(self) -> map::Iter<'a, K, V> { self.iter() } }
impl<K, V> IntoIterator for IndexMap<K, V> { type Item = (K, V); type IntoIter = std::vec::IntoIter<(K, V)>; fn into_iter(self) -> Self::IntoIter { self.list.into_iter() } }
impl<K: Hash + Eq, V> Extend<(K, V)> for IndexMap<K, V> { fn extend<I: IntoIterator<Item = (K, V)>>(&mut self, it: I) { for (k, v) in it { self.insert(k, v); } } }
impl<K: Hash + Eq, V> std::iter::FromIterator<(K, V)> for IndexMap<K, V> { fn from_iter<I: IntoIterator<Item = (K, V)>>(it: I) -> Self { let mut m = Self::new(); m.extend(it); m } }
pub mod map {
    pub use super::IndexMap;
    pub struct Iter<'a, K, V>(pub(crate) std::slice::Iter<'a, (K, V)>);
    impl<'a, K, V> Iterator for Iter<'a, K, V> {
        type Item = (&'a K, &'a V);
        fn next(&mut self) -> Option<(&'a K, &'a V)> { match self.0.next() { Some(e) => Some((&e.0, &e.1)), None => None } }
        fn size_hint(&self) -> (usize, Option<usize>) { self.0.size_hint() }
    }
    impl<'a, K, V> DoubleEndedIterator for Iter<'a, K, V> { fn next_back(&mut self) -> Option<(&'a K, &'a V)> { match self.0.next_back() { Some(e) => Some((&e.0, &e.1)), None => None } } }
    impl<'a, K, V> ExactSizeIterator for Iter<'a, K, V> {}
    pub enum Entry<'a, K, V> { Occupied(OccupiedEntry<'a, K, V>), Vacant(VacantEntry<'a, K, V>) }
    pub struct OccupiedEntry<'a, K, V> { pub(crate) list: &'a mut Vec<(K, V)>, pub(crate) key: K, pub(crate) at: usize }
    pub struct VacantEntry<'a, K, V> { pub(crate) list: &'a mut Vec<(K, V)>, pub(crate) key: K }
    impl<'a, K, V> Entry<'a, K, V> {
        pub fn or_insert(self, v: V) -> &'a mut V { self.or_insert_with(|| v) }
        pub fn or_insert_with<F: FnOnce() -> V>(self, f: F) -> &'a mut V { match self { Entry::Occupied(o) => o.into_mut(), Entry::Vacant(v) => v.insert(f()) } }
        pub fn or_default(self) -> &'a mut V where V: Default { self.or_insert_with(V::default) }
        pub fn and_modify<F: FnOnce(&mut V)>(mut self, f: F) -> Self { if let Entry::Occupied(o) = &mut self { f(&mut o.list[o.at].1); } self }
        pub fn key(&self) -> &K { match self { Entry::Occupied(o) => &o.key, Entry::Vacant(v) => &v.key } }
    }
    impl<'a, K, V> OccupiedEntry<'a, K, V> {
        pub fn key(&self) -> &K { &self.key }
        pub fn get(&self) -> &V { &self.list[self.at].1 }
        pub fn get_mut(&mut self) -> &mut V { &mut self.list[self.at].1 }
        pub fn into_mut(self) -> &'a mut V { &mut self.list[self.at].1 }
        pub fn insert(&mut self, v: V) -> V { std::mem::replace(&mut self.list[self.at].1, v) }
        pub fn index(&self) -> usize { self.at }
    }
    impl<'a, K, V> VacantEntry<'a, K, V> {
        pub fn key(&self) -> &K { &self.key }
        pub fn into_key(self) -> K { self.key }
        pub fn index(&self) -> usize { self.list.len() }
        pub fn insert(self, v: V) -> &'a mut V { self.list.push((self.key, v)); let n = self.list.len() - 1; &mut self.list[n].1 }
    }
}

#![allow(warnings)]
//! Stand-in for lru-cache 0.1 (not available offline).
use std::borrow::Borrow;
use std::hash::Hash;
pub struct LruCache<K: Eq + Hash, V> {
    items: Vec<(K, V)>,
    max_size: usize,
}
impl<K: Eq + Hash, V> LruCache<K, V> {
    pub fn new(capacity: usize) -> Self {
        LruCache { items: vec![], max_size: capacity }
    }
    pub fn contains_key<Q: ?Sized>(&mut self, key: &Q) -> bool
    where
        K: Borrow<Q>,
        Q: Hash + Eq,
    {
        self.get_mut(key).is_some()
    }
    pub fn insert(&mut self, k: K, v: V) -> Option<V> {
        let old = self.remove(&k);
        self.items.push((k, v));
        if self.items.len() > self.max_size {
            self.items.remove(0);
        }
        old
    }
    pub fn get_mut<Q: ?Sized>(&mut self, k: &Q) -> Option<&mut V>
    where
        K: Borrow<Q>,
        Q: Hash + Eq,
    {
        let ix = self.items.iter().position(|(key, _)| key.borrow() == k)?;
        let item = self.items.remove(ix);
        self.items.push(item);
        self.items.last_mut().map(|(_, v)| v)
    }
    pub fn remove<Q: ?Sized>(&mut self, k: &Q) -> Option<V>
    where
        K: Borrow<Q>,
        Q: Hash + Eq,
    {
        let ix = self.items.iter().position(|(key, _)| key.borrow() == k)?;
        Some(self.items.remove(ix).1)
    }
    pub fn capacity(&self) -> usize {
        self.max_size
    }
    pub fn set_capacity(&mut self, capacity: usize) {
        self.max_size = capacity;
    }
    pub fn remove_lru(&mut self) -> Option<(K, V)> {
        if self.items.is_empty() { None } else { Some(self.items.remove(0)) }
    }
    pub fn len(&self) -> usize {
        self.items.len()
    }
    pub fn is_empty(&self) -> bool {
        self.items.is_empty()
    }
    pub fn clear(&mut self) {
        self.items.clear()
    }
    pub fn iter(&self) -> impl Iterator<Item = (&K, &V)> {
        self.items.iter().map(|(k, v)| (k, v))
    }
}

//! Stands in for weak-table: a map whose keys are held weakly and looked up by value. An entry is gone as soon
//! as its key is.
use std::collections::HashMap;
use std::collections::hash_map::RandomState;
use std::hash::{BuildHasher, Hash};
use std::sync::{Arc, Weak};

#[derive(Debug, Clone)]
pub struct WeakKeyHashMap<K, V> { hasher: RandomState, buckets: HashMap<u64, Vec<(K, V)>> }
impl<K, V> Default for WeakKeyHashMap<K, V> { fn default() -> Self { WeakKeyHashMap { hasher: RandomState::new(), buckets: HashMap::new() } } }
impl<T: Hash + Eq, V> WeakKeyHashMap<Weak<T>, V> {
    fn bucket(&self, key: &T) -> u64 { self.hasher.hash_one(key) }
    pub fn get_key(&self, key: &T) -> Option<Arc<T>> { self.buckets.get(&self.bucket(key))?.iter().filter_map(|e| e.0.upgrade()).find(|k| **k == *key) }
    pub fn get(&self, key: &T) -> Option<&V> { self.buckets.get(&self.bucket(key))?.iter().find(|e| e.0.upgrade().is_some_and(|k| *k == *key)).map(|e| &e.1) }
    pub fn insert(&mut self, key: Arc<T>, value: V) -> Option<V> {
        let b = self.buckets.entry(self.hasher.hash_one(&*key)).or_default();
        b.retain(|e| e.0.strong_count() > 0);
        for e in b.iter_mut() { if e.0.upgrade().is_some_and(|k| *k == *key) { return Some(std::mem::replace(&mut e.1, value)); } }
        b.push((Arc::downgrade(&key), value));
        None
    }
    pub fn iter_mut(&mut self) -> impl Iterator<Item = (Arc<T>, &mut V)> { self.buckets.values_mut().flatten().filter_map(|e| Some((e.0.upgrade()?, &mut e.1))) }
}

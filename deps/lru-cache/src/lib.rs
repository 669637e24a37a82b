//! Stand-in for lru-cache 0.1: a map bounded by a capacity that evicts the
//! least recently used entry.  `get_mut` and `insert` count as a use.
use std::borrow::Borrow;
use std::collections::hash_map::RandomState;
use std::collections::{BTreeMap, HashMap};
use std::hash::{BuildHasher, Hash};

pub struct LruCache<K: Eq + Hash + Clone, V, S: BuildHasher = RandomState> {
    map: HashMap<K, (u64, V), S>,
    order: BTreeMap<u64, K>,
    tick: u64,
    capacity: usize,
}

impl<K: Eq + Hash + Clone, V> LruCache<K, V> {
    pub fn new(capacity: usize) -> Self {
        LruCache { map: HashMap::new(), order: BTreeMap::new(), tick: 0, capacity }
    }
}

impl<K: Eq + Hash + Clone, V, S: BuildHasher> LruCache<K, V, S> {
    pub fn contains_key<Q: ?Sized + Hash + Eq>(&mut self, k: &Q) -> bool
    where
        K: Borrow<Q>,
    {
        self.get_mut(k).is_some()
    }
    pub fn insert(&mut self, k: K, v: V) -> Option<V> {
        self.tick += 1;
        let tick = self.tick;
        let old = self.map.insert(k.clone(), (tick, v));
        if let Some((t, _)) = &old {
            self.order.remove(t);
        }
        self.order.insert(tick, k);
        while self.map.len() > self.capacity {
            self.remove_lru();
        }
        old.map(|(_, v)| v)
    }
    pub fn get_mut<Q: ?Sized + Hash + Eq>(&mut self, k: &Q) -> Option<&mut V>
    where
        K: Borrow<Q>,
    {
        let tick = self.tick + 1;
        let entry = self.map.get_mut(k)?;
        let key = self.order.remove(&entry.0).expect("lru order");
        self.order.insert(tick, key);
        entry.0 = tick;
        self.tick = tick;
        Some(&mut entry.1)
    }
    pub fn remove<Q: ?Sized + Hash + Eq>(&mut self, k: &Q) -> Option<V>
    where
        K: Borrow<Q>,
    {
        let (t, v) = self.map.remove(k)?;
        self.order.remove(&t);
        Some(v)
    }
    pub fn remove_lru(&mut self) -> Option<(K, V)> {
        let t = *self.order.keys().next()?;
        let key = self.order.remove(&t)?;
        let (_, v) = self.map.remove(&key)?;
        Some((key, v))
    }
    pub fn capacity(&self) -> usize {
        self.capacity
    }
    pub fn set_capacity(&mut self, capacity: usize) {
        self.capacity = capacity;
        while self.map.len() > capacity {
            self.remove_lru();
        }
    }
    pub fn len(&self) -> usize {
        self.map.len()
    }
    pub fn is_empty(&self) -> bool {
        self.map.is_empty()
    }
    pub fn clear(&mut self) {
        self.map.clear();
        self.order.clear();
    }
}

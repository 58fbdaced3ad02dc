//! Stands in for github.com/raviqqe/plist-rs, which is not available here: persistent maps with the interface that
//! the compiler uses.

use std::{
    borrow::Borrow,
    collections::HashMap,
    hash::{BuildHasher, Hash},
    rc::Rc,
};

/// Later entries hide earlier ones, and the ones of the base.
#[derive(Debug)]
pub struct FlailMap<K, V> {
    base: Rc<HashMap<K, V>>,
    entries: Option<Rc<Entry<K, V>>>,
}

#[derive(Debug)]
struct Entry<K, V> {
    key: K,
    value: V,
    rest: Option<Rc<Entry<K, V>>>,
}

impl<K, V> Clone for FlailMap<K, V> {
    fn clone(&self) -> Self {
        Self { base: self.base.clone(), entries: self.entries.clone() }
    }
}

impl<K: Eq + Hash, V> FlailMap<K, V> {
    pub fn new<S: BuildHasher>(entries: HashMap<K, V, S>) -> Self {
        entries.into_iter().collect()
    }

    pub fn get<Q: Eq + Hash + ?Sized>(&self, key: &Q) -> Option<&V>
    where
        K: Borrow<Q>,
    {
        let mut entry = self.entries.as_deref();

        while let Some(this) = entry {
            if this.key.borrow() == key {
                return Some(&this.value);
            }

            entry = this.rest.as_deref();
        }

        self.base.get(key)
    }

    pub fn contains_key<Q: Eq + Hash + ?Sized>(&self, key: &Q) -> bool
    where
        K: Borrow<Q>,
    {
        self.get(key).is_some()
    }

    pub fn insert(&self, key: K, value: V) -> Self {
        Self {
            base: self.base.clone(),
            entries: Some(Rc::new(Entry { key, value, rest: self.entries.clone() })),
        }
    }

    pub fn insert_iter(&self, entries: impl IntoIterator<Item = (K, V)>) -> Self {
        let mut map = self.clone();

        for (key, value) in entries {
            map = map.insert(key, value);
        }

        map
    }
}

impl<K: Eq + Hash + Borrow<Q>, V, Q: Eq + Hash + ?Sized> std::ops::Index<&Q> for FlailMap<K, V> {
    type Output = V;

    fn index(&self, key: &Q) -> &V {
        self.get(key).expect("key")
    }
}

pub type Map<K, V> = FlailMap<K, V>;

impl<K: Eq + Hash, V> FromIterator<(K, V)> for FlailMap<K, V> {
    fn from_iter<I: IntoIterator<Item = (K, V)>>(entries: I) -> Self {
        Self { base: Rc::new(entries.into_iter().collect()), entries: None }
    }
}

impl<K: Eq + Hash, V> Default for FlailMap<K, V> {
    fn default() -> Self {
        Self { base: Rc::new(HashMap::new()), entries: None }
    }
}

//! Stands in for github.com/raviqqe/hamt-rs, which is not available here: a persistent map with the interface that
//! the compiler uses.

use std::{borrow::Borrow, hash::Hash, rc::Rc};

/// A list of changes, the latest first.
#[derive(Debug)]
pub struct Map<K, V>(Option<Rc<Change<K, V>>>);

#[derive(Debug)]
struct Change<K, V> {
    key: K,
    value: Option<V>,
    rest: Option<Rc<Change<K, V>>>,
}

impl<K, V> Clone for Map<K, V> {
    fn clone(&self) -> Self {
        Self(self.0.clone())
    }
}

impl<K: Clone + Eq + Hash, V> Map<K, V> {
    pub fn new() -> Self {
        Self(None)
    }

    fn find<Q: Eq + ?Sized>(&self, key: &Q) -> Option<&Change<K, V>>
    where
        K: Borrow<Q>,
    {
        let mut change = self.0.as_deref();

        while let Some(this) = change {
            if this.key.borrow() == key {
                return Some(this);
            }

            change = this.rest.as_deref();
        }

        None
    }

    pub fn get<Q: Eq + Hash + ?Sized>(&self, key: &Q) -> Option<&V>
    where
        K: Borrow<Q>,
    {
        self.find(key)?.value.as_ref()
    }

    pub fn insert(&self, key: K, value: V) -> Self {
        Self(Some(Rc::new(Change { key, value: Some(value), rest: self.0.clone() })))
    }

    pub fn remove<Q: Eq + Hash + ?Sized>(&self, key: &Q) -> Self
    where
        K: Borrow<Q>,
    {
        match self.find(key) {
            Some(Change { key, value: Some(_), .. }) => {
                Self(Some(Rc::new(Change { key: key.clone(), value: None, rest: self.0.clone() })))
            }
            _ => self.clone(),
        }
    }
}

impl<K: Clone + Eq + Hash, V> Default for Map<K, V> {
    fn default() -> Self {
        Self::new()
    }
}

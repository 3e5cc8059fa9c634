//! Stand-in for dfinity/ic `phantom_newtype` (not fetchable offline): only `Id`.
use std::cmp::Ordering;
use std::fmt;
use std::hash::{Hash, Hasher};
use std::marker::PhantomData;

pub struct Id<Entity, Repr>(Repr, PhantomData<std::sync::Mutex<Entity>>);

impl<E, R> Id<E, R> {
    pub const fn new(repr: R) -> Id<E, R> {
        Id(repr, PhantomData)
    }
    pub const fn get_ref(&self) -> &R {
        &self.0
    }
}
impl<E, R: Copy> Id<E, R> {
    pub fn get(&self) -> R {
        self.0
    }
}
impl<E, R: Clone> Clone for Id<E, R> {
    fn clone(&self) -> Self {
        Id(self.0.clone(), PhantomData)
    }
}
impl<E, R: Copy> Copy for Id<E, R> {}
impl<E, R: PartialEq> PartialEq for Id<E, R> {
    fn eq(&self, o: &Self) -> bool {
        self.0.eq(&o.0)
    }
}
impl<E, R: Eq> Eq for Id<E, R> {}
impl<E, R: PartialOrd> PartialOrd for Id<E, R> {
    fn partial_cmp(&self, o: &Self) -> Option<Ordering> {
        self.0.partial_cmp(&o.0)
    }
}
impl<E, R: Ord> Ord for Id<E, R> {
    fn cmp(&self, o: &Self) -> Ordering {
        self.0.cmp(&o.0)
    }
}
impl<E, R: Hash> Hash for Id<E, R> {
    fn hash<H: Hasher>(&self, s: &mut H) {
        self.0.hash(s)
    }
}
impl<E, R: fmt::Debug> fmt::Debug for Id<E, R> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        self.0.fmt(f)
    }
}
impl<E, R: fmt::Display> fmt::Display for Id<E, R> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        self.0.fmt(f)
    }
}
impl<E, R> AsRef<R> for Id<E, R> {
    fn as_ref(&self) -> &R {
        &self.0
    }
}
impl<E, R> From<R> for Id<E, R> {
    fn from(r: R) -> Self {
        Self::new(r)
    }
}
impl<E, R: serde::Serialize> serde::Serialize for Id<E, R> {
    fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        self.0.serialize(s)
    }
}
impl<'de, E, R: serde::Deserialize<'de>> serde::Deserialize<'de> for Id<E, R> {
    fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        R::deserialize(d).map(Self::new)
    }
}

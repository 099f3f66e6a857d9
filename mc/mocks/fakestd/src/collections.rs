//! Maps and sets kept in a vector: sorted for the B-tree ones, in insertion
//! order for the hashed ones.
pub use ::std::collections::{BinaryHeap, LinkedList, TryReserveError, VecDeque};
use serde::de::{Deserialize, Deserializer, MapAccess, SeqAccess, Visitor};
use serde::ser::{Serialize, SerializeMap, SerializeSeq, Serializer};
use ::std::borrow::Borrow;
use ::std::fmt;
use ::std::hash::Hash;
use ::std::marker::PhantomData;

pub mod btree_map {
    pub use super::BTreeMap;
    pub use super::BEntry as Entry;
}
pub mod hash_map {
    pub use super::HEntry as Entry;
    pub use super::HashMap;
}
pub mod btree_set {
    pub use super::BTreeSet;
}
pub mod hash_set {
    pub use super::HashSet;
}

macro_rules! map {
    ($name:ident, $entry:ident, $occ:ident, $vac:ident, [$($bound:tt)*], [$($qbound:tt)*], $find_slot:expr) => {
        #[derive(Clone, PartialEq, Eq)]
        pub struct $name<K, V> {
            pub v: Vec<(K, V)>,
        }

        impl<K, V> $name<K, V> {
            pub const fn new() -> Self {
                Self { v: Vec::new() }
            }
            pub fn with_capacity(_n: usize) -> Self {
                Self { v: Vec::new() }
            }
            pub fn len(&self) -> usize {
                self.v.len()
            }
            pub fn is_empty(&self) -> bool {
                self.v.len() == 0
            }
            pub fn clear(&mut self) {
                self.v.clear()
            }
            pub fn reserve(&mut self, _n: usize) {}
            pub fn iter(&self) -> Iter<'_, K, V> {
                Iter { i: self.v.iter() }
            }
            pub fn iter_mut(&mut self) -> IterMut<'_, K, V> {
                IterMut { i: self.v.iter_mut() }
            }
            pub fn keys(&self) -> Keys<'_, K, V> {
                Keys { i: self.v.iter() }
            }
            pub fn values(&self) -> Values<'_, K, V> {
                Values { i: self.v.iter() }
            }
            pub fn values_mut(&mut self) -> ValuesMut<'_, K, V> {
                ValuesMut { i: self.v.iter_mut() }
            }
            pub fn into_keys(self) -> IntoKeys<K, V> {
                IntoKeys { i: self.v.into_iter() }
            }
            pub fn into_values(self) -> IntoValues<K, V> {
                IntoValues { i: self.v.into_iter() }
            }
            pub fn retain<F: FnMut(&K, &mut V) -> bool>(&mut self, mut f: F) {
                self.v.retain_mut(|e| f(&e.0, &mut e.1))
            }
            pub fn drain(&mut self) -> ::std::vec::IntoIter<(K, V)> {
                ::std::mem::take(&mut self.v).into_iter()
            }
            pub fn first_key_value(&self) -> Option<(&K, &V)> {
                if self.v.len() == 0 { None } else { let e = &self.v[0]; Some((&e.0, &e.1)) }
            }
            pub fn last_key_value(&self) -> Option<(&K, &V)> {
                self.v.last().map(|e| (&e.0, &e.1))
            }
            pub fn pop_first(&mut self) -> Option<(K, V)> {
                if self.v.len() == 0 { None } else { Some(take_at(&mut self.v, 0)) }
            }
            pub fn pop_last(&mut self) -> Option<(K, V)> {
                self.v.pop()
            }
        }

        impl<K: $($bound)*, V> $name<K, V> {
            fn find<Q: ?Sized + $($qbound)*>(&self, k: &Q) -> Option<usize>
            where
                K: Borrow<Q>,
            {
                let s: &[(K, V)] = &self.v;
                let f = k.fp();
                let mut i = 0;
                while i < s.len() {
                    let e: &Q = s[i].0.borrow();
                    if e.fp() == f && e == k {
                        return Some(i);
                    }
                    i += 1;
                }
                None
            }
            fn slot(&self, k: &K) -> usize {
                let f: fn(&Vec<(K, V)>, &K) -> usize = $find_slot;
                f(&self.v, k)
            }
            pub fn insert(&mut self, k: K, v: V) -> Option<V> {
                match self.find::<K>(&k) {
                    Some(i) => Some(::std::mem::replace(&mut self.v[i].1, v)),
                    None => {
                        let i = self.slot(&k);
                        if i == self.v.len() {
                            self.v.push((k, v));
                        } else {
                            put_at(&mut self.v, i, (k, v));
                        }
                        None
                    }
                }
            }
            pub fn get<Q: ?Sized + $($qbound)*>(&self, k: &Q) -> Option<&V>
            where
                K: Borrow<Q>,
            {
                match self.find(k) {
                    Some(i) => Some(&self.v[i].1),
                    None => None,
                }
            }
            pub fn get_key_value<Q: ?Sized + $($qbound)*>(&self, k: &Q) -> Option<(&K, &V)>
            where
                K: Borrow<Q>,
            {
                match self.find(k) {
                    Some(i) => Some((&self.v[i].0, &self.v[i].1)),
                    None => None,
                }
            }
            pub fn get_mut<Q: ?Sized + $($qbound)*>(&mut self, k: &Q) -> Option<&mut V>
            where
                K: Borrow<Q>,
            {
                match self.find(k) {
                    Some(i) => Some(&mut self.v[i].1),
                    None => None,
                }
            }
            pub fn contains_key<Q: ?Sized + $($qbound)*>(&self, k: &Q) -> bool
            where
                K: Borrow<Q>,
            {
                self.find(k).is_some()
            }
            pub fn remove<Q: ?Sized + $($qbound)*>(&mut self, k: &Q) -> Option<V>
            where
                K: Borrow<Q>,
            {
                match self.find(k) {
                    Some(i) => Some(take_at(&mut self.v, i).1),
                    None => None,
                }
            }
            pub fn remove_entry<Q: ?Sized + $($qbound)*>(&mut self, k: &Q) -> Option<(K, V)>
            where
                K: Borrow<Q>,
            {
                match self.find(k) {
                    Some(i) => Some(take_at(&mut self.v, i)),
                    None => None,
                }
            }
            pub fn append(&mut self, other: &mut Self) {
                for (k, v) in ::std::mem::take(&mut other.v) {
                    self.insert(k, v);
                }
            }
            pub fn entry(&mut self, k: K) -> $entry<'_, K, V> {
                match self.find::<K>(&k) {
                    Some(i) => $entry::Occupied($occ { m: self, i, k }),
                    None => $entry::Vacant($vac { m: self, k }),
                }
            }
        }

        pub enum $entry<'a, K, V> {
            Occupied($occ<'a, K, V>),
            Vacant($vac<'a, K, V>),
        }
        pub struct $occ<'a, K, V> {
            m: &'a mut $name<K, V>,
            i: usize,
            k: K,
        }
        pub struct $vac<'a, K, V> {
            m: &'a mut $name<K, V>,
            k: K,
        }
        impl<'a, K: $($bound)*, V> $occ<'a, K, V> {
            pub fn key(&self) -> &K { &self.k }
            pub fn get(&self) -> &V { &self.m.v[self.i].1 }
            pub fn get_mut(&mut self) -> &mut V { &mut self.m.v[self.i].1 }
            pub fn into_mut(self) -> &'a mut V { &mut self.m.v[self.i].1 }
            pub fn insert(&mut self, v: V) -> V { ::std::mem::replace(&mut self.m.v[self.i].1, v) }
            pub fn remove(self) -> V { take_at(&mut self.m.v, self.i).1 }
            pub fn remove_entry(self) -> (K, V) { take_at(&mut self.m.v, self.i) }
        }
        impl<'a, K: $($bound)*, V> $vac<'a, K, V> {
            pub fn key(&self) -> &K { &self.k }
            pub fn into_key(self) -> K { self.k }
            pub fn insert(self, v: V) -> &'a mut V {
                let i = self.m.slot(&self.k);
                put_at(&mut self.m.v, i, (self.k, v));
                &mut self.m.v[i].1
            }
        }
        impl<'a, K: $($bound)*, V> $entry<'a, K, V> {
            pub fn or_insert(self, v: V) -> &'a mut V {
                match self { $entry::Occupied(o) => o.into_mut(), $entry::Vacant(e) => e.insert(v) }
            }
            pub fn or_insert_with<F: FnOnce() -> V>(self, f: F) -> &'a mut V {
                match self { $entry::Occupied(o) => o.into_mut(), $entry::Vacant(e) => e.insert(f()) }
            }
            pub fn or_default(self) -> &'a mut V where V: Default {
                match self { $entry::Occupied(o) => o.into_mut(), $entry::Vacant(e) => e.insert(V::default()) }
            }
            pub fn and_modify<F: FnOnce(&mut V)>(self, f: F) -> Self {
                match self {
                    $entry::Occupied(mut o) => { f(o.get_mut()); $entry::Occupied(o) }
                    e => e,
                }
            }
            pub fn key(&self) -> &K {
                match self { $entry::Occupied(o) => &o.k, $entry::Vacant(e) => &e.k }
            }
        }

        impl<K, V> Default for $name<K, V> {
            fn default() -> Self { Self::new() }
        }
        impl<K: fmt::Debug, V: fmt::Debug> fmt::Debug for $name<K, V> {
            fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
                f.debug_map().entries(self.iter()).finish()
            }
        }
        impl<K: $($bound)*, V> FromIterator<(K, V)> for $name<K, V> {
            fn from_iter<I: IntoIterator<Item = (K, V)>>(it: I) -> Self {
                let it = it.into_iter();
                let mut m = Self { v: Vec::with_capacity(it.size_hint().0) };
                for (k, v) in it {
                    m.insert(k, v);
                }
                m
            }
        }
        impl<K: $($bound)*, V> Extend<(K, V)> for $name<K, V> {
            fn extend<I: IntoIterator<Item = (K, V)>>(&mut self, it: I) {
                for (k, v) in it {
                    self.insert(k, v);
                }
            }
        }
        impl<K: $($bound)*, V, const N: usize> From<[(K, V); N]> for $name<K, V> {
            fn from(a: [(K, V); N]) -> Self { a.into_iter().collect() }
        }
        impl<K, V> IntoIterator for $name<K, V> {
            type Item = (K, V);
            type IntoIter = IntoPairs<K, V>;
            fn into_iter(self) -> Self::IntoIter { IntoPairs { i: self.v.into_iter() } }
        }
        impl<'a, K, V> IntoIterator for &'a $name<K, V> {
            type Item = (&'a K, &'a V);
            type IntoIter = Iter<'a, K, V>;
            fn into_iter(self) -> Self::IntoIter { self.iter() }
        }
        impl<'a, K, V> IntoIterator for &'a mut $name<K, V> {
            type Item = (&'a K, &'a mut V);
            type IntoIter = IterMut<'a, K, V>;
            fn into_iter(self) -> Self::IntoIter { self.iter_mut() }
        }
        impl<K: $($bound)* + Borrow<Q>, Q: ?Sized + $($qbound)*, V> ::std::ops::Index<&Q> for $name<K, V> {
            type Output = V;
            fn index(&self, k: &Q) -> &V { self.get(k).expect("no entry found for key") }
        }
        impl<K: Serialize, V: Serialize> Serialize for $name<K, V> {
            fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
                let mut m = s.serialize_map(Some(self.v.len()))?;
                for (k, v) in self.v.iter() {
                    m.serialize_entry(k, v)?;
                }
                m.end()
            }
        }
        impl<'de, K: Deserialize<'de> + $($bound)*, V: Deserialize<'de>> Deserialize<'de> for $name<K, V> {
            fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
                struct Vis<K, V>(PhantomData<(K, V)>);
                impl<'de, K: Deserialize<'de> + $($bound)*, V: Deserialize<'de>> Visitor<'de> for Vis<K, V> {
                    type Value = $name<K, V>;
                    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result { f.write_str("a map") }
                    fn visit_map<A: MapAccess<'de>>(self, mut a: A) -> Result<Self::Value, A::Error> {
                        let mut m = $name::new();
                        while let Some((k, v)) = a.next_entry()? {
                            m.insert(k, v);
                        }
                        Ok(m)
                    }
                }
                d.deserialize_map(Vis(PhantomData))
            }
        }
    };
}

/// `Vec::remove` and `Vec::insert`, element by element: moving a block of memory
/// hides the elements from constant propagation.
fn take_at<T>(v: &mut Vec<T>, i: usize) -> T {
    let old = ::std::mem::take(v);
    let n = old.len();
    let p = old.as_ptr();
    let mut j = 0;
    while j < n {
        if j != i {
            v.push(unsafe { ::std::ptr::read(p.add(j)) });
        }
        j += 1;
    }
    assert!(i < n);
    let t = unsafe { ::std::ptr::read(p.add(i)) };
    ::std::mem::forget(old);
    t
}
fn put_at<T>(v: &mut Vec<T>, i: usize, t: T) {
    if i == v.len() {
        v.push(t);
        return;
    }
    let old = ::std::mem::replace(v, Vec::with_capacity(v.len() + 1));
    let n = old.len();
    let p = old.as_ptr();
    let mut t = Some(t);
    let mut j = 0;
    while j < n {
        if j == i {
            v.push(t.take().unwrap());
        }
        v.push(unsafe { ::std::ptr::read(p.add(j)) });
        j += 1;
    }
    ::std::mem::forget(old);
}

pub struct Iter<'a, K, V> {
    i: ::std::slice::Iter<'a, (K, V)>,
}
impl<'a, K, V> Clone for Iter<'a, K, V> {
    fn clone(&self) -> Self { Iter { i: self.i.clone() } }
}
impl<'a, K, V> Iterator for Iter<'a, K, V> {
    type Item = (&'a K, &'a V);
    fn next(&mut self) -> Option<Self::Item> {
        match self.i.next() { Some(e) => Some((&e.0, &e.1)), None => None }
    }
    fn size_hint(&self) -> (usize, Option<usize>) { self.i.size_hint() }
}
impl<'a, K, V> DoubleEndedIterator for Iter<'a, K, V> {
    fn next_back(&mut self) -> Option<Self::Item> {
        match self.i.next_back() { Some(e) => Some((&e.0, &e.1)), None => None }
    }
}
impl<'a, K, V> ExactSizeIterator for Iter<'a, K, V> {}
pub struct IterMut<'a, K, V> {
    i: ::std::slice::IterMut<'a, (K, V)>,
}
impl<'a, K, V> Iterator for IterMut<'a, K, V> {
    type Item = (&'a K, &'a mut V);
    fn next(&mut self) -> Option<Self::Item> {
        match self.i.next() { Some(e) => Some((&e.0, &mut e.1)), None => None }
    }
}
pub struct Keys<'a, K, V> {
    i: ::std::slice::Iter<'a, (K, V)>,
}
impl<'a, K, V> Clone for Keys<'a, K, V> {
    fn clone(&self) -> Self { Keys { i: self.i.clone() } }
}
impl<'a, K, V> Iterator for Keys<'a, K, V> {
    type Item = &'a K;
    fn next(&mut self) -> Option<Self::Item> {
        match self.i.next() { Some(e) => Some(&e.0), None => None }
    }
    fn size_hint(&self) -> (usize, Option<usize>) { self.i.size_hint() }
}
impl<'a, K, V> ExactSizeIterator for Keys<'a, K, V> {}
pub struct Values<'a, K, V> {
    i: ::std::slice::Iter<'a, (K, V)>,
}
impl<'a, K, V> Iterator for Values<'a, K, V> {
    type Item = &'a V;
    fn next(&mut self) -> Option<Self::Item> {
        match self.i.next() { Some(e) => Some(&e.1), None => None }
    }
    fn size_hint(&self) -> (usize, Option<usize>) { self.i.size_hint() }
}
pub struct ValuesMut<'a, K, V> {
    i: ::std::slice::IterMut<'a, (K, V)>,
}
impl<'a, K, V> Iterator for ValuesMut<'a, K, V> {
    type Item = &'a mut V;
    fn next(&mut self) -> Option<Self::Item> {
        match self.i.next() { Some(e) => Some(&mut e.1), None => None }
    }
}
/// A type of its own: the standard library reuses the allocation of a plain
/// vector iterator when collecting, which costs the solver dearly.
pub struct IntoPairs<K, V> {
    i: ::std::vec::IntoIter<(K, V)>,
}
impl<K, V> Iterator for IntoPairs<K, V> {
    type Item = (K, V);
    fn next(&mut self) -> Option<(K, V)> { self.i.next() }
    fn size_hint(&self) -> (usize, Option<usize>) { self.i.size_hint() }
}
impl<K, V> DoubleEndedIterator for IntoPairs<K, V> {
    fn next_back(&mut self) -> Option<(K, V)> { self.i.next_back() }
}
impl<K, V> ExactSizeIterator for IntoPairs<K, V> {}
pub struct IntoKeys<K, V> {
    i: ::std::vec::IntoIter<(K, V)>,
}
impl<K, V> Iterator for IntoKeys<K, V> {
    type Item = K;
    fn next(&mut self) -> Option<K> {
        match self.i.next() { Some(e) => Some(e.0), None => None }
    }
    fn size_hint(&self) -> (usize, Option<usize>) { self.i.size_hint() }
}
pub struct IntoValues<K, V> {
    i: ::std::vec::IntoIter<(K, V)>,
}
impl<K, V> Iterator for IntoValues<K, V> {
    type Item = V;
    fn next(&mut self) -> Option<V> {
        match self.i.next() { Some(e) => Some(e.1), None => None }
    }
    fn size_hint(&self) -> (usize, Option<usize>) { self.i.size_hint() }
}

/// A cheap necessary condition for equality, so that scanning a table with
/// fixed keys does not compare every string byte by byte.
pub trait Fp {
    fn fp(&self) -> u32;
}
impl<T: ?Sized> Fp for T {
    #[inline(always)]
    default fn fp(&self) -> u32 { 0 }
}
fn fp_bytes(b: &[u8]) -> u32 {
    let n = b.len();
    if n == 0 { 0 } else { (n as u32) << 16 | (b[n - 1] as u32) << 8 | b[n / 2] as u32 }
}
impl Fp for str {
    fn fp(&self) -> u32 { fp_bytes(self.as_bytes()) }
}
impl Fp for &str {
    fn fp(&self) -> u32 { fp_bytes(self.as_bytes()) }
}
impl Fp for String {
    fn fp(&self) -> u32 { fp_bytes(self.as_bytes()) }
}

fn sorted_slot<K: Ord, V>(v: &Vec<(K, V)>, k: &K) -> usize {
    let n = v.len();
    let mut i = 0;
    while i < n && v[i].0 < *k {
        i += 1;
    }
    i
}
fn end_slot<K, V>(v: &Vec<(K, V)>, _k: &K) -> usize {
    v.len()
}

map!(BTreeMap, BEntry, BOcc, BVac, [Ord], [Ord], sorted_slot);
map!(HashMap, HEntry, HOcc, HVac, [Eq + Hash], [Eq + Hash], end_slot);

macro_rules! set {
    ($name:ident, [$($bound:tt)*], [$($qbound:tt)*], $find_slot:expr) => {
        #[derive(Clone, PartialEq, Eq)]
        pub struct $name<T> {
            pub v: Vec<(T, ())>,
        }
        impl<T> $name<T> {
            pub const fn new() -> Self { Self { v: Vec::new() } }
            pub fn with_capacity(_n: usize) -> Self { Self { v: Vec::new() } }
            pub fn len(&self) -> usize { self.v.len() }
            pub fn is_empty(&self) -> bool { self.v.len() == 0 }
            pub fn clear(&mut self) { self.v.clear() }
            pub fn iter(&self) -> Keys<'_, T, ()> { Keys { i: self.v.iter() } }
            pub fn drain(&mut self) -> IntoKeys<T, ()> {
                IntoKeys { i: ::std::mem::take(&mut self.v).into_iter() }
            }
            pub fn retain<F: FnMut(&T) -> bool>(&mut self, mut f: F) { self.v.retain(|e| f(&e.0)) }
            pub fn first(&self) -> Option<&T> { self.v.first().map(|e| &e.0) }
            pub fn last(&self) -> Option<&T> { self.v.last().map(|e| &e.0) }
            pub fn pop_first(&mut self) -> Option<T> {
                if self.v.len() == 0 { None } else { Some(take_at(&mut self.v, 0).0) }
            }
        }
        impl<T: $($bound)*> $name<T> {
            fn find<Q: ?Sized + $($qbound)*>(&self, k: &Q) -> Option<usize> where T: Borrow<Q> {
                let n = self.v.len();
                let mut i = 0;
                while i < n {
                    if self.v[i].0.borrow() == k { return Some(i); }
                    i += 1;
                }
                None
            }
            pub fn insert(&mut self, k: T) -> bool {
                if self.find::<T>(&k).is_some() { return false; }
                let f: fn(&Vec<(T, ())>, &T) -> usize = $find_slot;
                let i = f(&self.v, &k);
                if i == self.v.len() { self.v.push((k, ())); } else { put_at(&mut self.v, i, (k, ())); }
                true
            }
            pub fn replace(&mut self, k: T) -> Option<T> {
                match self.find::<T>(&k) {
                    Some(i) => Some(::std::mem::replace(&mut self.v[i].0, k)),
                    None => { self.insert(k); None }
                }
            }
            pub fn contains<Q: ?Sized + $($qbound)*>(&self, k: &Q) -> bool where T: Borrow<Q> { self.find(k).is_some() }
            pub fn get<Q: ?Sized + $($qbound)*>(&self, k: &Q) -> Option<&T> where T: Borrow<Q> {
                match self.find(k) { Some(i) => Some(&self.v[i].0), None => None }
            }
            pub fn remove<Q: ?Sized + $($qbound)*>(&mut self, k: &Q) -> bool where T: Borrow<Q> {
                match self.find(k) { Some(i) => { take_at(&mut self.v, i); true } None => false }
            }
            pub fn take<Q: ?Sized + $($qbound)*>(&mut self, k: &Q) -> Option<T> where T: Borrow<Q> {
                match self.find(k) { Some(i) => Some(take_at(&mut self.v, i).0), None => None }
            }
            pub fn is_subset(&self, o: &Self) -> bool { self.iter().all(|t| o.contains::<T>(t)) }
            pub fn is_superset(&self, o: &Self) -> bool { o.is_subset(self) }
            pub fn is_disjoint(&self, o: &Self) -> bool { !self.iter().any(|t| o.contains::<T>(t)) }
            pub fn difference<'a>(&'a self, o: &'a Self) -> ::std::vec::IntoIter<&'a T> {
                self.iter().filter(|t| !o.contains::<T>(*t)).collect::<Vec<_>>().into_iter()
            }
            pub fn intersection<'a>(&'a self, o: &'a Self) -> ::std::vec::IntoIter<&'a T> {
                self.iter().filter(|t| o.contains::<T>(*t)).collect::<Vec<_>>().into_iter()
            }
            pub fn union<'a>(&'a self, o: &'a Self) -> ::std::vec::IntoIter<&'a T> {
                let mut v = self.iter().collect::<Vec<_>>();
                v.extend(o.iter().filter(|t| !self.contains::<T>(*t)));
                v.into_iter()
            }
        }
        impl<T> Default for $name<T> { fn default() -> Self { Self::new() } }
        impl<T: fmt::Debug> fmt::Debug for $name<T> {
            fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result { f.debug_set().entries(self.iter()).finish() }
        }
        impl<T: $($bound)*> FromIterator<T> for $name<T> {
            fn from_iter<I: IntoIterator<Item = T>>(it: I) -> Self {
                let mut m = Self::new();
                for k in it { m.insert(k); }
                m
            }
        }
        impl<T: $($bound)*> Extend<T> for $name<T> {
            fn extend<I: IntoIterator<Item = T>>(&mut self, it: I) { for k in it { self.insert(k); } }
        }
        impl<T: $($bound)*, const N: usize> From<[T; N]> for $name<T> {
            fn from(a: [T; N]) -> Self { a.into_iter().collect() }
        }
        impl<T> IntoIterator for $name<T> {
            type Item = T;
            type IntoIter = IntoKeys<T, ()>;
            fn into_iter(self) -> Self::IntoIter { IntoKeys { i: self.v.into_iter() } }
        }
        impl<'a, T> IntoIterator for &'a $name<T> {
            type Item = &'a T;
            type IntoIter = Keys<'a, T, ()>;
            fn into_iter(self) -> Self::IntoIter { self.iter() }
        }
        impl<T: Serialize> Serialize for $name<T> {
            fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
                let mut m = s.serialize_seq(Some(self.v.len()))?;
                for (k, _) in self.v.iter() { m.serialize_element(k)?; }
                m.end()
            }
        }
        impl<'de, T: Deserialize<'de> + $($bound)*> Deserialize<'de> for $name<T> {
            fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
                Ok(Vec::<T>::deserialize(d)?.into_iter().collect())
            }
        }
    };
}
set!(BTreeSet, [Ord], [Ord], sorted_slot);
set!(HashSet, [Eq + Hash], [Eq + Hash], end_slot);

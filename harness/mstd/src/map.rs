use crate::order::perm;
use ::std::borrow::Borrow;
use ::std::fmt;

#[derive(Clone)]
pub struct HashMap<K, V> { v: Vec<(K, V)> }
impl<K, V> Default for HashMap<K, V> { fn default() -> Self { HashMap { v: Vec::new() } } }
impl<K, V> HashMap<K, V> {
    pub fn new() -> Self { Self::default() }
    pub fn with_capacity(_n: usize) -> Self { Self::default() }
    pub fn len(&self) -> usize { self.v.len() }
    pub fn is_empty(&self) -> bool { self.v.is_empty() }
    pub fn clear(&mut self) { self.v.clear() }
    pub fn reserve(&mut self, _n: usize) {}
    pub fn capacity(&self) -> usize { self.v.capacity() }
    pub fn iter(&self) -> ::std::vec::IntoIter<(&K, &V)> { perm(self.v.len()).into_iter().map(|i| { let e = &self.v[i]; (&e.0, &e.1) }).collect::<Vec<_>>().into_iter() }
    pub fn iter_mut(&mut self) -> ::std::vec::IntoIter<(&K, &mut V)> {
        let p = perm(self.v.len());
        let mut o: Vec<Option<(&K, &mut V)>> = self.v.iter_mut().map(|e| Some((&e.0, &mut e.1))).collect();
        p.into_iter().map(|i| o[i].take().unwrap()).collect::<Vec<_>>().into_iter()
    }
    pub fn keys(&self) -> ::std::vec::IntoIter<&K> { self.iter().map(|e| e.0).collect::<Vec<_>>().into_iter() }
    pub fn values(&self) -> ::std::vec::IntoIter<&V> { self.iter().map(|e| e.1).collect::<Vec<_>>().into_iter() }
    pub fn values_mut(&mut self) -> ::std::vec::IntoIter<&mut V> { self.iter_mut().map(|e| e.1).collect::<Vec<_>>().into_iter() }
    pub fn into_keys(self) -> ::std::vec::IntoIter<K> { self.into_iter().map(|e| e.0).collect::<Vec<_>>().into_iter() }
    pub fn into_values(self) -> ::std::vec::IntoIter<V> { self.into_iter().map(|e| e.1).collect::<Vec<_>>().into_iter() }
    pub fn drain(&mut self) -> ::std::vec::IntoIter<(K, V)> { ::std::mem::take(self).into_iter() }
    pub fn retain<F: FnMut(&K, &mut V) -> bool>(&mut self, mut f: F) { self.v.retain_mut(|e| f(&e.0, &mut e.1)) }
}
impl<K: Eq, V> HashMap<K, V> {
    fn pos<Q: ?Sized + Eq>(&self, k: &Q) -> Option<usize> where K: Borrow<Q> { for i in 0..self.v.len() { if self.v[i].0.borrow() == k { return Some(i); } } None }
    pub fn insert(&mut self, k: K, v: V) -> Option<V> {
        match self.pos(&k) { Some(i) => Some(::std::mem::replace(&mut self.v[i].1, v)), None => { self.v.push((k, v)); None } }
    }
    pub fn get<Q: ?Sized + Eq>(&self, k: &Q) -> Option<&V> where K: Borrow<Q> { self.pos(k).map(|i| &self.v[i].1) }
    pub fn get_key_value<Q: ?Sized + Eq>(&self, k: &Q) -> Option<(&K, &V)> where K: Borrow<Q> { self.pos(k).map(|i| (&self.v[i].0, &self.v[i].1)) }
    pub fn get_mut<Q: ?Sized + Eq>(&mut self, k: &Q) -> Option<&mut V> where K: Borrow<Q> { match self.pos(k) { Some(i) => Some(&mut self.v[i].1), None => None } }
    pub fn contains_key<Q: ?Sized + Eq>(&self, k: &Q) -> bool where K: Borrow<Q> { self.pos(k).is_some() }
    pub fn remove<Q: ?Sized + Eq>(&mut self, k: &Q) -> Option<V> where K: Borrow<Q> { self.pos(k).map(|i| self.v.remove(i).1) }
    pub fn remove_entry<Q: ?Sized + Eq>(&mut self, k: &Q) -> Option<(K, V)> where K: Borrow<Q> { self.pos(k).map(|i| self.v.remove(i)) }
    pub fn entry(&mut self, k: K) -> Entry<'_, K, V> {
        match self.pos(&k) { Some(i) => Entry::Occupied(OccupiedEntry { m: self, i }), None => Entry::Vacant(VacantEntry { m: self, k }) }
    }
}
pub enum Entry<'a, K, V> { Occupied(OccupiedEntry<'a, K, V>), Vacant(VacantEntry<'a, K, V>) }
pub struct OccupiedEntry<'a, K, V> { m: &'a mut HashMap<K, V>, i: usize }
pub struct VacantEntry<'a, K, V> { m: &'a mut HashMap<K, V>, k: K }
impl<'a, K, V> OccupiedEntry<'a, K, V> {
    pub fn get(&self) -> &V { &self.m.v[self.i].1 }
    pub fn get_mut(&mut self) -> &mut V { &mut self.m.v[self.i].1 }
    pub fn into_mut(self) -> &'a mut V { &mut self.m.v[self.i].1 }
    pub fn insert(&mut self, v: V) -> V { ::std::mem::replace(self.get_mut(), v) }
    pub fn remove(self) -> V { self.m.v.remove(self.i).1 }
    pub fn key(&self) -> &K { &self.m.v[self.i].0 }
}
impl<'a, K, V> VacantEntry<'a, K, V> {
    pub fn insert(self, v: V) -> &'a mut V { self.m.v.push((self.k, v)); &mut self.m.v.last_mut().unwrap().1 }
    pub fn key(&self) -> &K { &self.k }
    pub fn into_key(self) -> K { self.k }
}
impl<'a, K, V> Entry<'a, K, V> {
    pub fn or_insert(self, v: V) -> &'a mut V { match self { Entry::Occupied(o) => o.into_mut(), Entry::Vacant(e) => e.insert(v) } }
    pub fn or_insert_with<F: FnOnce() -> V>(self, f: F) -> &'a mut V { match self { Entry::Occupied(o) => o.into_mut(), Entry::Vacant(e) => e.insert(f()) } }
    pub fn or_default(self) -> &'a mut V where V: Default { self.or_insert_with(V::default) }
    pub fn and_modify<F: FnOnce(&mut V)>(mut self, f: F) -> Self { if let Entry::Occupied(o) = &mut self { f(o.get_mut()) } self }
    pub fn key(&self) -> &K { match self { Entry::Occupied(o) => o.key(), Entry::Vacant(v) => v.key() } }
}
impl<K, V> IntoIterator for HashMap<K, V> {
    type Item = (K, V);
    type IntoIter = ::std::vec::IntoIter<(K, V)>;
    fn into_iter(self) -> Self::IntoIter {
        let p = perm(self.v.len());
        let mut o: Vec<Option<(K, V)>> = self.v.into_iter().map(Some).collect();
        p.into_iter().map(|i| o[i].take().unwrap()).collect::<Vec<_>>().into_iter()
    }
}
impl<'a, K, V> IntoIterator for &'a HashMap<K, V> { type Item = (&'a K, &'a V); type IntoIter = ::std::vec::IntoIter<(&'a K, &'a V)>; fn into_iter(self) -> Self::IntoIter { self.iter() } }
impl<'a, K, V> IntoIterator for &'a mut HashMap<K, V> { type Item = (&'a K, &'a mut V); type IntoIter = ::std::vec::IntoIter<(&'a K, &'a mut V)>; fn into_iter(self) -> Self::IntoIter { self.iter_mut() } }
impl<K: Eq, V> FromIterator<(K, V)> for HashMap<K, V> { fn from_iter<T: IntoIterator<Item = (K, V)>>(t: T) -> Self { let mut m = Self::default(); for (k, v) in t { m.insert(k, v); } m } }
impl<K: Eq, V> Extend<(K, V)> for HashMap<K, V> { fn extend<T: IntoIterator<Item = (K, V)>>(&mut self, t: T) { for (k, v) in t { self.insert(k, v); } } }
impl<K: Eq, V, const N: usize> From<[(K, V); N]> for HashMap<K, V> { fn from(a: [(K, V); N]) -> Self { a.into_iter().collect() } }
impl<K: Eq, V: PartialEq> PartialEq for HashMap<K, V> { fn eq(&self, o: &Self) -> bool { self.v.len() == o.v.len() && self.v.iter().all(|(k, v)| o.get(k).map_or(false, |w| *v == *w)) } }
impl<K: Eq, V: Eq> Eq for HashMap<K, V> {}
impl<K: fmt::Debug, V: fmt::Debug> fmt::Debug for HashMap<K, V> { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { f.debug_map().entries(self.v.iter().map(|e| (&e.0, &e.1))).finish() } }
impl<K: Eq + Borrow<Q>, Q: ?Sized + Eq, V> ::std::ops::Index<&Q> for HashMap<K, V> { type Output = V; fn index(&self, k: &Q) -> &V { self.get(k).expect("no entry found for key") } }

#[derive(Clone)]
pub struct HashSet<K> { m: HashMap<K, ()> }
impl<K> Default for HashSet<K> { fn default() -> Self { HashSet { m: HashMap::default() } } }
impl<K> HashSet<K> {
    pub fn new() -> Self { Self::default() }
    pub fn with_capacity(_n: usize) -> Self { Self::default() }
    pub fn len(&self) -> usize { self.m.len() }
    pub fn is_empty(&self) -> bool { self.m.is_empty() }
    pub fn clear(&mut self) { self.m.clear() }
    pub fn iter(&self) -> ::std::vec::IntoIter<&K> { self.m.keys() }
    pub fn drain(&mut self) -> ::std::vec::IntoIter<K> { ::std::mem::take(&mut self.m).into_keys() }
    pub fn retain<F: FnMut(&K) -> bool>(&mut self, mut f: F) { self.m.retain(|k, _| f(k)) }
}
impl<K: Eq> HashSet<K> {
    pub fn insert(&mut self, k: K) -> bool { if self.m.contains_key(&k) { false } else { self.m.v.push((k, ())); true } }
    pub fn contains<Q: ?Sized + Eq>(&self, k: &Q) -> bool where K: Borrow<Q> { self.m.contains_key(k) }
    pub fn get<Q: ?Sized + Eq>(&self, k: &Q) -> Option<&K> where K: Borrow<Q> { self.m.get_key_value(k).map(|e| e.0) }
    pub fn remove<Q: ?Sized + Eq>(&mut self, k: &Q) -> bool where K: Borrow<Q> { self.m.remove(k).is_some() }
    pub fn take<Q: ?Sized + Eq>(&mut self, k: &Q) -> Option<K> where K: Borrow<Q> { self.m.remove_entry(k).map(|e| e.0) }
    pub fn is_subset(&self, o: &Self) -> bool { self.m.v.iter().all(|e| o.contains(&e.0)) }
}
impl<K> IntoIterator for HashSet<K> { type Item = K; type IntoIter = ::std::vec::IntoIter<K>; fn into_iter(self) -> Self::IntoIter { self.m.into_keys() } }
impl<'a, K> IntoIterator for &'a HashSet<K> { type Item = &'a K; type IntoIter = ::std::vec::IntoIter<&'a K>; fn into_iter(self) -> Self::IntoIter { self.iter() } }
impl<K: Eq> FromIterator<K> for HashSet<K> { fn from_iter<T: IntoIterator<Item = K>>(t: T) -> Self { let mut m = Self::default(); for k in t { m.insert(k); } m } }
impl<K: Eq> Extend<K> for HashSet<K> { fn extend<T: IntoIterator<Item = K>>(&mut self, t: T) { for k in t { self.insert(k); } } }
impl<K: Eq, const N: usize> From<[K; N]> for HashSet<K> { fn from(a: [K; N]) -> Self { a.into_iter().collect() } }
impl<K: Eq> PartialEq for HashSet<K> { fn eq(&self, o: &Self) -> bool { self.len() == o.len() && self.is_subset(o) } }
impl<K: Eq> Eq for HashSet<K> {}
impl<K: fmt::Debug> fmt::Debug for HashSet<K> { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { f.debug_set().entries(self.m.v.iter().map(|e| &e.0)).finish() } }

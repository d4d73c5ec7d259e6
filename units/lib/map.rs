// ---- map.rs: hash maps and sets as mathematical maps and sets (TRUSTED: std/hashbrown, and Eq/Hash of the keys being those of the derived structural equality). ----
verus! {
pub assume_specification<T>[std::mem::replace::<T>](dest: &mut T, src: T) -> (r: T)
    ensures r == *old(dest), *final(dest) == src;

#[verifier::external_body] #[verifier::reject_recursive_types(K)] #[verifier::reject_recursive_types(V)]
pub struct VxMap<K, V> { m: std::collections::HashMap<K, V> }
impl<K, V> VxMap<K, V> {
    pub uninterp spec fn view(&self) -> Map<K, V>;
    #[verifier::external_body]
    pub fn default() -> (r: Self) ensures r@ == Map::<K, V>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize) ensures r == self@.dom().len(), self@.dom().finite() { unimplemented!() }
    #[verifier::external_body]
    pub fn is_empty(&self) -> (r: bool) ensures r <==> self@ =~= Map::<K, V>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn contains_key(&self, k: &K) -> (r: bool) ensures r == self@.contains_key(*k) { unimplemented!() }
    #[verifier::external_body]
    pub fn get(&self, k: &K) -> (r: Option<&V>)
        ensures match r { Some(v) => self@.contains_key(*k) && *v == self@[*k], None => !self@.contains_key(*k) } { unimplemented!() }
    #[verifier::external_body]
    pub fn get_mut(&mut self, k: &K) -> (r: Option<&mut V>)
        ensures match r {
            Some(v) => old(self)@.contains_key(*k) && *v == old(self)@[*k] && final(self)@ == old(self)@.insert(*k, *final(v)),
            None => !old(self)@.contains_key(*k) && final(self)@ == old(self)@ } { unimplemented!() }
    #[verifier::external_body]
    pub fn insert(&mut self, k: K, v: V) -> (r: Option<V>)
        ensures final(self)@ == old(self)@.insert(k, v), r == (if old(self)@.contains_key(k) { Some(old(self)@[k]) } else { None }) { unimplemented!() }
    #[verifier::external_body]
    pub fn remove(&mut self, k: &K) -> (r: Option<V>)
        ensures final(self)@ == old(self)@.remove(*k), r == (if old(self)@.contains_key(*k) { Some(old(self)@[*k]) } else { None }) { unimplemented!() }
    #[verifier::external_body]
    pub fn clear(&mut self) ensures final(self)@ == Map::<K, V>::empty() { unimplemented!() }
    /// map[&k]: panics when the key is absent
    #[verifier::external_body]
    pub fn vx_index(&self, k: &K) -> (r: &V) requires self@.contains_key(*k) ensures *r == self@[*k] { unimplemented!() }
    /// map.entry(k).or_insert(v)
    #[verifier::external_body]
    pub fn vx_or_insert(&mut self, k: K, v: V) -> (r: &mut V)
        ensures *r == (if old(self)@.contains_key(k) { old(self)@[k] } else { v }), final(self)@ == old(self)@.insert(k, *final(r)) { unimplemented!() }
    /// map.keys()/iter().keys: every key once, in some order
    #[verifier::external_body]
    pub fn keys(&self) -> (r: VxKeys<'_, K>)
        ensures forall|k: K| #[trigger] r.rest().contains(k) <==> self@.contains_key(k), r.rest().no_duplicates(), r.rest().len() == self@.dom().len() { unimplemented!() }
}
impl<K, T> VxMap<K, Vec<T>> {
    /// map.entry(k).or_default() on a map of vectors
    #[verifier::external_body]
    pub fn vx_or_default(&mut self, k: K) -> (r: &mut Vec<T>)
        ensures (*r)@ == (if old(self)@.contains_key(k) { old(self)@[k]@ } else { Seq::empty() }),
            old(self)@.contains_key(k) ==> *r == old(self)@[k],
            final(self)@ == old(self)@.insert(k, *final(r)) { unimplemented!() }
}
impl<K, V> Clone for VxMap<K, V> {
    #[verifier::external_body]
    fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() }
}
#[verifier::external_body] #[verifier::reject_recursive_types(K)]
pub struct VxKeys<'a, K> { k: &'a K }
impl<'a, K> VxKeys<'a, K> { pub uninterp spec fn rest(&self) -> Seq<K>; }

#[verifier::external_body] #[verifier::reject_recursive_types(K)]
pub struct VxSet<K> { m: std::collections::HashSet<K> }
impl<K> VxSet<K> {
    pub uninterp spec fn view(&self) -> Set<K>;
    #[verifier::external_body]
    pub fn default() -> (r: Self) ensures r@ == Set::<K>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn insert(&mut self, k: K) -> (r: bool) ensures final(self)@ == old(self)@.insert(k), r == !old(self)@.contains(k) { unimplemented!() }
    #[verifier::external_body]
    pub fn contains(&self, k: &K) -> (r: bool) ensures r == self@.contains(*k) { unimplemented!() }
    #[verifier::external_body]
    pub fn is_empty(&self) -> (r: bool) ensures r <==> self@ =~= Set::<K>::empty() { unimplemented!() }
}
#[verifier::external_body]
pub fn vx_take_set<K>(s: &mut VxSet<K>) -> (r: VxSet<K>) ensures r == *old(s), final(s)@ == Set::<K>::empty() { unimplemented!() }
/// set.extend(map.drain().map(|(key, _)| key))
#[verifier::external_body]
pub fn vx_extend_drained<K, V>(s: &mut VxSet<K>, m: &mut VxMap<K, V>)
    ensures final(s)@ == old(s)@.union(old(m)@.dom()), final(m)@ == Map::<K, V>::empty() { unimplemented!() }
}

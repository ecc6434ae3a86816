// ---- shim: std::collections::HashMap as a partial map (TRUSTED contract of the standard library) ----
pub mod hmm { use super::*;
#[verifier::external_body]
#[verifier::reject_recursive_types(K)]
#[verifier::reject_recursive_types(V)]
pub struct HashMap<K, V> { x: std::collections::HashMap<K, V> }
impl<K, V> View for HashMap<K, V> { type V = Map<K, V>; uninterp spec fn view(&self) -> Map<K, V>; }
// every key once, with its value; in any order
pub open spec fn lists<K, V>(ks: Seq<K>, vs: Seq<V>, m: Map<K, V>) -> bool {
    ks.no_duplicates() && (forall|k: K| ks.contains(k) <==> #[trigger] m.contains_key(k)) && vs.len() == ks.len() && forall|i: int| 0 <= i < ks.len() ==> #[trigger] vs[i] == m[ks[i]] }
#[verifier::reject_recursive_types(K)]
#[verifier::reject_recursive_types(V)]
pub struct Entry<'a, K, V> { pub m: &'a mut HashMap<K, V>, pub k: K }
impl<K, V> HashMap<K, V> {
    #[verifier::external_body]
    pub fn new() -> (r: Self) ensures r@ == Map::<K, V>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn insert(&mut self, k: K, v: V) -> (r: Option<V>) ensures final(self)@ == old(self)@.insert(k, v), r == (if old(self)@.contains_key(k) { Some(old(self)@[k]) } else { None }) { unimplemented!() }
    #[verifier::external_body]
    pub fn get(&self, k: &K) -> (r: Option<&V>) ensures r is Some == self@.contains_key(*k), r is Some ==> *(r->0) == self@[*k] { unimplemented!() }
    #[verifier::external_body]
    pub fn contains_key(&self, k: &K) -> (r: bool) ensures r == self@.contains_key(*k) { unimplemented!() }
    #[verifier::external_body]
    pub fn at(&self, k: &K) -> (r: &V) requires self@.contains_key(*k) ensures *r == self@[*k] { unimplemented!() }
    pub fn entry<'a>(&'a mut self, k: K) -> (r: Entry<'a, K, V>) ensures r.k == k, *r.m == *old(self), *final(r.m) == *final(self) { Entry { m: self, k } }
}
impl<K, V: Copy> HashMap<K, V> {
    #[verifier::external_body]
    pub fn values(&self) -> (r: It<V>) ensures exists|ks: Seq<K>| #[trigger] lists(ks, r@, self@) { unimplemented!() }
}
impl<'a, K, V> Entry<'a, K, V> {
    #[verifier::external_body]
    pub fn or_insert(self, v: V) -> (r: &'a mut V)
        ensures *r == (if old(self.m)@.contains_key(self.k) { old(self.m)@[self.k] } else { v }), final(self.m)@ == old(self.m)@.insert(self.k, *final(r)) { unimplemented!() }
}
impl<'a, K, V> Entry<'a, K, V> {
    #[verifier::external_body]
    pub fn or_insert_with<F: FnOnce() -> V>(self, f: F) -> (r: &'a mut V)
        requires f.requires(()),
        ensures old(self.m)@.contains_key(self.k) ==> *r == old(self.m)@[self.k], !old(self.m)@.contains_key(self.k) ==> f.ensures((), *r),
            final(self.m)@ == old(self.m)@.insert(self.k, *final(r)) { unimplemented!() }
}
}
pub use hmm::*;

// ---- shim: HashMap<String, V> as a partial map from text (TRUSTED contract of the standard library), and the two parts of a symbol ----
pub mod smm { use super::*;
#[verifier::external_body]
#[verifier::reject_recursive_types(V)]
pub struct SMap<V> { x: std::collections::HashMap<String, V> }
impl<V> View for SMap<V> { type V = Map<Seq<char>, V>; uninterp spec fn view(&self) -> Map<Seq<char>, V>; }
pub trait Text { spec fn tx(&self) -> Seq<char>; }
impl Text for str { open spec fn tx(&self) -> Seq<char> { self@ } }
impl Text for String { open spec fn tx(&self) -> Seq<char> { self@ } }
impl<V> SMap<V> {
    #[verifier::external_body]
    pub fn at<K: Text + ?Sized>(&self, k: &K) -> (r: &V) requires self@.contains_key(k.tx()) ensures *r == self@[k.tx()] { unimplemented!() }
    #[verifier::external_body]
    pub fn get<K: Text + ?Sized>(&self, k: &K) -> (r: Option<&V>) ensures r is Some == self@.contains_key(k.tx()), r is Some ==> *(r->0) == self@[k.tx()] { unimplemented!() }
}
pub uninterp spec fn base_of(s: Seq<char>) -> Seq<char>;
pub uninterp spec fn quote_of(s: Seq<char>) -> Seq<char>;
#[verifier::external_body]
pub fn base_asset_<K: Text + ?Sized>(k: &K) -> (r: &str) ensures r@ == base_of(k.tx()) { unimplemented!() }
#[verifier::external_body]
pub fn quote_asset_<K: Text + ?Sized>(k: &K) -> (r: &str) ensures r@ == quote_of(k.tx()) { unimplemented!() }
}
pub use smm::*;

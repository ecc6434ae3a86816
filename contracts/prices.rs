// shim: HashMap<String, Vec<f64>> looked up by text, and the two parts of a symbol (C02 - C21 use no more of it)
pub mod prm { use super::*;
#[verifier::external_body]
pub struct Prices { x: u8 }
impl View for Prices { type V = Map<Seq<char>, Seq<Fl>>; uninterp spec fn view(&self) -> Map<Seq<char>, Seq<Fl>>; }
impl Prices {
    #[verifier::external_body]
    pub fn get(&self, k: &str) -> (r: Option<&Vec<Fl>>) ensures r is Some == self@.contains_key(k@), r is Some ==> (r->0)@ == self@[k@] { unimplemented!() }
    #[verifier::external_body]
    pub fn at(&self, k: &str) -> (r: &Vec<Fl>) requires self@.contains_key(k@) ensures r@ == self@[k@] { unimplemented!() }
}
pub uninterp spec fn base_of(s: Seq<char>) -> Seq<char>;
pub uninterp spec fn quote_of(s: Seq<char>) -> Seq<char>;
pub trait SymbolExt {
    spec fn base(&self) -> Seq<char>;
    spec fn quote(&self) -> Seq<char>;
    fn base_asset(&self) -> (r: &str) ensures r@ == self.base();
    fn quote_asset(&self) -> (r: &str) ensures r@ == self.quote();
}
impl SymbolExt for str {
    open spec fn base(&self) -> Seq<char> { base_of(self@) }
    open spec fn quote(&self) -> Seq<char> { quote_of(self@) }
    #[verifier::external_body]
    fn base_asset(&self) -> (r: &str) { unimplemented!() }
    #[verifier::external_body]
    fn quote_asset(&self) -> (r: &str) { unimplemented!() }
}
}
pub use prm::*;

// ---- shim: the random source of the rand crate, as far as generating parameters uses it (TRUSTED contracts): any
// value in the documented range ----
pub mod rngm { use super::*;
#[verifier::external_body]
pub struct StdRng { x: u64 }
// values gen_range can draw
pub trait Sampled: Sized { spec fn lt(a: Self, b: Self) -> bool; spec fn le(a: Self, b: Self) -> bool; }
impl Sampled for u32 { open spec fn lt(a: u32, b: u32) -> bool { a < b } open spec fn le(a: u32, b: u32) -> bool { a <= b } }
impl Sampled for i32 { open spec fn lt(a: i32, b: i32) -> bool { a < b } open spec fn le(a: i32, b: i32) -> bool { a <= b } }
impl Sampled for u64 { open spec fn lt(a: u64, b: u64) -> bool { a < b } open spec fn le(a: u64, b: u64) -> bool { a <= b } }
impl Sampled for usize { open spec fn lt(a: usize, b: usize) -> bool { a < b } open spec fn le(a: usize, b: usize) -> bool { a <= b } }
impl Sampled for Fl { open spec fn lt(a: Fl, b: Fl) -> bool { fl_lt(a, b) } open spec fn le(a: Fl, b: Fl) -> bool { fl_lt(a, b) || a == b } }
impl StdRng {
    #[verifier::external_body]
    pub fn gen_range<T: Sampled>(&mut self, a: T, b: T) -> (r: T) requires T::lt(a, b) ensures T::le(a, r), T::lt(r, b) { unimplemented!() }
    #[verifier::external_body]
    pub fn gen_range_incl<T: Sampled>(&mut self, a: T, b: T) -> (r: T) requires T::le(a, b) ensures T::le(a, r), T::le(r, b) { unimplemented!() }
    #[verifier::external_body]
    pub fn gen_bool(&mut self, p: Fl) -> (r: bool) requires fl_unit(p) { unimplemented!() }
}
pub trait ChooseX<T> { spec fn cv(&self) -> Seq<T>;
    fn choose(&self, rng: &mut StdRng) -> (r: Option<&T>) ensures r is None <==> self.cv().len() == 0, r is Some ==> self.cv().contains(*r->0); }
impl<T> ChooseX<T> for Vec<T> { open spec fn cv(&self) -> Seq<T> { self@ }
    #[verifier::external_body] fn choose(&self, rng: &mut StdRng) -> (r: Option<&T>) { unimplemented!() } }
impl<T> ChooseX<T> for [T] { open spec fn cv(&self) -> Seq<T> { self@ }
    #[verifier::external_body] fn choose(&self, rng: &mut StdRng) -> (r: Option<&T>) { unimplemented!() } }
impl<T, const N: usize> ChooseX<T> for [T; N] { open spec fn cv(&self) -> Seq<T> { self@ }
    #[verifier::external_body] fn choose(&self, rng: &mut StdRng) -> (r: Option<&T>) { unimplemented!() } }
// std::mem::discriminant: tells the variants of an enumeration apart
pub trait Tagged { spec fn tag(&self) -> int; }
#[verifier::external_body] pub struct Discr { x: u64 }
pub uninterp spec fn discr_of(d: Discr) -> int;
impl PartialEq for Discr { #[verifier::external_body] fn eq(&self, o: &Discr) -> bool { unimplemented!() } }
impl PartialEqSpecImpl<Discr> for Discr {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, o: &Discr) -> bool { discr_of(*self) == discr_of(*o) } }
#[verifier::external_body] pub fn discriminant<T: Tagged>(x: &T) -> (r: Discr) ensures discr_of(r) == x.tag() { unimplemented!() }
impl<T: Copy, const N: usize> IterX<T> for [T; N] { open spec fn items(&self) -> Seq<T> { self@ }
    #[verifier::external_body] fn iter_x(&self) -> (r: It<T>) { unimplemented!() } }
impl It<usize> {
    pub fn max(self) -> (r: Option<usize>)
        ensures self@.len() == 0 ==> r is None, self@.len() > 0 ==> r is Some && self@.contains(r->0) && forall|i: int| 0 <= i < self@.len() ==> #[trigger] self@[i] <= r->0
    {
        if self.v.len() == 0 { return None; }
        let mut m = self.v[0];
        let mut i: usize = 1;
        while i < self.v.len()
            invariant 1 <= i <= self@.len(), self@.contains(m), forall|k: int| 0 <= k < i ==> #[trigger] self@[k] <= m decreases self@.len() - i
        { if self.v[i] > m { m = self.v[i]; } i = i + 1; }
        Some(m)
    }
}
pub open spec fn nmax(a: nat, b: nat) -> nat { if a >= b { a } else { b } }
}
pub use rngm::*;

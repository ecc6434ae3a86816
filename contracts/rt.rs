//@include std.rs
// ---- shim: panics. assert!/panic! in the extracted text become calls whose precondition must be proved ----
#[verifier::external_body]
pub fn rt_assert(b: bool) requires b ensures b { assert!(b) }
#[verifier::external_body]
pub fn rt_panic() -> ! requires false { panic!() }
// ---- shim: std::cmp::{min,max} on integers (contract = definition) ----
pub trait OrdInt: Sized + Copy { spec fn ival(self) -> int; fn le_(self, o: Self) -> (r: bool) ensures r == (self.ival() <= o.ival()); }
impl OrdInt for u32 { open spec fn ival(self) -> int { self as int } fn le_(self, o: Self) -> (r: bool) { self <= o } }
impl OrdInt for u64 { open spec fn ival(self) -> int { self as int } fn le_(self, o: Self) -> (r: bool) { self <= o } }
impl OrdInt for usize { open spec fn ival(self) -> int { self as int } fn le_(self, o: Self) -> (r: bool) { self <= o } }
pub fn min<T: OrdInt>(a: T, b: T) -> (r: T) ensures r == (if a.ival() <= b.ival() { a } else { b }) { if a.le_(b) { a } else { b } }
pub fn max<T: OrdInt>(a: T, b: T) -> (r: T) ensures r == (if b.ival() < a.ival() { a } else { b }) { if b.le_(a) { if a.le_(b) { b } else { a } } else { b } }


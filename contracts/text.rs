// ---- shim: text. &str and String as sequences of characters (TRUSTED contracts of the standard library) ----
pub mod txm { use super::*;
pub open spec fn is_dig(c: char) -> bool { '0' <= c && c <= '9' }
pub open spec fn is_alpha(c: char) -> bool { 'a' <= c && c <= 'z' || 'A' <= c && c <= 'Z' }
pub open spec fn all_dig(s: Seq<char>) -> bool { forall|i: int| 0 <= i < s.len() ==> is_dig(#[trigger] s[i]) }
pub assume_specification [char::is_ascii_digit] (c: &char) -> (r: bool) ensures r == is_dig(*c);
pub assume_specification [char::is_ascii_alphabetic] (c: &char) -> (r: bool) ensures r == is_alpha(*c);
pub assume_specification [char::is_ascii_alphanumeric] (c: &char) -> (r: bool) ensures r == (is_alpha(*c) || is_dig(*c));
// decimal numbers
pub open spec fn dig(c: char) -> nat { (c as u32 - '0' as u32) as nat }
pub open spec fn dig_c(n: nat) -> char { if n == 0 { '0' } else if n == 1 { '1' } else if n == 2 { '2' } else if n == 3 { '3' } else if n == 4 { '4' } else if n == 5 { '5' } else if n == 6 { '6' } else if n == 7 { '7' } else if n == 8 { '8' } else { '9' } }
pub open spec fn val(s: Seq<char>) -> nat decreases s.len() { if s.len() == 0 { 0 } else { val(s.drop_last()) * 10 + dig(s.last()) } }
pub open spec fn dec(n: nat) -> Seq<char> decreases n { if n < 10 { seq![dig_c(n)] } else { dec(n / 10).push(dig_c(n % 10)) } }
pub proof fn lemma_dig(k: nat) requires k < 10 ensures is_dig(dig_c(k)), dig(dig_c(k)) == k {}
pub proof fn lemma_dec(n: nat) ensures dec(n).len() > 0, all_dig(dec(n)), val(dec(n)) == n decreases n
{
    lemma_dig(n % 10);
    if n < 10 { lemma_dig(n); assert(dec(n) == seq![dig_c(n)]); assert(dec(n).drop_last() =~= Seq::<char>::empty()); assert(dec(n).last() == dig_c(n)); assert(val(Seq::<char>::empty()) == 0); assert(val(dec(n)) == dig(dig_c(n))); }
    else {
        lemma_dec(n / 10);
        let s = dec(n / 10).push(dig_c(n % 10));
        assert(dec(n) == s);
        assert(s.drop_last() =~= dec(n / 10)); assert(s.last() == dig_c(n % 10));
        assert(val(s) == val(dec(n / 10)) * 10 + n % 10);
        assert forall|i: int| 0 <= i < s.len() implies is_dig(#[trigger] s[i]) by { if i < s.len() - 1 { assert(s[i] == dec(n / 10)[i]); } }
    }
}
// UTF-8 lengths: positions in a &str are byte offsets
pub open spec fn clen(c: char) -> nat { let u = c as u32; if u < 0x80 { 1 } else if u < 0x800 { 2 } else if u < 0x10000 { 3 } else { 4 } }
pub open spec fn blen(s: Seq<char>) -> nat decreases s.len() { if s.len() == 0 { 0 } else { blen(s.drop_last()) + clen(s.last()) } }
pub proof fn lemma_blen_mono(s: Seq<char>, j: int, k: int) requires 0 <= j < k <= s.len() ensures blen(s.take(j)) < blen(s.take(k)) decreases k - j
{
    assert(s.take(k).drop_last() =~= s.take(k - 1)); assert(s.take(k).last() == s[k - 1]);
    if j < k - 1 { lemma_blen_mono(s, j, k - 1); }
}
pub closed spec fn cut(s: Seq<char>, i: int, k: int) -> bool { 0 <= k <= s.len() && blen(s.take(k)) == i }
pub proof fn lemma_cut(s: Seq<char>, i: int, j: int, k: int) requires cut(s, i, j), cut(s, i, k) ensures j == k
{ if j < k { lemma_blen_mono(s, j, k); } if k < j { lemma_blen_mono(s, k, j); } }
// the number of characters before byte i
pub closed spec fn at(s: Seq<char>, i: int) -> int { choose|k: int| cut(s, i, k) }
pub broadcast proof fn lemma_at_end(s: Seq<char>) ensures at(s, #[trigger] blen(s) as int) == s.len(), cut(s, blen(s) as int, s.len() as int)
{ let (i, n) = (blen(s) as int, s.len() as int); assert(s.take(n) =~= s); assert(cut(s, i, n)); lemma_cut(s, i, at(s, i), n); }
pub broadcast group text { lemma_at_end }
#[verifier::external_body] pub struct NumError { x: u8 }
pub uninterp spec fn odd_number<T>(s: Seq<char>) -> Option<T>;
pub trait FromText: Sized { spec fn of(s: Seq<char>) -> Option<Self>; }
// what the standard library makes of texts other than plain digits is left open
impl FromText for u64 { open spec fn of(s: Seq<char>) -> Option<u64> {
    if s.len() == 0 { None } else if all_dig(s) { if val(s) <= u64::MAX { Some(val(s) as u64) } else { None } } else { odd_number(s) } } }
pub trait Text { spec fn tx(&self) -> Seq<char>; }
impl Text for str { open spec fn tx(&self) -> Seq<char> { self@ } }
impl Text for Txt { open spec fn tx(&self) -> Seq<char> { self@ } }
impl<'a, T: Text + ?Sized> Text for &'a T { open spec fn tx(&self) -> Seq<char> { (**self).tx() } }
pub trait StrX {
    spec fn sv(&self) -> Seq<char>;
    fn find_x<F: Fn(char) -> bool>(&self, f: F) -> (r: Option<usize>) requires forall|c: char| #[trigger] f.requires((c,));
    fn split_at_x(&self, i: usize) -> (r: (&str, &str)) requires cut(self.sv(), i as int, at(self.sv(), i as int));
    fn len_x(&self) -> (r: usize);
    fn parse_x<T: FromText>(&self) -> (r: Result<T, NumError>);
}
impl StrX for str {
    open spec fn sv(&self) -> Seq<char> { self@ }
    #[verifier::external_body] fn find_x<F: Fn(char) -> bool>(&self, f: F) -> (r: Option<usize>)
        ensures r is Some ==> cut(self@, r->0 as int, at(self@, r->0 as int)) && 0 <= at(self@, r->0 as int) < self@.len() && f.ensures((self@[at(self@, r->0 as int)],), true)
                && forall|j: int| 0 <= j < at(self@, r->0 as int) ==> f.ensures((#[trigger] self@[j],), false),
            r is None ==> forall|j: int| 0 <= j < self@.len() ==> f.ensures((#[trigger] self@[j],), false) { unimplemented!() }
    #[verifier::external_body] fn split_at_x(&self, i: usize) -> (r: (&str, &str))
        ensures r.0@ == self@.take(at(self@, i as int)), r.1@ == self@.skip(at(self@, i as int)) { unimplemented!() }
    #[verifier::external_body] fn len_x(&self) -> (r: usize) ensures r == blen(self@) { unimplemented!() }
    #[verifier::external_body] fn parse_x<T: FromText>(&self) -> (r: Result<T, NumError>) ensures r is Ok == T::of(self@) is Some, r is Ok ==> r->Ok_0 == T::of(self@)->0 { unimplemented!() }
}
#[verifier::external_body] pub struct Txt { x: String }
impl View for Txt { type V = Seq<char>; uninterp spec fn view(&self) -> Seq<char>; }
impl Txt {
    #[verifier::external_body] pub fn new() -> (r: Txt) ensures r@ == Seq::<char>::empty() { unimplemented!() }
    #[verifier::external_body] pub fn push_str<T: Text + ?Sized>(&mut self, s: &T) ensures final(self)@ == old(self)@ + s.tx() { unimplemented!() }
    #[verifier::external_body] pub fn push(&mut self, c: char) ensures final(self)@ == old(self)@.push(c) { unimplemented!() }
    #[verifier::external_body] pub fn is_empty(&self) -> (r: bool) ensures r == (self@.len() == 0) { unimplemented!() }
    #[verifier::external_body] pub fn len_x(&self) -> (r: usize) ensures r == blen(self@) { unimplemented!() }
    #[verifier::external_body] pub fn as_str(&self) -> (r: &str) ensures r@ == self@ { unimplemented!() }
    #[verifier::external_body] pub fn with_capacity(n: usize) -> (r: Txt) ensures r@ == Seq::<char>::empty() { unimplemented!() }
    #[verifier::external_body] pub fn fmt(&self, f: &mut Formatter) -> (r: Result<(), FmtError>) ensures r is Ok ==> final(f)@ == old(f)@ + self@ { unimplemented!() }
}
pub trait LenX { spec fn n(&self) -> nat; fn len_x(&self) -> (r: usize) ensures r == self.n(); }
impl<T> LenX for [T] { open spec fn n(&self) -> nat { self@.len() } fn len_x(&self) -> (r: usize) { self.len() } }
impl<T, const N: usize> LenX for [T; N] { open spec fn n(&self) -> nat { N as nat } fn len_x(&self) -> (r: usize) { N } }
impl<T> LenX for Vec<T> { open spec fn n(&self) -> nat { self@.len() } fn len_x(&self) -> (r: usize) { self.len() } }
pub trait ShowX { spec fn shown(&self) -> Seq<char>; fn to_string_x(&self) -> (r: Txt) ensures r@ == self.shown(); }
impl ShowX for u64 { open spec fn shown(&self) -> Seq<char> { dec(*self as nat) } #[verifier::external_body] fn to_string_x(&self) -> (r: Txt) { unimplemented!() } }
// what has been written to a formatter; a sink may fail
#[verifier::external_body] pub struct Formatter { x: u8 }
impl View for Formatter { type V = Seq<char>; uninterp spec fn view(&self) -> Seq<char>; }
#[verifier::external_body] pub struct FmtError { x: u8 }
impl Formatter {
    #[verifier::external_body] pub fn write_str<T: Text + ?Sized>(&mut self, s: &T) -> (r: Result<(), FmtError>) ensures r is Ok ==> final(self)@ == old(self)@ + s.tx() { unimplemented!() }
}
}
pub use txm::*;

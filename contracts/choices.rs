pub mod km { use super::*;
impl Easing {
    // `as u8`: the place in the declaration
    #[verifier::external_body] pub fn rank_(&self) -> (r: u8) ensures r == no(*self) { unimplemented!() } }
impl<K: Copy, V> HashMap<K, V> {
    #[verifier::external_body] pub fn keys(&self) -> (r: It<K>) ensures r@.no_duplicates(), forall|k: K| #[trigger] r@.contains(k) == self@.contains_key(k) { unimplemented!() } }
pub open spec fn by_key<T>(s: Seq<T>, c: spec_fn(T) -> int) -> bool { forall|i: int, j: int| 0 <= i < j < s.len() ==> c(#[trigger] s[i]) <= c(#[trigger] s[j]) }
pub trait SortKey<T> { spec fn sk(&self) -> Seq<T>;
    fn sort_by_key_x<F: Fn(&T) -> u8>(&mut self, f: F)
        requires forall|t: T| #[trigger] f.requires((&t,)),
        ensures final(self).sk().to_multiset() == old(self).sk().to_multiset(),
            forall|c: spec_fn(T) -> int| (forall|t: T, k: u8| #[trigger] f.ensures((&t,), k) ==> k as int == c(t)) ==> #[trigger] by_key(final(self).sk(), c); }
impl<T> SortKey<T> for Vec<T> { open spec fn sk(&self) -> Seq<T> { self@ }
    #[verifier::external_body] fn sort_by_key_x<F: Fn(&T) -> u8>(&mut self, f: F) { unimplemented!() } }
pub proof fn lemma_no(a: Easing, b: Easing) ensures 0 <= no(a) < 31, no(a) == no(b) ==> a == b {}
pub proof fn lemma_all(i: int) -> (e: Easing) requires 0 <= i < 31 ensures no(e) == i { if i == 0 { return Easing::Linear; } else if i == 1 { return Easing::QuadIn; } else if i == 2 { return Easing::QuadOut; } else if i == 3 { return Easing::QuadInout; } else if i == 4 { return Easing::CubicIn; } else if i == 5 { return Easing::CubicOut; } else if i == 6 { return Easing::CubicInout; } else if i == 7 { return Easing::QuartIn; } else if i == 8 { return Easing::QuartOut; } else if i == 9 { return Easing::QuartInout; } else if i == 10 { return Easing::QuintIn; } else if i == 11 { return Easing::QuintOut; } else if i == 12 { return Easing::QuintInout; } else if i == 13 { return Easing::SineIn; } else if i == 14 { return Easing::SineOut; } else if i == 15 { return Easing::SineInout; } else if i == 16 { return Easing::CircIn; } else if i == 17 { return Easing::CircOut; } else if i == 18 { return Easing::CircInout; } else if i == 19 { return Easing::ExpoIn; } else if i == 20 { return Easing::ExpoOut; } else if i == 21 { return Easing::ExpoInout; } else if i == 22 { return Easing::ElasticIn; } else if i == 23 { return Easing::ElasticOut; } else if i == 24 { return Easing::ElasticInout; } else if i == 25 { return Easing::BackIn; } else if i == 26 { return Easing::BackOut; } else if i == 27 { return Easing::BackInout; } else if i == 28 { return Easing::BounceIn; } else if i == 29 { return Easing::BounceOut; } else { return Easing::BounceInout; } }
// every easing once, in the order of their declaration
pub open spec fn in_order(s: Seq<Easing>) -> bool { s.len() == 31 && forall|i: int| 0 <= i < 31 ==> no(#[trigger] s[i]) == i }
pub proof fn lemma_up(s: Seq<Easing>, i: int)
    requires s.no_duplicates(), by_key(s, |e: Easing| no(e)), forall|e: Easing| s.contains(e), 0 <= i < s.len(),
    ensures no(s[i]) == i
    decreases i
{
    let c = |e: Easing| no(e);
    assert forall|j: int| 0 <= j < i implies no(#[trigger] s[j]) == j by { lemma_up(s, j); }
    lemma_no(s[i], s[i]);
    if i > 0 { assert(c(s[i - 1]) <= c(s[i])); if no(s[i]) < i { lemma_no(s[i], s[i - 1]); assert(s[i] == s[i - 1]); assert(false); } }
    if no(s[i]) > i {
        let e = lemma_all(i);
        assert(s.contains(e));
        let j = choose|j: int| 0 <= j < s.len() && s[j] == e;
        if j >= i && j != i { assert(c(s[i]) <= c(s[j])); }
        assert(false);
    }
}
pub proof fn lemma_in_order(k: Seq<Easing>, s: Seq<Easing>)
    requires k.no_duplicates(), forall|e: Easing| k.contains(e), s.to_multiset() == k.to_multiset(), by_key(s, |e: Easing| no(e))
    ensures in_order(s)
{
    broadcast use vstd::seq_lib::group_to_multiset_ensures;
    k.lemma_multiset_has_no_duplicates();
    assert forall|e: Easing| s.contains(e) by { assert(k.contains(e)); assert(k.to_multiset().count(e) > 0); }
    assert(s.no_duplicates()) by { s.lemma_multiset_has_no_duplicates_conv(); }
    assert forall|i: int| 0 <= i < s.len() implies no(#[trigger] s[i]) == i by { lemma_up(s, i); }
    if s.len() < 31 { let e = lemma_all(s.len() as int); assert(s.contains(e)); assert(false); }
    if s.len() > 31 { lemma_no(s[31], s[31]); assert(false); }
}
}
pub use km::*;
/*@fn juno/src/easing.rs EASING_CHOICES
ret: r
let choices:
    let ghost k = choices@;
    proof { assert forall|e: Easing| k.contains(e) by {  } }
closure 0:
    |easing: &Easing| -> (k: u8) ensures k == no(*easing)
spec:
    ensures in_order(r@),
tail:
    proof { lemma_in_order(k, res_@); }
@*/
pub trait EasingExt { fn gen_easing(&mut self) -> (r: Easing); }
impl EasingExt for StdRng {
/*@fn juno/src/easing.rs StdRng::EasingExt::gen_easing
flag: novis
@*/
}

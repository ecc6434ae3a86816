// ---- sums and bounds of sequences of floats (as reals) ----
pub mod rsm { use super::*;
broadcast use fl_axioms;
pub trait Rl { spec fn rl(&self) -> real; }
impl Rl for Fl { open spec fn rl(&self) -> real { self.v() } }
impl Rl for u32 { open spec fn rl(&self) -> real { *self as real } }
impl Rl for u64 { open spec fn rl(&self) -> real { *self as real } }
impl Rl for usize { open spec fn rl(&self) -> real { *self as real } }
impl Rl for i32 { open spec fn rl(&self) -> real { *self as real } }
pub open spec fn rl_<T: Rl>(t: T) -> real { t.rl() }
pub type FS = Seq<Fl>;
pub open spec fn fsum(s: FS) -> real decreases s.len() { if s.len() == 0 { 0real } else { fsum(s.drop_last()) + s.last().v() } }
pub open spec fn mean(s: FS) -> real { fsum(s) / s.len() as real }
pub open spec fn within(s: FS, lo: real, hi: real) -> bool { forall|i: int| 0 <= i < s.len() ==> lo <= (#[trigger] s[i]).v() <= hi }
pub open spec fn p_upd(h: FS, p: Fl) -> FS { h.push(p) }
// the last n
pub open spec fn tail_n(h: FS, n: int) -> FS { h.subrange(h.len() - n, h.len() as int) }
pub proof fn lemma_fsum_push(s: FS, x: Fl) ensures fsum(s.push(x)) == fsum(s) + x.v()
{ assert(s.push(x).drop_last() =~= s); }
pub proof fn lemma_fsum_first(s: FS)
    requires s.len() > 0
    ensures fsum(s) == s[0].v() + fsum(s.subrange(1, s.len() as int))
    decreases s.len()
{
    let t = s.subrange(1, s.len() as int);
    if s.len() == 1 { assert(s.drop_last() =~= Seq::empty()); assert(t =~= Seq::empty()); }
    else {
        lemma_fsum_first(s.drop_last());
        assert(t.drop_last() =~= s.drop_last().subrange(1, s.len() - 1));
    }
}
pub proof fn lemma_fsum_bound(s: FS, lo: real, hi: real)
    requires within(s, lo, hi)
    ensures lo * s.len() as real <= fsum(s) <= hi * s.len() as real
    decreases s.len()
{
    if s.len() == 0 { assert(lo * 0real == 0real) by (nonlinear_arith) {} assert(hi * 0real == 0real) by (nonlinear_arith) {} }
    if s.len() > 0 {
        let t = s.drop_last();
        assert forall|i: int| 0 <= i < t.len() implies lo <= (#[trigger] t[i]).v() <= hi by { assert(t[i] == s[i]); }
        lemma_fsum_bound(t, lo, hi);
        assert(lo <= s[s.len() - 1].v() <= hi);
        let n = t.len() as real;
        assert(s.len() as real == n + 1real);
        assert(lo * (n + 1real) == lo * n + lo) by (nonlinear_arith) {}
        assert(hi * (n + 1real) == hi * n + hi) by (nonlinear_arith) {}
    }
}
pub proof fn lemma_mean_within(s: FS, lo: real, hi: real)
    requires within(s, lo, hi), s.len() > 0
    ensures lo <= mean(s) <= hi
{
    lemma_fsum_bound(s, lo, hi);
    let (n, t) = (s.len() as real, fsum(s));
    assert(n > 0real);
    assert(lo <= t / n <= hi) by (nonlinear_arith) requires n > 0real, lo * n <= t <= hi * n {}
}
pub proof fn lemma_convex(a: real, p: real, q: real, lo: real, hi: real)
    requires 0real <= a <= 1real, lo <= p <= hi, lo <= q <= hi
    ensures lo <= (p - q) * a + q <= hi
{
    assert(lo <= (p - q) * a + q <= hi) by (nonlinear_arith) requires 0real <= a <= 1real, lo <= p <= hi, lo <= q <= hi {}
}
pub proof fn lemma_within_sub(s: FS, a: int, b: int, lo: real, hi: real)
    requires within(s, lo, hi), 0 <= a <= b <= s.len()
    ensures within(s.subrange(a, b), lo, hi)
{ let t = s.subrange(a, b); assert forall|i: int| 0 <= i < t.len() implies lo <= (#[trigger] t[i]).v() <= hi by { assert(t[i] == s[a + i]); } }
impl It<Fl> {
    pub fn sum(self) -> (r: Fl) ensures r.v() == fsum(self@)
    {
        let mut t = Fl::lit(0.0, Ghost(0real));
        let mut i: usize = 0;
        proof { assert(self@.take(0) =~= Seq::empty()); }
        while i < self.v.len()
            invariant i <= self@.len(), t.v() == fsum(self@.take(i as int))
            decreases self@.len() - i
        {
            t = t + self.v[i];
            proof { assert(self@.take(i + 1) =~= self@.take(i as int).push(self@[i as int])); lemma_fsum_push(self@.take(i as int), self@[i as int]); }
            i = i + 1;
        }
        proof { assert(self@.take(i as int) =~= self@); }
        t
    }
}
// shim: bounded_vec_deque::BoundedVecDeque (TRUSTED contract of the dependency)
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct BoundedVecDeque<T> { x: std::collections::VecDeque<T>, n: usize }
pub open spec fn bpush<T>(s: Seq<T>, cap: int, x: T) -> Seq<T> {
    if cap == 0 { s } else if s.len() < cap { s.push(x) } else { s.subrange(1, s.len() as int).push(x) } }
impl<T> View for BoundedVecDeque<T> { type V = Seq<T>; uninterp spec fn view(&self) -> Seq<T>; }
impl<T> BoundedVecDeque<T> {
    pub uninterp spec fn cap(&self) -> int;
    #[verifier::external_body]
    pub fn new(n: usize) -> (r: Self) ensures r@ == Seq::<T>::empty(), r.cap() == n { unimplemented!() }
    #[verifier::external_body]
    pub fn push_back(&mut self, x: T) ensures final(self)@ == bpush(old(self)@, old(self).cap(), x), final(self).cap() == old(self).cap() { unimplemented!() }
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize) ensures r == self@.len() { unimplemented!() }
    #[verifier::external_body]
    pub fn at(&self, i: usize) -> (r: &T) requires i < self@.len() ensures *r == self@[i as int] { unimplemented!() }
}
impl<T: Copy> IterX<T> for BoundedVecDeque<T> { open spec fn items(&self) -> Seq<T> { self@ }
    fn iter_x(&self) -> (r: It<T>) {
        let mut v: Vec<T> = Vec::new();
        let mut i: usize = 0;
        while i < self.len() invariant i <= self@.len(), v@ =~= self@.take(i as int) decreases self@.len() - i { v.push(*self.at(i)); i = i + 1; }
        It { v } } }
}
pub use rsm::*;

// ---- shim: iterator pipelines over sequences of plain values, run eagerly; every body below is verified ----
pub mod itm { use super::*;
pub struct It<T> { pub v: Vec<T> }
impl<T> View for It<T> { type V = Seq<T>; open spec fn view(&self) -> Seq<T> { self.v@ } }
pub trait RangeN: Copy { spec fn ri(self) -> int; spec fn top() -> int;
    fn lt_(self, o: Self) -> (r: bool) ensures r == (self.ri() < o.ri());
    fn succ_(self) -> (r: Self) requires self.ri() < Self::top() ensures r.ri() == self.ri() + 1;
    proof fn bounded(self) ensures 0 <= self.ri() <= Self::top(); }
impl RangeN for u64 { open spec fn ri(self) -> int { self as int } open spec fn top() -> int { u64::MAX as int }
    fn lt_(self, o: u64) -> (r: bool) { self < o } fn succ_(self) -> (r: u64) { self + 1 } proof fn bounded(self) {} }
impl RangeN for u32 { open spec fn ri(self) -> int { self as int } open spec fn top() -> int { u32::MAX as int }
    fn lt_(self, o: u32) -> (r: bool) { self < o } fn succ_(self) -> (r: u32) { self + 1 } proof fn bounded(self) {} }
impl RangeN for usize { open spec fn ri(self) -> int { self as int } open spec fn top() -> int { usize::MAX as int }
    fn lt_(self, o: usize) -> (r: bool) { self < o } fn succ_(self) -> (r: usize) { self + 1 } proof fn bounded(self) {} }
pub fn range_it<N: RangeN>(a: N, b: N) -> (r: It<N>)
    ensures r@.len() == (if a.ri() < b.ri() { b.ri() - a.ri() } else { 0 }), forall|i: int| 0 <= i < r@.len() ==> (#[trigger] r@[i]).ri() == a.ri() + i
{
    let mut v: Vec<N> = Vec::new();
    let mut i = a;
    proof { b.bounded(); }
    while i.lt_(b)
        invariant a.ri() <= i.ri(), i.ri() <= b.ri() || v@.len() == 0 && i == a, v@.len() == i.ri() - a.ri(), b.ri() <= N::top(),
            forall|k: int| 0 <= k < v@.len() ==> (#[trigger] v@[k]).ri() == a.ri() + k
        decreases b.ri() - i.ri()
    { v.push(i); i = i.succ_(); }
    It { v }
}
pub fn vec_repeat<T: Copy>(x: T, n: usize) -> (r: Vec<T>) ensures r@.len() == n, forall|i: int| 0 <= i < n ==> #[trigger] r@[i] == x
{
    let mut v: Vec<T> = Vec::new();
    let mut i: usize = 0;
    while i < n invariant i <= n, v@.len() == i, forall|k: int| 0 <= k < i ==> #[trigger] v@[k] == x decreases n - i { v.push(x); i = i + 1; }
    v
}
pub trait IterX<T: Copy> { spec fn items(&self) -> Seq<T>; fn iter_x(&self) -> (r: It<T>) ensures r@ == self.items(); }
impl<T: Copy> IterX<T> for Vec<T> { open spec fn items(&self) -> Seq<T> { self@ }
    fn iter_x(&self) -> (r: It<T>) {
        let mut v: Vec<T> = Vec::new();
        let mut i: usize = 0;
        while i < self.len() invariant i <= self@.len(), v@ =~= self@.take(i as int) decreases self@.len() - i { v.push(self[i]); i = i + 1; }
        It { v } } }
impl<T: Copy> IterX<T> for [T] { open spec fn items(&self) -> Seq<T> { self@ }
    fn iter_x(&self) -> (r: It<T>) {
        let mut v: Vec<T> = Vec::new();
        let mut i: usize = 0;
        while i < self.len() invariant i <= self@.len(), v@ =~= self@.take(i as int) decreases self@.len() - i { v.push(self[i]); i = i + 1; }
        It { v } } }
impl<T> It<T> {
    pub fn collect(self) -> (r: Vec<T>) ensures r@ == self@ { self.v }
    pub fn count(self) -> (r: usize) ensures r == self@.len() { self.v.len() }
}
impl<T: Copy> It<T> {
    pub fn map<U, F: Fn(T) -> U>(self, f: F) -> (r: It<U>)
        requires forall|i: int| 0 <= i < self@.len() ==> f.requires((#[trigger] self@[i],)),
        ensures r@.len() == self@.len(), forall|i: int| 0 <= i < r@.len() ==> f.ensures((self@[i],), #[trigger] r@[i]),
    {
        let mut v: Vec<U> = Vec::new();
        let mut i: usize = 0;
        while i < self.v.len()
            invariant i <= self@.len(), v@.len() == i, forall|k: int| 0 <= k < self@.len() ==> f.requires((#[trigger] self@[k],)),
                forall|k: int| 0 <= k < v@.len() ==> f.ensures((self@[k],), #[trigger] v@[k]),
            decreases self@.len() - i
        { v.push(f(self.v[i])); i = i + 1; }
        It { v }
    }
    pub fn zip<U: Copy>(self, o: It<U>) -> (r: It<(T, U)>)
        ensures r@.len() == (if self@.len() <= o@.len() { self@.len() } else { o@.len() }), forall|i: int| 0 <= i < r@.len() ==> #[trigger] r@[i] == (self@[i], o@[i])
    {
        let mut v: Vec<(T, U)> = Vec::new();
        let mut i: usize = 0;
        while i < self.v.len() && i < o.v.len()
            invariant i <= self@.len(), i <= o@.len(), v@.len() == i, forall|k: int| 0 <= k < v@.len() ==> #[trigger] v@[k] == (self@[k], o@[k])
            decreases self@.len() - i
        { v.push((self.v[i], o.v[i])); i = i + 1; }
        It { v }
    }
    pub fn copied(self) -> (r: It<T>) ensures r@ == self@ { self }
    pub fn cloned(self) -> (r: It<T>) ensures r@ == self@ { self }
}
// the next index of `step_by`, or the end
pub trait StepN: RangeN { fn step_(self, st: usize, e: Self) -> (r: Self) requires self.ri() < e.ri(), st > 0 ensures r.ri() == (if self.ri() + st < e.ri() { self.ri() + st } else { e.ri() }); }
impl StepN for u64 { fn step_(self, st: usize, e: u64) -> (r: u64) { if (st as u64) < e - self { self + st as u64 } else { e } } }
impl StepN for usize { fn step_(self, st: usize, e: usize) -> (r: usize) { if st < e - self { self + st } else { e } } }
pub fn step_next<N: StepN>(i: N, st: usize, e: N) -> (r: N) requires i.ri() < e.ri(), st > 0 ensures r.ri() == (if i.ri() + st < e.ri() { i.ri() + st } else { e.ri() }) { i.step_(st, e) }
// references to the elements
pub fn refs<T>(v: &Vec<T>) -> (r: It<&T>) ensures r@.len() == v@.len(), forall|i: int| 0 <= i < r@.len() ==> *(#[trigger] r@[i]) == v@[i]
{
    let mut o: Vec<&T> = Vec::new();
    let mut i: usize = 0;
    while i < v.len() invariant i <= v@.len(), o@.len() == i, forall|k: int| 0 <= k < i ==> *(#[trigger] o@[k]) == v@[k] decreases v@.len() - i { o.push(&v[i]); i = i + 1; }
    It { v: o }
}
impl<T: Copy> It<T> {
    pub fn filter<F: Fn(&T) -> bool>(self, f: F) -> (r: It<T>)
        requires forall|i: int| #![trigger self@[i]] 0 <= i < self@.len() ==> f.requires((&self@[i],)),
        ensures forall|p: spec_fn(T) -> bool| (forall|t: T, b: bool| #[trigger] f.ensures((&t,), b) ==> b == p(t)) ==> r@ == #[trigger] kept(self@, p),
    {
        let mut v: Vec<T> = Vec::new();
        let mut i: usize = 0;
        proof { assert(self@.take(0) =~= Seq::empty()); }
        while i < self.v.len()
            invariant i <= self@.len(), forall|k: int| #![trigger self@[k]] 0 <= k < self@.len() ==> f.requires((&self@[k],)),
                forall|p: spec_fn(T) -> bool| (forall|t: T, b: bool| #[trigger] f.ensures((&t,), b) ==> b == p(t)) ==> v@ == #[trigger] kept(self@.take(i as int), p),
            decreases self@.len() - i
        {
            proof { assert(self@.take(i + 1).drop_last() =~= self@.take(i as int)); assert(self@.take(i + 1).last() == self@[i as int]); }
            let b = f(&self.v[i]);
            let ghost v0 = v@;
            if b { v.push(self.v[i]); }
            proof {
                assert forall|p: spec_fn(T) -> bool| (forall|t: T, b: bool| #[trigger] f.ensures((&t,), b) ==> b == p(t)) implies v@ == #[trigger] kept(self@.take(i + 1), p) by {
                    assert(f.ensures((&self@[i as int],), b));
                    assert(b == p(self@[i as int]));
                    assert(v0 == kept(self@.take(i as int), p));
                }
            }
            i = i + 1;
        }
        proof { assert(self@.take(i as int) =~= self@); }
        It { v }
    }
}
// a left fold and its intermediate results
pub open spec fn folds<T, A, F: Fn(A, T) -> A>(f: F, s: Seq<T>, w: Seq<A>) -> bool {
    w.len() == s.len() + 1 && forall|i: int| 0 <= i < s.len() ==> f.ensures((w[i], s[i]), #[trigger] w[i + 1]) }
pub open spec fn folded<T, A>(w: Seq<A>, init: A, s: Seq<T>) -> bool { w.len() == s.len() + 1 && w[0] == init }
impl<T: Copy> It<T> {
    pub fn fold<A: Copy, F: Fn(A, T) -> A>(self, init: A, f: F) -> (r: A)
        requires forall|a: A, t: T| #[trigger] f.requires((a, t)),
        ensures exists|w: Seq<A>| #[trigger] folds(f, self@, w) && folded(w, init, self@) && w.last() == r,
    {
        let mut a = init;
        let mut i: usize = 0;
        let ghost mut w = seq![init];
        while i < self.v.len()
            invariant i <= self@.len(), w.len() == i + 1, w[0] == init, w[i as int] == a, forall|a: A, t: T| #[trigger] f.requires((a, t)),
                forall|k: int| 0 <= k < i ==> f.ensures((w[k], self@[k]), #[trigger] w[k + 1]),
            decreases self@.len() - i
        {
            let b = f(a, self.v[i]);
            proof { let w0 = w; w = w.push(b);
                assert forall|k: int| 0 <= k < i + 1 implies f.ensures((w[k], self@[k]), #[trigger] w[k + 1]) by { if k < i { assert(w[k + 1] == w0[k + 1]); } } }
            a = b; i = i + 1;
        }
        proof { assert(folds(f, self@, w)); }
        a
    }
}
// the elements that satisfy p, in order
pub open spec fn kept<T>(s: Seq<T>, p: spec_fn(T) -> bool) -> Seq<T> decreases s.len() {
    if s.len() == 0 { s } else if p(s.last()) { kept(s.drop_last(), p).push(s.last()) } else { kept(s.drop_last(), p) } }
}
pub use itm::*;

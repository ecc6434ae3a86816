// ---- shim: the random source and the slice operations of the rand crate and of std that the genetic code uses (TRUSTED contracts) ----
// A generator is an opaque state; every operation is a function of that state (which is what "deterministic given
// the seed" means), constrained only by its documented guarantee.
pub mod gnm { use super::*;
use core::cmp::Ordering;
#[verifier::external_body]
pub struct StdRng { x: u64 }
pub uninterp spec fn r_seed(s: u64) -> StdRng;
pub uninterp spec fn r_f32(r: StdRng) -> (Fl, StdRng);
pub uninterp spec fn r_shuffle<T>(r: StdRng, s: Seq<T>) -> (Seq<T>, StdRng);
pub uninterp spec fn r_choose(r: StdRng, n: nat, k: nat) -> (Seq<int>, StdRng);
pub broadcast axiom fn ax_f32(r: StdRng) ensures 0real <= (#[trigger] r_f32(r)).0.v() < 1real;
pub broadcast axiom fn ax_shuffle<T>(r: StdRng, s: Seq<T>) ensures (#[trigger] r_shuffle(r, s)).0.to_multiset() == s.to_multiset(), r_shuffle(r, s).0.len() == s.len();
// a group of k distinct members of n (all of them when k exceeds n)
pub open spec fn group(g: Seq<int>, n: nat, k: nat) -> bool {
    g.len() == (if k <= n { k } else { n }) && g.no_duplicates() && forall|i: int| 0 <= i < g.len() ==> 0 <= #[trigger] g[i] < n }
pub broadcast axiom fn ax_choose(r: StdRng, n: nat, k: nat) ensures group((#[trigger] r_choose(r, n, k)).0, n, k);
impl StdRng {
    #[verifier::external_body]
    pub fn seed_from_u64(s: u64) -> (r: StdRng) ensures r == r_seed(s) { unimplemented!() }
    #[verifier::external_body]
    pub fn gen<T>(&mut self) -> (r: Fl) ensures r == r_f32(*old(self)).0, *final(self) == r_f32(*old(self)).1 { unimplemented!() }
}
// ordering of a comparison function, when it is a function
pub open spec fn agrees<T, F: Fn(&T, &T) -> Ordering>(f: F, c: spec_fn(T, T) -> Ordering) -> bool {
    forall|a: T, b: T, o: Ordering| #[trigger] f.ensures((&a, &b), o) ==> o == c(a, b) }
pub open spec fn le_o(o: Ordering) -> bool { o != Ordering::Greater }
pub open spec fn preorder<T>(c: spec_fn(T, T) -> Ordering) -> bool {
    (forall|a: T, b: T| le_o(#[trigger] c(a, b)) || le_o(c(b, a))) && (forall|a: T, b: T, d: T| le_o(#[trigger] c(a, b)) && le_o(#[trigger] c(b, d)) ==> le_o(c(a, d))) }
// the stable sort of s
pub uninterp spec fn sorted_seq<T>(c: spec_fn(T, T) -> Ordering, s: Seq<T>) -> Seq<T>;
pub broadcast axiom fn ax_sorted<T>(c: spec_fn(T, T) -> Ordering, s: Seq<T>)
    requires preorder(c)
    ensures #[trigger] sorted_seq(c, s).to_multiset() == s.to_multiset(), sorted_seq(c, s).len() == s.len(),
        forall|i: int, j: int| 0 <= i < j < s.len() ==> le_o(c(#[trigger] sorted_seq(c, s)[i], #[trigger] sorted_seq(c, s)[j]));
pub trait SliceX<T> {
    spec fn sv(&self) -> Seq<T>;
    fn sort_by_x<F: Fn(&T, &T) -> Ordering>(&mut self, f: F)
        requires forall|a: T, b: T| #[trigger] f.requires((&a, &b)),
        ensures forall|c: spec_fn(T, T) -> Ordering| #![trigger agrees(f, c)] #![trigger sorted_seq(c, old(self).sv())] agrees(f, c) && preorder(c) ==> final(self).sv() == sorted_seq(c, old(self).sv());
    fn shuffle(&mut self, rng: &mut StdRng)
        ensures final(self).sv() == r_shuffle(*old(rng), old(self).sv()).0, *final(rng) == r_shuffle(*old(rng), old(self).sv()).1,
            forall|s: Seq<T>| s =~= old(self).sv() ==> final(self).sv() == (#[trigger] r_shuffle(*old(rng), s)).0 && *final(rng) == r_shuffle(*old(rng), s).1;
    fn choose_multiple(&self, rng: &mut StdRng, k: usize) -> (r: It<&T>)
        ensures r@.len() == r_choose(*old(rng), self.sv().len(), k as nat).0.len(), *final(rng) == r_choose(*old(rng), self.sv().len(), k as nat).1,
            forall|i: int| 0 <= i < r@.len() ==> *(#[trigger] r@[i]) == self.sv()[r_choose(*old(rng), self.sv().len(), k as nat).0[i]];
}
impl<T> SliceX<T> for Vec<T> { open spec fn sv(&self) -> Seq<T> { self@ }
    #[verifier::external_body] fn sort_by_x<F: Fn(&T, &T) -> Ordering>(&mut self, f: F) { unimplemented!() }
    #[verifier::external_body] fn shuffle(&mut self, rng: &mut StdRng) { unimplemented!() }
    #[verifier::external_body] fn choose_multiple(&self, rng: &mut StdRng, k: usize) -> (r: It<&T>) { unimplemented!() } }
impl<T> SliceX<T> for [T] { open spec fn sv(&self) -> Seq<T> { self@ }
    #[verifier::external_body] fn sort_by_x<F: Fn(&T, &T) -> Ordering>(&mut self, f: F) { unimplemented!() }
    #[verifier::external_body] fn shuffle(&mut self, rng: &mut StdRng) { unimplemented!() }
    #[verifier::external_body] fn choose_multiple(&self, rng: &mut StdRng, k: usize) -> (r: It<&T>) { unimplemented!() } }
// the first of the least elements
pub open spec fn first_min<T>(c: spec_fn(T, T) -> Ordering, s: Seq<T>) -> T decreases s.len() {
    if s.len() <= 1 { s[0] } else { let m = first_min(c, s.drop_last()); if le_o(c(m, s.last())) { m } else { s.last() } } }
pub proof fn lemma_first_min<T>(c: spec_fn(T, T) -> Ordering, s: Seq<T>)
    requires preorder(c), s.len() > 0
    ensures s.contains(first_min(c, s)), forall|i: int| 0 <= i < s.len() ==> le_o(c(first_min(c, s), #[trigger] s[i]))
    decreases s.len()
{
    let m = first_min(c, s);
    assert(le_o(c(m, m)));
    if s.len() == 1 { assert(m == s[0]); } else {
        let d = s.drop_last(); let q = first_min(c, d);
        lemma_first_min(c, d);
        let k = choose|k: int| 0 <= k < d.len() && d[k] == q;
        assert(s[k] == q); assert(s[s.len() - 1] == s.last());
        assert(le_o(c(q, s.last())) || le_o(c(s.last(), q)));
        assert forall|i: int| 0 <= i < s.len() implies le_o(c(m, #[trigger] s[i])) by { if i < d.len() { assert(d[i] == s[i]); assert(le_o(c(q, d[i]))); } }
    }
}
pub open spec fn derefs<T>(s: Seq<&T>) -> Seq<T> { Seq::new(s.len(), |i: int| *s[i]) }
pub open spec fn agrees2<'a, T, F: Fn(&&'a T, &&'a T) -> Ordering>(f: F, c: spec_fn(T, T) -> Ordering) -> bool {
    forall|a: &'a T, b: &'a T, o: Ordering| #[trigger] f.ensures((&a, &b), o) ==> o == c(*a, *b) }
impl<'a, T> It<&'a T> {
    pub fn min_by<F: Fn(&&'a T, &&'a T) -> Ordering>(self, f: F) -> (r: Option<&'a T>)
        requires forall|a: &'a T, b: &'a T| #[trigger] f.requires((&a, &b)),
        ensures r is Some == (self@.len() > 0), r is Some ==> forall|c: spec_fn(T, T) -> Ordering, s: Seq<T>| #![trigger first_min(c, s)] s =~= derefs(self@) && agrees2(f, c) ==> *(r->0) == first_min(c, s)
    {
        if self.v.len() == 0 { return None; }
        let mut m = self.v[0];
        let mut i: usize = 1;
        let ghost d = derefs(self@);
        proof { assert forall|c: spec_fn(T, T) -> Ordering| #[trigger] agrees2(f, c) implies *m == first_min(c, d.take(1)) by { assert(d.take(1)[0] == *m); } }
        while i < self.v.len()
            invariant 1 <= i <= self@.len(), d == derefs(self@), forall|a: &'a T, b: &'a T| #[trigger] f.requires((&a, &b)),
                forall|c: spec_fn(T, T) -> Ordering| #[trigger] agrees2(f, c) ==> *m == first_min(c, d.take(i as int)),
            decreases self@.len() - i
        {
            let ghost m0 = m;
            let x = self.v[i];
            let o = f(&m, &x);
            match o { Ordering::Greater => { m = x; } _ => {} }
            proof { assert forall|c: spec_fn(T, T) -> Ordering| #[trigger] agrees2(f, c) implies *m == first_min(c, d.take(i + 1)) by {
                assert(f.ensures((&m0, &x), o)); assert(o == c(*m0, *x));
                assert(d.take(i + 1).drop_last() =~= d.take(i as int)); assert(d.take(i + 1).last() == *x); } }
            i = i + 1;
        }
        proof { assert(d.take(d.len() as int) =~= d); }
        Some(m)
    }
}
pub trait SplitX<T> { spec fn sp(&self) -> Seq<T>;
    fn split_at_mut(&mut self, k: usize) -> (r: (&mut [T], &mut [T]))
        requires k <= old(self).sp().len(),
        ensures r.0@ == old(self).sp().take(k as int), r.1@ == old(self).sp().skip(k as int), final(self).sp() == final(r.0)@ + final(r.1)@; }
pub open spec fn in_r(a: real, b: real, x: real) -> bool { a <= x < b }
pub fn range_has(a: Fl, b: Fl, x: &Fl) -> (r: bool) ensures r == in_r(a.v(), b.v(), x.v()) { *x >= a && *x < b }
pub fn range_has_incl(a: Fl, b: Fl, x: &Fl) -> (r: bool) ensures r == (a.v() <= x.v() <= b.v()) { *x >= a && *x <= b }
pub broadcast group gen_axioms { ax_f32, ax_shuffle, ax_choose, ax_sorted }
}
pub use gnm::*;
use core::cmp::Ordering;
//@broadcast gnm::gen_axioms

// ---- the genetic vocabulary ----
// A chromosome type: its operators are arbitrary functions of their inputs and of the generator's state.
pub trait Chromosome: Sized {
    type Context;
    spec fn g_len() -> nat;
    spec fn g_new(r: StdRng, c: Self::Context) -> (Self, StdRng);
    spec fn g_cross(a: Self, b: Self, i: nat) -> (Self, Self);
    spec fn g_mut(a: Self, r: StdRng, i: nat, c: Self::Context) -> (Self, StdRng);
    fn len() -> (r: usize) ensures r == Self::g_len();
    fn generate(rng: &mut StdRng, ctx: &Self::Context) -> (r: Self) ensures (r, *final(rng)) == Self::g_new(*old(rng), *ctx);
    fn cross(&mut self, other: &mut Self, i: usize) requires i < Self::g_len() ensures (*final(self), *final(other)) == Self::g_cross(*old(self), *old(other), i as nat);
    fn mutate(&mut self, rng: &mut StdRng, i: usize, ctx: &Self::Context) requires i < Self::g_len() ensures (*final(self), *final(rng)) == Self::g_mut(*old(self), *old(rng), i as nat, *ctx);
}
/*@struct juno/src/genetics/mod.rs Individual
@*/
impl<T: Chromosome> Clone for Individual<T> {
    #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() }
}
pub open spec fn fresh<T: Chromosome>(r: StdRng, c: T::Context) -> (Individual<T>, StdRng) {
    (Individual { chromosome: T::g_new(r, c).0, fitness: mk(-FMAX()) }, T::g_new(r, c).1) }
// n fresh individuals
pub open spec fn freshes<T: Chromosome>(r: StdRng, n: nat, c: T::Context) -> (Seq<Individual<T>>, StdRng) decreases n {
    if n == 0 { (Seq::empty(), r) } else { let p = freshes::<T>(r, (n - 1) as nat, c); let q = fresh::<T>(p.1, c); (p.0.push(q.0), q.1) } }
pub proof fn lemma_freshes<T: Chromosome>(r: StdRng, n: nat, c: T::Context)
    ensures freshes::<T>(r, n, c).0.len() == n, forall|i: int| 0 <= i < n ==> (#[trigger] freshes::<T>(r, n, c).0[i]).fitness.v() == -FMAX() decreases n
{ if n > 0 { lemma_freshes::<T>(r, (n - 1) as nat, c); } }
// fittest first
pub open spec fn fit_o(x: real, y: real) -> Ordering { if y < x { Ordering::Less } else if y > x { Ordering::Greater } else { Ordering::Equal } }
pub open spec fn desc<T: Chromosome>() -> spec_fn(Individual<T>, Individual<T>) -> Ordering { |a: Individual<T>, b: Individual<T>| fit_o(a.fitness.v(), b.fitness.v()) }
pub proof fn lemma_desc<T: Chromosome>() ensures preorder(desc::<T>()) {
    let c = desc::<T>();
    assert forall|a: Individual<T>, b: Individual<T>, d: Individual<T>| le_o(#[trigger] c(a, b)) && le_o(#[trigger] c(b, d)) implies le_o(c(a, d)) by {}
}
pub open spec fn ordered<T: Chromosome>(s: Seq<Individual<T>>) -> bool { forall|i: int, j: int| 0 <= i < j < s.len() ==> (#[trigger] s[i]).fitness.v() >= (#[trigger] s[j]).fitness.v() }
impl<T: Chromosome> Individual<T> {
/*@fn juno/src/genetics/mod.rs Individual::generate
ret: r
spec:
    ensures (r, *final(rng)) == fresh::<T>(*old(rng), *ctx),
@*/
/*@fn juno/src/genetics/mod.rs Individual::fitness_desc
ret: o
spec:
    ensures o == fit_o(ind1.fitness.v(), ind2.fitness.v()), o == desc::<T>()(*ind1, *ind2),
@*/
}
// the share of n
pub open spec fn part(n: nat, rate: real) -> int { rfloor(n as real * rate) }
pub trait Selection {
    spec fn s_ok(&self, rate: real) -> bool;
    spec fn sel<T: Chromosome>(&self, r: StdRng, p: Seq<Individual<T>>, rate: real, c: T::Context) -> (Seq<Individual<T>>, StdRng);
    proof fn sel_len<T: Chromosome>(&self, r: StdRng, p: Seq<Individual<T>>, rate: real, c: T::Context)
        requires self.s_ok(rate), rate >= 0real, p.len() > 0
        ensures self.sel::<T>(r, p, rate, c).0.len() == part(p.len(), rate);
    fn select<T: Chromosome>(&self, rng: &mut StdRng, parents: &[Individual<T>], offsprings: &mut Vec<Individual<T>>, rate: Fl, ctx: &T::Context)
        requires self.s_ok(rate.v()), rate.v() >= 0real, parents@.len() > 0, old(offsprings)@.len() == 0, part(parents@.len(), rate.v()) <= usize::MAX,
        ensures (final(offsprings)@, *final(rng)) == self.sel::<T>(*old(rng), parents@, rate.v(), *ctx), final(offsprings)@.len() == part(parents@.len(), rate.v());
}
pub trait Reinsertion {
    spec fn r_rate(&self) -> real;
    spec fn r_ok(&self, offs: nat, n: nat) -> bool;
    spec fn rein<T: Chromosome>(&self, r: StdRng, p: Seq<Individual<T>>, o: Seq<Individual<T>>, n: nat, c: T::Context) -> (Seq<Individual<T>>, StdRng);
    fn selection_rate(&self) -> (r: Fl) ensures r.v() == self.r_rate();
    fn reinsert<T: Chromosome>(&self, rng: &mut StdRng, parents: &[Individual<T>], offsprings: &mut Vec<Individual<T>>, population_size: usize, ctx: &T::Context)
        requires self.r_ok(old(offsprings)@.len(), population_size as nat), parents@.len() == population_size,
        ensures (final(offsprings)@, *final(rng)) == self.rein::<T>(*old(rng), parents@, old(offsprings)@, population_size as nat, *ctx), final(offsprings)@.len() == population_size,
            ordered(parents@) && ordered(old(offsprings)@) ==> ordered(final(offsprings)@);
}

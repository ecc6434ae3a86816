//@include hdr.rs
verus! {
//@include fl.rs
//@include rt.rs
//@include iter.rs
//@include gen.rs
//@include genx.rs
// the pair after exchanging the genes in s, each with the gene at the same position
pub open spec fn swapped<T: Chromosome>(a: T, b: T, s: spec_fn(int) -> bool, n: nat) -> (T, T) decreases n {
    if n == 0 { (a, b) } else { let q = swapped(a, b, s, (n - 1) as nat); if s(n - 1) { T::g_cross(q.0, q.1, (n - 1) as nat) } else { q } } }
proof fn lemma_same_swaps<T: Chromosome>(a: T, b: T, s: spec_fn(int) -> bool, t: spec_fn(int) -> bool, n: nat)
    requires forall|i: int| 0 <= i < n ==> #[trigger] s(i) == t(i)
    ensures swapped(a, b, s, n) == swapped(a, b, t, n)
    decreases n
{ if n > 0 { lemma_same_swaps(a, b, s, t, (n - 1) as nat); } }
// uniform crossover exchanges genes at the same position, each at most once, and nothing else
pub proof fn lemma_uniform_swaps<T: Chromosome>(p: real, r: StdRng, a: T, b: T, n: nat) -> (s: spec_fn(int) -> bool)
    ensures uni_cross(p, r, a, b, n).0 == swapped(a, b, s, n)
    decreases n
{
    if n == 0 { |i: int| false } else {
        let k = n - 1;
        let t = lemma_uniform_swaps(p, r, a, b, k as nat);
        let q = uni_cross(p, r, a, b, k as nat);
        let take = r_f32(q.1).0.v() < p;
        let s = |i: int| if i == k { take } else { t(i) };
        lemma_same_swaps(a, b, s, t, k as nat);
        s
    }
}
}
fn main(){}

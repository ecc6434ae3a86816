//@include hdr.rs
use std::mem;
verus! {
//@subst_type rand::prelude::StdRng => StdRng
//@subst_type rand::rngs::StdRng => StdRng
//@include fl.rs
//@include rt.rs
//@include iter.rs
//@include prim_ops.rs
pub open spec fn fl_lt(a: Fl, b: Fl) -> bool { a.v() < b.v() }
pub open spec fn fl_unit(p: Fl) -> bool { 0real <= p.v() <= 1real }
//@include rnd_rng.rs
/*@enum juno/src/utils/mid_trend.rs MidTrendPolicy
attr:
    #[derive(Clone, Copy)]
@*/
/*@enum juno/src/easing.rs Easing
attr:
    #[derive(Clone, Copy)]
@*/
/*@struct juno/src/indicators/alma.rs AlmaParams
attr:
    #[derive(Clone, Copy)]
@*/
/*@struct juno/src/indicators/dema.rs DemaParams
attr:
    #[derive(Clone, Copy)]
@*/
/*@struct juno/src/indicators/ema.rs EmaParams
attr:
    #[derive(Clone, Copy)]
@*/
/*@struct juno/src/indicators/ema2.rs Ema2Params
attr:
    #[derive(Clone, Copy)]
@*/
/*@struct juno/src/indicators/kama.rs KamaParams
attr:
    #[derive(Clone, Copy)]
@*/
/*@struct juno/src/indicators/sma.rs SmaParams
attr:
    #[derive(Clone, Copy)]
@*/
/*@struct juno/src/indicators/smma.rs SmmaParams
attr:
    #[derive(Clone, Copy)]
@*/
/*@enum juno/src/indicators/mod.rs MAParams
attr:
    #[derive(Clone, Copy)]
@*/
// A chromosome is a fixed number of genes. The genes of a structure are those of its parts, in order; gene 0 of an
// enumeration is the whole choice, the others are the genes of the chosen part.
pub trait Chromosome: Sized {
    type Context;
    spec fn g_len() -> nat;
    // a and b after exchanging gene i
    spec fn g_cross(a: Self, b: Self, i: int) -> (Self, Self);
    // a and b are equal, except for gene i
    spec fn same_but(a: Self, b: Self, i: int) -> bool;
    fn len() -> (r: usize) ensures r == Self::g_len();
    // a context to generate from: some interval to choose from
    spec fn usable(c: Self::Context) -> bool;
    fn generate(rng: &mut StdRng, ctx: &Self::Context) -> Self requires Self::usable(*ctx);
    fn cross(&mut self, other: &mut Self, i: usize)
        requires i < Self::g_len(),
        ensures (*final(self), *final(other)) == Self::g_cross(*old(self), *old(other), i as int);
    fn mutate(&mut self, rng: &mut StdRng, i: usize, ctx: &Self::Context)
        requires i < Self::g_len(), Self::usable(*ctx),
        ensures Self::same_but(*old(self), *final(self), i as int);
    proof fn g_refl(a: Self, i: int) ensures Self::same_but(a, a, i);
    // exchanging gene i changes no other gene, and exchanging it again restores both
    proof fn g_laws(a: Self, b: Self, i: int)
        requires 0 <= i < Self::g_len(),
        ensures Self::same_but(a, Self::g_cross(a, b, i).0, i), Self::same_but(b, Self::g_cross(a, b, i).1, i),
            Self::g_cross(Self::g_cross(a, b, i).0, Self::g_cross(a, b, i).1, i) == (a, b);
    // every part of a chromosome belongs to a gene
    proof fn g_whole(a: Self, b: Self)
        requires forall|i: int| 0 <= i < Self::g_len() ==> #[trigger] Self::g_cross(a, b, i) == (a, b),
        ensures a == b;
}
//@include chrom18.rs
}
fn main(){}

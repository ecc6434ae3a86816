// ---- sums and statistics of sequences of floats (extended reals) ----
pub mod xrm { use super::*;
broadcast use fl_axioms;
pub type XS = Seq<Fl>;
pub open spec fn xsum(s: XS) -> XR decreases s.len() { if s.len() == 0 { XR::R(0real) } else { xadd(xsum(s.drop_last()), s.last().x()) } }
pub open spec fn xn(n: int) -> XR { XR::R(n as real) }
pub open spec fn xmean(s: XS) -> XR { if s.len() == 0 { XR::Nan } else { xdiv(xsum(s), xn(s.len() as int)) } }
// squared distances to m
pub open spec fn sq_to(m: XR, v: Fl) -> Fl { mkx(xmul(xsub(m, v.x()), xsub(m, v.x()))) }
pub open spec fn sqs(m: XR, s: XS) -> XS { Seq::new(s.len(), |i: int| sq_to(m, s[i])) }
pub open spec fn xsdev(s: XS) -> XR { if s.len() == 0 { XR::Nan } else { xsqrt(xdiv(xsum(sqs(xdiv(xsum(s), xn(s.len() as int)), s)), xn(s.len() as int))) } }
impl It<Fl> {
    pub fn sum(self) -> (r: Fl) ensures r.x() == xsum(self@)
    {
        let mut t = Fl::lit(0.0, Ghost(0real));
        let mut i: usize = 0;
        proof { assert(self@.take(0) =~= Seq::empty()); }
        while i < self.v.len()
            invariant i <= self@.len(), t.x() == xsum(self@.take(i as int))
            decreases self@.len() - i
        {
            t = t + self.v[i];
            proof { assert(self@.take(i + 1).drop_last() =~= self@.take(i as int)); assert(self@.take(i + 1).last() == self@[i as int]); }
            i = i + 1;
        }
        proof { assert(self@.take(i as int) =~= self@); }
        t
    }
}
}
pub use xrm::*;

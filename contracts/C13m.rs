//@include hdr.rs
verus! {
//@include xl.rs
//@include rt.rs
//@include iter.rs
//@include mm.rs
impl It<Fl> {
/*@fn juno/src/itertools.rs IteratorExt::minmax
ret: r
flag: plain
subst: self => &self.v
spec:
    requires self@.len() > 0, forall|i: int| 0 <= i < self@.len() ==> (#[trigger] self@[i]).fin(),
    ensures r.0.fin(), r.1.fin(), r.0.v() == flow(self@), r.1.v() == fhigh(self@),
head:
    let ghost s = self@;
    proof { assert(s.take(s.len() as int) =~= s); }
loop 0 inv:
    invariant s == s_0@, s.len() > 0, i_0 <= s.len(), forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]).fin(),
        i_0 == 0 ==> min.x() is Nan && max.x() is Nan,
        i_0 > 0 ==> min.fin() && max.fin() && min.v() == flow(s.take(i_0 as int)) && max.v() == fhigh(s.take(i_0 as int)),
    decreases s.len() - i_0
loop 0 head:
    proof { assert(s.take(i_0 as int).drop_last() =~= s.take(i_0 - 1)); assert(s.take(i_0 as int).last() == s[i_0 - 1]); assert(s.take(i_0 as int)[0] == s[0]); }
@*/
}
}
fn main(){}

//@include hdr.rs
verus! {
//@subst_type Box<dyn MA> => DynMa
//@include fl.rs
//@include rt.rs
//@include iter.rs
//@include rseq.rs
//@include ma.rs
//@include madyn.rs
//@include marange.rs
}
fn main(){}

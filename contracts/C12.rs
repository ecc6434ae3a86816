//@include hdr.rs
verus! {
//@include fl.rs
//@include rt.rs
//@include iter.rs
//@include rseq.rs
//@contracts ma.rs
//@include osc.rs
}
fn main(){}

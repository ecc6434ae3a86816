//@include hdr.rs
verus! {
//@include fl.rs
//@include rt.rs

//@include rnd.rs
}
fn main(){}

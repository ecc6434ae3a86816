//@include hdr.rs
verus! {
//@include fl.rs
//@include rt.rs
//@include iter.rs
//@include gen.rs
//@include genops.rs
}
fn main(){}

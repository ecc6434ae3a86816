//@include hdr.rs
verus! {
//@include rt.rs
//@include advice.rs
//@include advf.rs
}
fn main(){}

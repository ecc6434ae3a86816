//@include hdr.rs
verus! {
//@include xl.rs
//@include rt.rs
//@include ann.rs
}
fn main(){}

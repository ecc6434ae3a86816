//@include hdr.rs
verus! {
//@subst_type HashMap<String, Vec<f64>> => Prices
//@include xl.rs
//@include rt.rs
//@include iter.rs
//@include xrs.rs
//@include hmap.rs
//@contracts imath.rs
//@include prim_ops.rs
//@include trd.rs
//@include posx.rs
//@contracts prim.rs
//@include trfrom.rs
//@include prices.rs
//@include ext.rs
}
fn main(){}

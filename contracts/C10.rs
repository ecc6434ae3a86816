//@include hdr.rs
verus! {
//@subst_type Cow<'a, Candle> => Cow<'a>
//@include fl.rs
//@include rt.rs
//@include imath.rs
//@include prim.rs
//@include candle.rs
//@include buf.rs
}
fn main(){}

//@include hdr.rs
use std::cmp::Ordering;
verus! {
//@subst_type EasingMap => HashMap<Easing, Curve>
//@include fl.rs
//@include rt.rs
//@include iter.rs
//@include hmap.rs
//@include curves.rs
//@include easings.rs
}
fn main(){}

//@include hdr.rs
use std::cmp::Ordering;
verus! {
//@subst_type EasingMap => HashMap<Easing, Curve>
//@include fl.rs
//@include rt.rs
//@include iter.rs
//@include hmap.rs
pub open spec fn fl_lt(a: Fl, b: Fl) -> bool { a.v() < b.v() }
pub open spec fn fl_unit(p: Fl) -> bool { 0real <= p.v() <= 1real }
//@include rnd_rng.rs
//@contracts curves.rs
//@contracts easings.rs
//@include choices.rs
}
fn main(){}

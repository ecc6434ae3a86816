// ---- the easing curves: which curve of the ezing crate each name stands for, and the list generators choose from ----
/*@enum juno/src/easing.rs Easing
attr:
    #[derive(Clone, Copy, PartialEq, Eq, Structural)]
@*/
// a curve of the ezing crate by its name there (what it computes is the crate's), and the identity
#[derive(Clone, Copy, PartialEq, Eq, Structural)]
pub enum Curve { Linear, QuadIn, QuadOut, QuadInout, CubicIn, CubicOut, CubicInout, QuartIn, QuartOut, QuartInout, QuintIn, QuintOut, QuintInout, SineIn, SineOut, SineInout, CircIn, CircOut, CircInout, ExpoIn, ExpoOut, ExpoInout, ElasticIn, ElasticOut, ElasticInout, BackIn, BackOut, BackInout, BounceIn, BounceOut, BounceInout }
pub uninterp spec fn at(c: Curve, x: real) -> real;
pub open spec fn curve_at(c: Curve, x: real) -> real { if c == Curve::Linear { x } else { at(c, x) } }
pub open spec fn named(e: Easing) -> Curve { match e { Easing::Linear => Curve::Linear, Easing::QuadIn => Curve::QuadIn, Easing::QuadOut => Curve::QuadOut, Easing::QuadInout => Curve::QuadInout, Easing::CubicIn => Curve::CubicIn, Easing::CubicOut => Curve::CubicOut, Easing::CubicInout => Curve::CubicInout, Easing::QuartIn => Curve::QuartIn, Easing::QuartOut => Curve::QuartOut, Easing::QuartInout => Curve::QuartInout, Easing::QuintIn => Curve::QuintIn, Easing::QuintOut => Curve::QuintOut, Easing::QuintInout => Curve::QuintInout, Easing::SineIn => Curve::SineIn, Easing::SineOut => Curve::SineOut, Easing::SineInout => Curve::SineInout, Easing::CircIn => Curve::CircIn, Easing::CircOut => Curve::CircOut, Easing::CircInout => Curve::CircInout, Easing::ExpoIn => Curve::ExpoIn, Easing::ExpoOut => Curve::ExpoOut, Easing::ExpoInout => Curve::ExpoInout, Easing::ElasticIn => Curve::ElasticIn, Easing::ElasticOut => Curve::ElasticOut, Easing::ElasticInout => Curve::ElasticInout, Easing::BackIn => Curve::BackIn, Easing::BackOut => Curve::BackOut, Easing::BackInout => Curve::BackInout, Easing::BounceIn => Curve::BounceIn, Easing::BounceOut => Curve::BounceOut, Easing::BounceInout => Curve::BounceInout } }
// the value of the easing e at x
pub open spec fn ease(x: real, e: Easing) -> real { curve_at(named(e), x) }
// its place in the declaration
pub open spec fn no(e: Easing) -> int { match e { Easing::Linear => 0, Easing::QuadIn => 1, Easing::QuadOut => 2, Easing::QuadInout => 3, Easing::CubicIn => 4, Easing::CubicOut => 5, Easing::CubicInout => 6, Easing::QuartIn => 7, Easing::QuartOut => 8, Easing::QuartInout => 9, Easing::QuintIn => 10, Easing::QuintOut => 11, Easing::QuintInout => 12, Easing::SineIn => 13, Easing::SineOut => 14, Easing::SineInout => 15, Easing::CircIn => 16, Easing::CircOut => 17, Easing::CircInout => 18, Easing::ExpoIn => 19, Easing::ExpoOut => 20, Easing::ExpoInout => 21, Easing::ElasticIn => 22, Easing::ElasticOut => 23, Easing::ElasticInout => 24, Easing::BackIn => 25, Easing::BackOut => 26, Easing::BackInout => 27, Easing::BounceIn => 28, Easing::BounceOut => 29, Easing::BounceInout => 30 } }
pub mod lin { use super::*;
/*@fn juno/src/easing.rs linear
ret: r
spec:
    ensures r.v() == x.v(),
@*/
}
impl Curve {
    #[verifier::external_body] fn foreign(self, x: Fl) -> (r: Fl) requires self != Curve::Linear ensures r.v() == at(self, x.v()) { unimplemented!() }
    pub fn apply(self, x: Fl) -> (r: Fl) ensures r.v() == curve_at(self, x.v()) { match self { Curve::Linear => lin::linear(x), c => c.foreign(x) } }
}
/*@fn juno/src/easing.rs tween
ret: r
subst: (EASINGS[&easing])(x) => EASINGS().at(&easing).apply(x)
spec:
    ensures r.v() == ease(x.v(), easing),
@*/

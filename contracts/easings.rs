//@subst_type EasingMap => HashMap<Easing, Curve>
//@subst_type HashMap<Easing, fn(f64) -> f64> => HashMap<Easing, Curve>
//@method collect => collect_c
//@method sort_by_key => sort_by_key_x
//@method sort_unstable_by_key => sort_by_key_x
//@subst_expr easing as u8 => easing.rank_()
//@subst_expr linear => Curve::Linear
//@subst_expr EASINGS => EASINGS()
//@subst_expr EASING_CHOICES => EASING_CHOICES()
//@subst_expr ezing::quad_in::<f64> => Curve::QuadIn
//@subst_expr ezing::quad_in => Curve::QuadIn
//@subst_expr ezing::quad_out::<f64> => Curve::QuadOut
//@subst_expr ezing::quad_out => Curve::QuadOut
//@subst_expr ezing::quad_inout::<f64> => Curve::QuadInout
//@subst_expr ezing::quad_inout => Curve::QuadInout
//@subst_expr ezing::cubic_in::<f64> => Curve::CubicIn
//@subst_expr ezing::cubic_in => Curve::CubicIn
//@subst_expr ezing::cubic_out::<f64> => Curve::CubicOut
//@subst_expr ezing::cubic_out => Curve::CubicOut
//@subst_expr ezing::cubic_inout::<f64> => Curve::CubicInout
//@subst_expr ezing::cubic_inout => Curve::CubicInout
//@subst_expr ezing::quart_in::<f64> => Curve::QuartIn
//@subst_expr ezing::quart_in => Curve::QuartIn
//@subst_expr ezing::quart_out::<f64> => Curve::QuartOut
//@subst_expr ezing::quart_out => Curve::QuartOut
//@subst_expr ezing::quart_inout::<f64> => Curve::QuartInout
//@subst_expr ezing::quart_inout => Curve::QuartInout
//@subst_expr ezing::quint_in::<f64> => Curve::QuintIn
//@subst_expr ezing::quint_in => Curve::QuintIn
//@subst_expr ezing::quint_out::<f64> => Curve::QuintOut
//@subst_expr ezing::quint_out => Curve::QuintOut
//@subst_expr ezing::quint_inout::<f64> => Curve::QuintInout
//@subst_expr ezing::quint_inout => Curve::QuintInout
//@subst_expr ezing::sine_in::<f64> => Curve::SineIn
//@subst_expr ezing::sine_in => Curve::SineIn
//@subst_expr ezing::sine_out::<f64> => Curve::SineOut
//@subst_expr ezing::sine_out => Curve::SineOut
//@subst_expr ezing::sine_inout::<f64> => Curve::SineInout
//@subst_expr ezing::sine_inout => Curve::SineInout
//@subst_expr ezing::circ_in::<f64> => Curve::CircIn
//@subst_expr ezing::circ_in => Curve::CircIn
//@subst_expr ezing::circ_out::<f64> => Curve::CircOut
//@subst_expr ezing::circ_out => Curve::CircOut
//@subst_expr ezing::circ_inout::<f64> => Curve::CircInout
//@subst_expr ezing::circ_inout => Curve::CircInout
//@subst_expr ezing::expo_in::<f64> => Curve::ExpoIn
//@subst_expr ezing::expo_in => Curve::ExpoIn
//@subst_expr ezing::expo_out::<f64> => Curve::ExpoOut
//@subst_expr ezing::expo_out => Curve::ExpoOut
//@subst_expr ezing::expo_inout::<f64> => Curve::ExpoInout
//@subst_expr ezing::expo_inout => Curve::ExpoInout
//@subst_expr ezing::elastic_in::<f64> => Curve::ElasticIn
//@subst_expr ezing::elastic_in => Curve::ElasticIn
//@subst_expr ezing::elastic_out::<f64> => Curve::ElasticOut
//@subst_expr ezing::elastic_out => Curve::ElasticOut
//@subst_expr ezing::elastic_inout::<f64> => Curve::ElasticInout
//@subst_expr ezing::elastic_inout => Curve::ElasticInout
//@subst_expr ezing::back_in::<f64> => Curve::BackIn
//@subst_expr ezing::back_in => Curve::BackIn
//@subst_expr ezing::back_out::<f64> => Curve::BackOut
//@subst_expr ezing::back_out => Curve::BackOut
//@subst_expr ezing::back_inout::<f64> => Curve::BackInout
//@subst_expr ezing::back_inout => Curve::BackInout
//@subst_expr ezing::bounce_in::<f64> => Curve::BounceIn
//@subst_expr ezing::bounce_in => Curve::BounceIn
//@subst_expr ezing::bounce_out::<f64> => Curve::BounceOut
//@subst_expr ezing::bounce_out => Curve::BounceOut
//@subst_expr ezing::bounce_inout::<f64> => Curve::BounceInout
//@subst_expr ezing::bounce_inout => Curve::BounceInout
pub mod cm { use super::*;
// collecting pairs into a map: the last value of a key counts
pub trait Coll<T>: Sized { spec fn made(s: Seq<T>, r: Self) -> bool; fn coll(v: Vec<T>) -> (r: Self) ensures Self::made(v@, r); }
impl<T> Coll<T> for Vec<T> { open spec fn made(s: Seq<T>, r: Vec<T>) -> bool { r@ == s } fn coll(v: Vec<T>) -> (r: Vec<T>) { v } }
pub open spec fn last_of<K, V>(s: Seq<(K, V)>, k: K, v: V) -> bool { exists|i: int| 0 <= i < s.len() && #[trigger] s[i] == (k, v) && forall|j: int| i < j < s.len() ==> (#[trigger] s[j]).0 != k }
impl<K: Copy, V: Copy> Coll<(K, V)> for HashMap<K, V> {
    open spec fn made(s: Seq<(K, V)>, r: HashMap<K, V>) -> bool {
        (forall|k: K| #[trigger] r@.contains_key(k) ==> last_of(s, k, r@[k])) && (forall|i: int| 0 <= i < s.len() ==> r@.contains_key((#[trigger] s[i]).0)) }
    fn coll(v: Vec<(K, V)>) -> (r: HashMap<K, V>) {
        let mut m: HashMap<K, V> = HashMap::new();
        let mut i: usize = 0;
        proof { assert(v@.take(0) =~= Seq::empty()); }
        while i < v.len()
            invariant i <= v@.len(), Self::made(v@.take(i as int), m)
            decreases v@.len() - i
        {
            let ghost s = v@.take(i as int); let ghost t = v@.take(i + 1); let ghost m0 = m@;
            m.insert(v[i].0, v[i].1);
            proof {
                assert forall|k: K| #[trigger] m@.contains_key(k) implies last_of(t, k, m@[k]) by {
                    if k == v@[i as int].0 { assert(t[i as int] == (k, m@[k])); }
                    else {
                        assert(m0.contains_key(k));
                        let j = choose|j: int| 0 <= j < s.len() && #[trigger] s[j] == (k, m0[k]) && forall|l: int| j < l < s.len() ==> (#[trigger] s[l]).0 != k;
                        assert(t[j] == (k, m@[k]));
                        assert forall|l: int| j < l < t.len() implies (#[trigger] t[l]).0 != k by { if l < i { assert(s[l].0 != k); } }
                    }
                }
                assert forall|j: int| 0 <= j < t.len() implies m@.contains_key((#[trigger] t[j]).0) by { if j < i { assert(m0.contains_key(s[j].0)); } }
            }
            i = i + 1;
        }
        proof { assert(v@.take(i as int) =~= v@); }
        m
    }
}
impl<T> It<T> { pub fn collect_c<C: Coll<T>>(self) -> (r: C) ensures C::made(self@, r) { C::coll(self.v) } }
}
pub use cm::*;
/*@fn juno/src/easing.rs EASINGS
ret: r
spec:
    ensures forall|e: Easing| #![trigger r@.contains_key(e)] #![trigger r@[e]] r@.contains_key(e) && r@[e] == named(e),
@*/


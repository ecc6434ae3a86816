//@include hdr.rs
verus! {
//@subst_type Cow<'a, Candle> => Cow<'a>
//@subst_type Box<dyn MA> => DynMa
//@subst_type Box<dyn indicators::MA> => DynMa
//@subst_type Box<dyn Signal> => DynSig
//@subst_type Box<dyn Oscillator> => DynOsc
//@subst_type crate::Advice => Advice
//@include fl.rs
//@include rt.rs
//@include iter.rs
//@include rseq.rs
//@contracts imath.rs
//@contracts prim.rs
//@include candle.rs
//@include advice.rs
//@contracts buf.rs
//@contracts ma.rs
//@contracts madyn.rs
//@contracts osc.rs
//@contracts advf.rs
//@include mm.rs
//@include st.rs
}
fn main(){}

#![verifier::exec_allows_no_decreases_clause]
//@include hdr.rs
use std::mem;
verus! {
//@subst_type rand::prelude::StdRng => StdRng
//@subst_type rand::rngs::StdRng => StdRng
//@subst_type Box<dyn MA> => DynMa
//@subst_type Box<dyn indicators::MA> => DynMa
//@subst_type Box<dyn Signal> => DynSig
//@subst_type Box<dyn Oscillator> => DynOsc
//@subst_type Box<dyn StopLoss> => DynSl
//@subst_type Box<dyn TakeProfit> => DynTp
//@include xl.rs
//@include rt.rs
//@include iter.rs
//@include xrs.rs
//@include prim_ops.rs
pub open spec fn fl_lt(a: Fl, b: Fl) -> bool { a.fin() && b.fin() && a.v() < b.v() }
pub open spec fn fl_unit(p: Fl) -> bool { p.fin() && 0real <= p.v() <= 1real }
//@include rnd_rng.rs
/*@enum juno/src/utils/mid_trend.rs MidTrendPolicy
attr:
    #[derive(Clone, Copy, PartialEq, Eq, Structural)]
@*/
/*@enum juno/src/easing.rs Easing
attr:
    #[derive(Clone, Copy)]
@*/
/*@struct juno/src/indicators/alma.rs AlmaParams
attr:
    #[derive(Clone, Copy)]
@*/
/*@struct juno/src/indicators/dema.rs DemaParams
attr:
    #[derive(Clone, Copy)]
@*/
/*@struct juno/src/indicators/ema.rs EmaParams
attr:
    #[derive(Clone, Copy)]
@*/
/*@struct juno/src/indicators/ema2.rs Ema2Params
attr:
    #[derive(Clone, Copy)]
@*/
/*@struct juno/src/indicators/kama.rs KamaParams
attr:
    #[derive(Clone, Copy)]
@*/
/*@struct juno/src/indicators/sma.rs SmaParams
attr:
    #[derive(Clone, Copy)]
@*/
/*@struct juno/src/indicators/smma.rs SmmaParams
attr:
    #[derive(Clone, Copy)]
@*/
/*@enum juno/src/indicators/mod.rs MAParams
attr:
    #[derive(Clone, Copy)]
@*/
// a value is valid in a context (ok): every field lies in its range, fields and variants fixed by the context are as fixed
pub trait Chromosome: Sized {
    type Context;
    spec fn g_len() -> nat;
    spec fn ok(x: Self, c: Self::Context) -> bool;
    // the values the context fixes are valid themselves
    spec fn cvalid(c: Self::Context) -> bool;
    // what the consumers of a value rely on, whatever the context was
    spec fn valid(x: Self) -> bool;
    proof fn ok_valid(x: Self, c: Self::Context) requires Self::ok(x, c), Self::cvalid(c) ensures Self::valid(x);
    fn len() -> (r: usize) ensures r == Self::g_len();
    fn generate(rng: &mut StdRng, ctx: &Self::Context) -> (x: Self) requires Self::cvalid(*ctx) ensures Self::ok(x, *ctx);
    fn cross(&mut self, other: &mut Self, i: usize)
        requires i < Self::g_len(),
        ensures forall|c: Self::Context| #[trigger] Self::ok(*old(self), c) && Self::ok(*old(other), c) ==> Self::ok(*final(self), c) && Self::ok(*final(other), c);
    fn mutate(&mut self, rng: &mut StdRng, i: usize, ctx: &Self::Context)
        requires i < Self::g_len(), Self::cvalid(*ctx), Self::ok(*old(self), *ctx),
        ensures Self::ok(*final(self), *ctx);
}
// Default of the contexts: nothing is fixed
pub trait DfltX: Sized { spec fn dv() -> Self; fn default() -> (r: Self) ensures r == Self::dv(); }
impl<T> DfltX for Option<T> { open spec fn dv() -> Self { None } fn default() -> (r: Self) { let r: Option<T> = None; proof { assert(r == Self::dv()); } r } }
//@subst_expr ::core::default::Default::default() => DfltX::default()
pub open spec fn sane(p: u32) -> bool { 0 < p < 0x100000 }
impl MAParams {
    pub open spec fn n(self) -> int { match self {
        MAParams::Alma(p) => p.period as int,
        MAParams::Dema(p) => p.period as int,
        MAParams::Ema(p) => p.period as int,
        MAParams::Ema2(p) => p.period as int,
        MAParams::Kama(p) => p.period as int,
        MAParams::Sma(p) => p.period as int,
        MAParams::Smma(p) => p.period as int,
    } }
    pub open spec fn valid(self) -> bool { 0 < self.n() < 0x100000 && match self {
        MAParams::Alma(p) => p.offset.fin() && 0real < p.offset.v() < 1real && (p.sigma is Some ==> p.sigma->0 > 0),
        MAParams::Ema(p) => p.smoothing is Some ==> (p.smoothing->0).fin() && 0real < (p.smoothing->0).v() <= 1real,
        _ => true,
    } }
}
pub trait MAExt { fn gen_ma_params(&mut self, period: u32) -> (x: MAParams) requires sane(period) ensures x.valid(), x.n() == period; }
impl MAExt for StdRng {
/*@fn juno/src/indicators/mod.rs StdRng::MAExt::gen_ma_params
ret: x
flag: novis
@*/
}
/*@const juno/src/utils/mid_trend.rs MID_TREND_POLICY_CHOICES
@*/
pub trait MidTrendPolicyExt { fn gen_mid_trend_policy(&mut self) -> MidTrendPolicy; }
impl MidTrendPolicyExt for StdRng {
/*@fn juno/src/utils/mid_trend.rs StdRng::MidTrendPolicyExt::gen_mid_trend_policy
flag: novis
@*/
}
pub trait EasingExt { fn gen_easing(&mut self) -> Easing; }
impl EasingExt for StdRng {
/*@fn juno/src/easing.rs StdRng::EasingExt::gen_easing
flag: novis
flag: extern
@*/
}
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct BoundedVecDeque<T> { x: std::collections::VecDeque<T>, n: usize }
impl<T> BoundedVecDeque<T> { #[verifier::external_body] pub fn new(n: usize) -> (r: Self) { unimplemented!() } }
impl PartialEq<u64> for Interval {
/*@fn juno/src/primitives/interval.rs Interval::PartialEq::eq
flag: novis
@*/
}
impl PartialEqSpecImpl<u64> for Interval {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, o: &u64) -> bool { self.0 == *o } }
#[verifier::external_body]
pub fn iv_or_default(o: Option<Interval>) -> (r: Interval) { unimplemented!() }
/*@struct juno/src/lib.rs Candle
@*/
/*@enum juno/src/lib.rs Advice
attr:
    #[derive(Clone, Copy, PartialEq, Eq, Structural)]
@*/
/*@struct juno/src/utils/buffered_candle.rs BufferedCandle
@*/
impl BufferedCandle {
/*@fn juno/src/utils/buffered_candle.rs BufferedCandle::new
subst: buffer_interval.unwrap_or_default() => iv_or_default(buffer_interval)
spec:
    requires interval.0 > 0, buffer_interval is Some ==> interval.0 <= (buffer_interval->0).0,
@*/
}
/*@struct juno/src/utils/mid_trend.rs MidTrend
@*/
impl MidTrend {
/*@fn juno/src/utils/mid_trend.rs MidTrend::new
@*/
/*@fn juno/src/utils/mid_trend.rs MidTrend::maturity
ret: r
spec:
    ensures 0 < r <= 2,
@*/
}
/*@struct juno/src/utils/persistence.rs Persistence
@*/
impl Persistence {
/*@fn juno/src/utils/persistence.rs Persistence::new
ret: r
spec:
    requires level < 1000000,
    ensures r.level == level,
@*/
/*@fn juno/src/utils/persistence.rs Persistence::maturity
ret: r
spec:
    requires self.level < 1000000,
    ensures 0 < r <= 1000000,
@*/
}
//@include chrom21.rs
// ---- the property: whatever the sequence of generation, crossover and mutation in one context, the parameters can be used ----
pub mod c21 { use super::*; use super::trading::*; use super::strategies::*; use super::stop_loss::*; use super::take_profit::*;
// a buffer interval fixed by the context is no shorter than any interval that can be traded
pub open spec fn buffers_fit(c: TradingParamsContext) -> bool {
    match c.strategy { StrategyParamsContext::Sig(s) => match s.buffer_interval { Some(Some(b)) => forall|i: int| 0 <= i < c.trader.intervals@.len() ==> (#[trigger] c.trader.intervals@[i]).0 <= b.0, _ => true }, _ => true } }
pub fn every_parameter_set_is_usable(p: &TradingParams, ctx: &TradingParamsContext)
    requires TradingParams::cvalid(*ctx), buffers_fit(*ctx), TradingParams::ok(*p, *ctx)
{
    proof { TradingParams::ok_valid(*p, *ctx); }
    let meta = StrategyMeta { interval: p.trader.interval };
    p.strategy.construct(&meta);
    p.stop_loss.construct();
    p.take_profit.construct();
}
// a child of two parents, as the genetic algorithm makes it
pub fn child(a: &mut TradingParams, b: &mut TradingParams, rng: &mut StdRng, i: usize, j: usize, ctx: &TradingParamsContext)
    requires TradingParams::cvalid(*ctx), TradingParams::ok(*old(a), *ctx), TradingParams::ok(*old(b), *ctx), i < TradingParams::g_len(), j < TradingParams::g_len(),
    ensures TradingParams::ok(*final(a), *ctx), TradingParams::ok(*final(b), *ctx)
{
    a.cross(b, i);
    a.mutate(rng, j, ctx);
    b.mutate(rng, j, ctx);
}
}
}
fn main(){}

// ==== juno/src/strategies ====
pub mod chm { use super::*;
broadcast use fl_axioms;
pub type CH = Seq<Candle>;
pub open spec fn c_upd(h: CH, c: Candle) -> CH { h.push(c) }
pub open spec fn closes(h: CH) -> FS { Seq::new(h.len(), |i: int| h[i].close) }
pub open spec fn highs(h: CH) -> FS { Seq::new(h.len(), |i: int| h[i].high) }
pub open spec fn lows(h: CH) -> FS { Seq::new(h.len(), |i: int| h[i].low) }
pub broadcast proof fn lemma_c_upd(h: CH, c: Candle)
    ensures (#[trigger] c_upd(h, c)).len() == h.len() + 1, c_upd(h, c).drop_last() == h, c_upd(h, c).last() == c,
        closes(c_upd(h, c)) == p_upd(closes(h), c.close), highs(c_upd(h, c)) == p_upd(highs(h), c.high), lows(c_upd(h, c)) == p_upd(lows(h), c.low),
{
    assert(c_upd(h, c).drop_last() =~= h);
    assert(closes(c_upd(h, c)) =~= p_upd(closes(h), c.close));
    assert(highs(c_upd(h, c)) =~= p_upd(highs(h), c.high));
    assert(lows(c_upd(h, c)) =~= p_upd(lows(h), c.low));
}
pub broadcast proof fn lemma_c_empty()
    ensures #![trigger closes(Seq::empty())] #![trigger highs(Seq::empty())] #![trigger lows(Seq::empty())]
        closes(Seq::empty()) == Seq::<Fl>::empty(), highs(Seq::empty()) == Seq::<Fl>::empty(), lows(Seq::empty()) == Seq::<Fl>::empty(),
{ assert(closes(Seq::empty()) =~= Seq::empty()); assert(highs(Seq::empty()) =~= Seq::empty()); assert(lows(Seq::empty()) =~= Seq::empty()); }
pub open spec fn imax(a: int, b: int) -> int { if a >= b { a } else { b } }
}
pub use chm::*;
pub mod indicators { pub use super::{Macd, Rsi, Stoch}; }
// IteratorExt::minmax (proved in unit C13m)
impl It<Fl> {
    #[verifier::external_body]
    pub fn minmax(self) -> (r: (Fl, Fl)) requires self@.len() > 0 ensures r.0.v() == flow(self@), r.1.v() == fhigh(self@) { unimplemented!() }
}
/*@enum juno/src/strategies/sig_osc.rs OscFilter
attr:
    #[derive(Clone, Copy, PartialEq, Eq, Structural)]
@*/
pub mod strm { use super::*;
broadcast use {fl_axioms, lemma_c_upd, lemma_c_empty};
/*@struct juno/src/strategies/mod.rs StrategyMeta
@*/
// ---- trend over one average ----
/*@struct juno/src/strategies/single_ma.rs SingleMAParams
attr:
    #[derive(Clone, Copy)]
@*/
/*@struct juno/src/strategies/single_ma.rs SingleMA
@*/
impl SingleMAParams {
    pub open spec fn ok(self) -> bool { self.ma.ok() && ma_mat(self.ma) + 1 < u32::MAX }
    pub open spec fn mat(self) -> int { ma_mat(self.ma) + 1 }
    // long when the close is above a rising average, short when it is below a falling one
    pub open spec fn adv(self, h: CH) -> Advice decreases h.len() {
        if h.len() == 0 { Advice::None } else {
            let (a, c) = (self.adv(h.drop_last()), h.last().close.v());
            let (v, u) = (ma_def(self.ma, closes(h)), ma_def(self.ma, closes(h.drop_last())));
            if h.len() < self.mat() { a } else if c > v && v > u { Advice::Long } else if c < v && v < u { Advice::Short } else { a } } }
}
impl SingleMA {
    pub open spec fn inv(&self, p: SingleMAParams, h: CH) -> bool {
        &&& p.ok() && self.ma.of(p.ma) && self.ma.inv(closes(h)) && self.t1 == p.mat() && self.t == lmin(h.len() as int, p.mat())
        &&& (h.len() >= ma_mat(p.ma) ==> self.previous_ma_value.v() == ma_def(p.ma, closes(h)))
        &&& self.advice == p.adv(h) }
/*@fn juno/src/strategies/single_ma.rs SingleMA::new
ret: r
spec:
    requires params.ok(),
    ensures r.inv(*params, Seq::empty()),
@*/
/*@fn juno/src/strategies/single_ma.rs SingleMA::maturity
ret: r
spec:
    ensures forall|p: SingleMAParams, h: CH| #[trigger] self.inv(p, h) ==> r == p.mat(),
@*/
/*@fn juno/src/strategies/single_ma.rs SingleMA::mature
ret: r
spec:
    ensures r == (self.t >= self.t1), forall|p: SingleMAParams, h: CH| #[trigger] self.inv(p, h) ==> r == (h.len() >= p.mat()),
@*/
/*@fn juno/src/strategies/single_ma.rs SingleMA::update
spec:
    requires exists|p: SingleMAParams, h: CH| #[trigger] old(self).inv(p, h),
    ensures forall|p: SingleMAParams, h: CH| #[trigger] old(self).inv(p, h) ==> final(self).inv(p, c_upd(h, *candle)),
@*/
/*@fn juno_derive/src/macros/derive_signal.rs#SingleMA SingleMA::advice
ret: r
spec:
    ensures forall|p: SingleMAParams, h: CH| #[trigger] self.inv(p, h) ==> r == p.adv(h),
@*/
}
// ---- a short average against a long one ----
/*@struct juno/src/strategies/double_ma.rs DoubleMAParams
attr:
    #[derive(Clone, Copy)]
@*/
/*@struct juno/src/strategies/double_ma.rs DoubleMA
@*/
impl DoubleMAParams {
    pub open spec fn ok(self) -> bool { self.mas.0.ok() && self.mas.1.ok() && self.mas.0.n() < self.mas.1.n() }
    pub open spec fn mat(self) -> int { imax(ma_mat(self.mas.0), ma_mat(self.mas.1)) }
    pub open spec fn adv(self, h: CH) -> Advice decreases h.len() {
        if h.len() == 0 { Advice::None } else {
            let a = self.adv(h.drop_last());
            let (s, l) = (ma_def(self.mas.0, closes(h)), ma_def(self.mas.1, closes(h)));
            if h.len() < self.mat() { a } else if s > l { Advice::Long } else if s < l { Advice::Short } else { a } } }
}
impl DoubleMA {
    pub open spec fn wf(&self) -> bool { self.short_ma.wf() && self.long_ma.wf() }
    pub open spec fn inv(&self, p: DoubleMAParams, h: CH) -> bool {
        &&& p.ok() && self.short_ma.of(p.mas.0) && self.short_ma.inv(closes(h)) && self.long_ma.of(p.mas.1) && self.long_ma.inv(closes(h))
        &&& self.advice == p.adv(h) }
/*@fn juno/src/strategies/double_ma.rs DoubleMA::new
ret: r
spec:
    requires params.ok(),
    ensures r.inv(*params, Seq::empty()),
@*/
/*@fn juno/src/strategies/double_ma.rs DoubleMA::maturity
ret: r
spec:
    requires self.wf(),
    ensures forall|p: DoubleMAParams, h: CH| #[trigger] self.inv(p, h) ==> r == p.mat(),
@*/
/*@fn juno/src/strategies/double_ma.rs DoubleMA::mature
ret: r
spec:
    requires self.wf(),
    ensures forall|p: DoubleMAParams, h: FS| #[trigger] self.short_ma.of(p.mas.0) && #[trigger] self.long_ma.of(p.mas.1) && #[trigger] self.short_ma.inv(h) && self.long_ma.inv(h) ==> r == (h.len() >= p.mat()),
@*/
/*@fn juno/src/strategies/double_ma.rs DoubleMA::update
spec:
    requires exists|p: DoubleMAParams, h: CH| #[trigger] old(self).inv(p, h),
    ensures final(self).wf(), forall|p: DoubleMAParams, h: CH| #[trigger] old(self).inv(p, h) ==> final(self).inv(p, c_upd(h, *candle)),
@*/
/*@fn juno_derive/src/macros/derive_signal.rs#DoubleMA DoubleMA::advice
ret: r
spec:
    ensures forall|p: DoubleMAParams, h: CH| #[trigger] self.inv(p, h) ==> r == p.adv(h),
@*/
}
// ---- with thresholds in percent of their middle ----
/*@struct juno/src/strategies/double_ma_2.rs DoubleMA2Params
attr:
    #[derive(Clone, Copy)]
@*/
/*@struct juno/src/strategies/double_ma_2.rs DoubleMA2
@*/
impl DoubleMA2Params {
    pub open spec fn ok(self) -> bool { self.mas.0.ok() && self.mas.1.ok() && self.mas.0.n() < self.mas.1.n()
        && 0real < self.pos_threshold.v() < 1real && -1real <= self.neg_threshold.v() < 0real }
    pub open spec fn mat(self) -> int { imax(ma_mat(self.mas.0), ma_mat(self.mas.1)) }
    // the averages do not cancel out
    pub open spec fn fits(self, h: CH) -> bool { h.len() >= self.mat() ==> ma_def(self.mas.0, closes(h)) + ma_def(self.mas.1, closes(h)) != 0real }
    pub open spec fn adv(self, h: CH) -> Advice decreases h.len() {
        if h.len() == 0 { Advice::None } else {
            let a = self.adv(h.drop_last());
            let (s, l) = (ma_def(self.mas.0, closes(h)), ma_def(self.mas.1, closes(h)));
            let d = 100real * (s - l) / ((s + l) / 2real);
            if h.len() < self.mat() { a } else if d > self.pos_threshold.v() { Advice::Long } else if d < self.neg_threshold.v() { Advice::Short } else { a } } }
}
impl DoubleMA2 {
    pub open spec fn wf(&self) -> bool { self.short_ma.wf() && self.long_ma.wf() }
    pub open spec fn inv(&self, p: DoubleMA2Params, h: CH) -> bool {
        &&& p.ok() && self.short_ma.of(p.mas.0) && self.short_ma.inv(closes(h)) && self.long_ma.of(p.mas.1) && self.long_ma.inv(closes(h))
        &&& self.pos_threshold == p.pos_threshold && self.neg_threshold == p.neg_threshold
        &&& self.advice == p.adv(h) }
/*@fn juno/src/strategies/double_ma_2.rs DoubleMA2::new
ret: r
spec:
    requires params.ok(),
    ensures r.inv(*params, Seq::empty()),
@*/
/*@fn juno/src/strategies/double_ma_2.rs DoubleMA2::maturity
ret: r
spec:
    requires self.wf(),
    ensures forall|p: DoubleMA2Params, h: CH| #[trigger] self.inv(p, h) ==> r == p.mat(),
@*/
/*@fn juno/src/strategies/double_ma_2.rs DoubleMA2::mature
ret: r
spec:
    requires self.wf(),
    ensures forall|p: DoubleMA2Params, h: FS| #[trigger] self.short_ma.of(p.mas.0) && #[trigger] self.long_ma.of(p.mas.1) && #[trigger] self.short_ma.inv(h) && self.long_ma.inv(h) ==> r == (h.len() >= p.mat()),
@*/
/*@fn juno/src/strategies/double_ma_2.rs DoubleMA2::update
spec:
    requires exists|p: DoubleMA2Params, h: CH| #[trigger] old(self).inv(p, h) && p.fits(c_upd(h, *candle)),
    ensures final(self).wf(), forall|p: DoubleMA2Params, h: CH| #[trigger] old(self).inv(p, h) && p.fits(c_upd(h, *candle)) ==> final(self).inv(p, c_upd(h, *candle)),
@*/
/*@fn juno_derive/src/macros/derive_signal.rs#DoubleMA2 DoubleMA2::advice
ret: r
spec:
    ensures forall|p: DoubleMA2Params, h: CH| #[trigger] self.inv(p, h) ==> r == p.adv(h),
@*/
}
// ---- three averages ----
/*@struct juno/src/strategies/triple_ma.rs TripleMAParams
attr:
    #[derive(Clone, Copy)]
@*/
/*@struct juno/src/strategies/triple_ma.rs TripleMA
@*/
impl TripleMAParams {
    pub open spec fn ok(self) -> bool { self.mas.0.ok() && self.mas.1.ok() && self.mas.2.ok() && self.mas.0.n() < self.mas.1.n() < self.mas.2.n() }
    pub open spec fn mat(self) -> int { imax(imax(ma_mat(self.mas.0), ma_mat(self.mas.1)), ma_mat(self.mas.2)) }
    // in order: follow the trend; the short one crossing both others against the held advice: get out
    pub open spec fn adv(self, h: CH) -> Advice decreases h.len() {
        if h.len() == 0 { Advice::None } else {
            let a = self.adv(h.drop_last());
            let (s, m, l) = (ma_def(self.mas.0, closes(h)), ma_def(self.mas.1, closes(h)), ma_def(self.mas.2, closes(h)));
            if h.len() < self.mat() { a } else if s > m && m > l { Advice::Long } else if s < m && m < l { Advice::Short }
            else if a is Short && s > m && s > l { Advice::Liquidate } else if a is Long && s < m && s < l { Advice::Liquidate } else { a } } }
}
impl TripleMA {
    pub open spec fn wf(&self) -> bool { self.short_ma.wf() && self.medium_ma.wf() && self.long_ma.wf() }
    pub open spec fn inv(&self, p: TripleMAParams, h: CH) -> bool {
        &&& p.ok() && self.short_ma.of(p.mas.0) && self.short_ma.inv(closes(h)) && self.medium_ma.of(p.mas.1) && self.medium_ma.inv(closes(h)) && self.long_ma.of(p.mas.2) && self.long_ma.inv(closes(h))
        &&& self.advice == p.adv(h) }
/*@fn juno/src/strategies/triple_ma.rs TripleMA::new
ret: r
spec:
    requires params.ok(),
    ensures r.inv(*params, Seq::empty()),
@*/
/*@fn juno/src/strategies/triple_ma.rs TripleMA::maturity
ret: r
spec:
    requires self.wf(),
    ensures forall|p: TripleMAParams, h: CH| #[trigger] self.inv(p, h) ==> r == p.mat(),
@*/
/*@fn juno/src/strategies/triple_ma.rs TripleMA::mature
ret: r
spec:
    requires self.wf(),
    ensures forall|p: TripleMAParams, h: FS| #[trigger] self.short_ma.of(p.mas.0) && #[trigger] self.medium_ma.of(p.mas.1) && #[trigger] self.long_ma.of(p.mas.2) && #[trigger] self.short_ma.inv(h) && self.medium_ma.inv(h) && self.long_ma.inv(h) ==> r == (h.len() >= p.mat()),
@*/
/*@fn juno/src/strategies/triple_ma.rs TripleMA::update
spec:
    requires exists|p: TripleMAParams, h: CH| #[trigger] old(self).inv(p, h),
    ensures final(self).wf(), forall|p: TripleMAParams, h: CH| #[trigger] old(self).inv(p, h) ==> final(self).inv(p, c_upd(h, *candle)),
@*/
/*@fn juno_derive/src/macros/derive_signal.rs#TripleMA TripleMA::advice
ret: r
spec:
    ensures forall|p: TripleMAParams, h: CH| #[trigger] self.inv(p, h) ==> r == p.adv(h),
@*/
}
// ---- convergence and divergence ----
/*@struct juno/src/strategies/macd.rs MacdParams
attr:
    #[derive(Clone, Copy)]
@*/
/*@struct juno/src/strategies/macd.rs Macd
@*/
impl MacdParams {
    pub open spec fn ok(self) -> bool { 0 < self.periods.0 <= self.periods.1 && self.signal_period > 0 && self.periods.1 + self.signal_period < u32::MAX }
    pub open spec fn mat(self) -> int { self.periods.1 + self.signal_period - 1 }
    pub open spec fn adv(self, h: CH) -> Advice {
        let (s, l) = (self.periods.0 as int, self.periods.1 as int);
        if h.len() < self.mat() { Advice::None } else if macd_of(closes(h), s, l) > macd_sig(closes(h), s, l, self.signal_period as int) { Advice::Long } else { Advice::Short } }
}
impl Macd {
    pub open spec fn wf(&self) -> bool { self.macd.wf() }
    pub open spec fn inv(&self, p: MacdParams, h: CH) -> bool {
        &&& p.ok() && self.macd.wf() && self.macd.s() == p.periods.0 && self.macd.l() == p.periods.1 && self.macd.g() == p.signal_period && self.macd.inv(closes(h))
        &&& self.advice == p.adv(h) }
/*@fn juno/src/strategies/macd.rs Macd::new
ret: r
spec:
    requires params.ok(),
    ensures r.inv(*params, Seq::empty()),
@*/
/*@fn juno/src/strategies/macd.rs Macd::maturity
ret: r
spec:
    requires self.wf(),
    ensures forall|p: MacdParams, h: CH| #[trigger] self.inv(p, h) ==> r == p.mat(),
@*/
/*@fn juno/src/strategies/macd.rs Macd::mature
ret: r
spec:
    requires self.wf(),
    ensures forall|p: MacdParams, h: CH| #[trigger] self.inv(p, h) ==> r == (h.len() >= p.mat()),
@*/
/*@fn juno/src/strategies/macd.rs Macd::update
spec:
    requires exists|p: MacdParams, h: CH| #[trigger] old(self).inv(p, h),
    ensures final(self).wf(), forall|p: MacdParams, h: CH| #[trigger] old(self).inv(p, h) ==> final(self).inv(p, c_upd(h, *candle)),
@*/
/*@fn juno_derive/src/macros/derive_signal.rs#Macd Macd::advice
ret: r
spec:
    ensures forall|p: MacdParams, h: CH| #[trigger] self.inv(p, h) ==> r == p.adv(h),
@*/
}
// ---- breakouts of the last closes ----
/*@struct juno/src/strategies/four_week_rule.rs FourWeekRuleParams
attr:
    #[derive(Clone, Copy)]
@*/
/*@struct juno/src/strategies/four_week_rule.rs FourWeekRule
@*/
impl FourWeekRuleParams {
    pub open spec fn ok(self) -> bool { self.ma.ok() && 0 < self.period < u32::MAX - 1 && ma_mat(self.ma) < u32::MAX - 1 }
    pub open spec fn mat(self) -> int { imax(self.period + 1, ma_mat(self.ma)) }
    pub open spec fn adv(self, h: CH) -> Advice decreases h.len() {
        if h.len() == 0 { Advice::None } else {
            let (g, c, v) = (h.drop_last(), h.last().close.v(), ma_def(self.ma, closes(h)));
            let a = self.adv(g);
            let w = tail_n(closes(g), self.period as int);
            if h.len() < self.mat() { a } else if c >= fhigh(w) { Advice::Long } else if c <= flow(w) { Advice::Short }
            else if a is Long && c <= v || a is Short && c >= v { Advice::Liquidate } else { a } } }
}
impl FourWeekRule {
    pub open spec fn inv(&self, p: FourWeekRuleParams, h: CH) -> bool {
        &&& p.ok() && self.ma.of(p.ma) && self.ma.inv(closes(h)) && self.prices.cap() == p.period && self.prices@ == last_n(closes(h), p.period as int)
        &&& self.t1 == p.mat() && self.t == lmin(h.len() as int, p.mat())
        &&& self.advice == p.adv(h) }
/*@fn juno/src/strategies/four_week_rule.rs FourWeekRule::new
ret: r
spec:
    requires params.ok(),
    ensures r.inv(*params, Seq::empty()),
head:
    proof { assert(last_n(Seq::<Fl>::empty(), params.period as int) =~= Seq::empty()); }
@*/
/*@fn juno/src/strategies/four_week_rule.rs FourWeekRule::maturity
ret: r
spec:
    ensures forall|p: FourWeekRuleParams, h: CH| #[trigger] self.inv(p, h) ==> r == p.mat(),
@*/
/*@fn juno/src/strategies/four_week_rule.rs FourWeekRule::mature
ret: r
spec:
    ensures r == (self.t >= self.t1), forall|p: FourWeekRuleParams, h: CH| #[trigger] self.inv(p, h) ==> r == (h.len() >= p.mat()),
@*/
/*@fn juno/src/strategies/four_week_rule.rs FourWeekRule::update
spec:
    requires exists|p: FourWeekRuleParams, h: CH| #[trigger] old(self).inv(p, h),
    ensures forall|p: FourWeekRuleParams, h: CH| #[trigger] old(self).inv(p, h) ==> final(self).inv(p, c_upd(h, *candle)),
head:
    proof { assert forall|p: FourWeekRuleParams, h: CH| #[trigger] self.inv(p, h) implies last_step(closes(h), candle.close, p.period as int) && (h.len() >= p.period ==> last_n(closes(h), p.period as int) == tail_n(closes(h), p.period as int)) by { lemma_last_n_push(closes(h), candle.close, p.period as int); if h.len() == p.period { assert(last_n(closes(h), p.period as int) =~= tail_n(closes(h), p.period as int)); } } }
@*/
/*@fn juno_derive/src/macros/derive_signal.rs#FourWeekRule FourWeekRule::advice
ret: r
spec:
    ensures forall|p: FourWeekRuleParams, h: CH| #[trigger] self.inv(p, h) ==> r == p.adv(h),
@*/
}
// ---- oscillators ----
/*@struct juno/src/strategies/rsi.rs RsiParams
attr:
    #[derive(Clone, Copy)]
@*/
/*@struct juno/src/strategies/rsi.rs Rsi
@*/
impl RsiParams {
    pub open spec fn ok(self) -> bool { self.period > 0 && self.period + 2 < u32::MAX }
    pub open spec fn mat(self) -> int { self.period + 1 }
    pub open spec fn val(self, h: CH) -> real { rsi_of(closes(h), self.period as int) }
    pub open spec fn hot(self, h: CH) -> bool { h.len() >= self.mat() && self.val(h) >= self.up_threshold.v() }
    pub open spec fn cold(self, h: CH) -> bool { h.len() >= self.mat() && self.val(h) < self.down_threshold.v() }
}
impl Rsi {
    pub open spec fn wf(&self) -> bool { self.indicator.wf() }
    pub open spec fn inv(&self, p: RsiParams, h: CH) -> bool {
        p.ok() && self.indicator.wf() && self.indicator.n() == p.period && self.indicator.inv(closes(h)) && self.up_threshold == p.up_threshold && self.down_threshold == p.down_threshold }
/*@fn juno/src/strategies/rsi.rs Rsi::new
ret: r
spec:
    requires params.ok(),
    ensures r.inv(*params, Seq::empty()),
@*/
/*@fn juno/src/strategies/rsi.rs Rsi::maturity
ret: r
spec:
    requires self.wf(),
    ensures forall|p: RsiParams, h: CH| #[trigger] self.inv(p, h) ==> r == p.mat(),
@*/
/*@fn juno/src/strategies/rsi.rs Rsi::mature
ret: r
spec:
    requires self.wf(),
    ensures forall|p: RsiParams, h: CH| #[trigger] self.inv(p, h) ==> r == (h.len() >= p.mat()),
@*/
/*@fn juno/src/strategies/rsi.rs Rsi::update
spec:
    requires exists|p: RsiParams, h: CH| #[trigger] old(self).inv(p, h),
    ensures final(self).wf(), forall|p: RsiParams, h: CH| #[trigger] old(self).inv(p, h) ==> final(self).inv(p, c_upd(h, *candle)),
@*/
/*@fn juno/src/strategies/rsi.rs Rsi::overbought
ret: r
spec:
    requires self.wf(),
    ensures forall|p: RsiParams, h: CH| #[trigger] self.inv(p, h) ==> r == p.hot(h),
@*/
/*@fn juno/src/strategies/rsi.rs Rsi::oversold
ret: r
spec:
    requires self.wf(),
    ensures forall|p: RsiParams, h: CH| #[trigger] self.inv(p, h) ==> r == p.cold(h),
@*/
}
/*@struct juno/src/strategies/stoch.rs StochParams
attr:
    #[derive(Clone, Copy)]
@*/
/*@struct juno/src/strategies/stoch.rs Stoch
@*/
impl StochParams {
    pub open spec fn ok(self) -> bool { self.k_period > 0 && self.k_sma_period > 0 && self.d_sma_period > 0 && self.k_period + self.k_sma_period + self.d_sma_period < u32::MAX }
    pub open spec fn mat(self) -> int { self.k_period + self.k_sma_period + self.d_sma_period - 2 }
    pub open spec fn val(self, h: CH) -> real { stoch_k(highs(h), lows(h), closes(h), self.k_period as int, self.k_sma_period as int) }
    pub open spec fn hot(self, h: CH) -> bool { h.len() >= self.mat() && self.val(h) >= self.up_threshold.v() }
    pub open spec fn cold(self, h: CH) -> bool { h.len() >= self.mat() && self.val(h) < self.down_threshold.v() }
}
impl Stoch {
    pub open spec fn wf(&self) -> bool { self.indicator.wf() }
    pub open spec fn inv(&self, p: StochParams, h: CH) -> bool {
        p.ok() && self.indicator.wf() && self.indicator.n() == p.k_period && self.indicator.m() == p.k_sma_period && self.indicator.l() == p.d_sma_period
        && self.indicator.inv(highs(h), lows(h), closes(h)) && self.up_threshold == p.up_threshold && self.down_threshold == p.down_threshold }
/*@fn juno/src/strategies/stoch.rs Stoch::new
ret: r
spec:
    requires params.ok(),
    ensures r.inv(*params, Seq::empty()),
@*/
/*@fn juno/src/strategies/stoch.rs Stoch::maturity
ret: r
spec:
    requires self.wf(),
    ensures forall|p: StochParams, h: CH| #[trigger] self.inv(p, h) ==> r == p.mat(),
@*/
/*@fn juno/src/strategies/stoch.rs Stoch::mature
ret: r
spec:
    requires self.wf(),
    ensures forall|p: StochParams, h: CH| #[trigger] self.inv(p, h) ==> r == (h.len() >= p.mat()),
@*/
/*@fn juno/src/strategies/stoch.rs Stoch::update
spec:
    requires exists|p: StochParams, h: CH| #[trigger] old(self).inv(p, h),
    ensures final(self).wf(), forall|p: StochParams, h: CH| #[trigger] old(self).inv(p, h) ==> final(self).inv(p, c_upd(h, *candle)),
@*/
/*@fn juno/src/strategies/stoch.rs Stoch::overbought
ret: r
spec:
    requires self.wf(),
    ensures forall|p: StochParams, h: CH| #[trigger] self.inv(p, h) ==> r == p.hot(h),
@*/
/*@fn juno/src/strategies/stoch.rs Stoch::oversold
ret: r
spec:
    requires self.wf(),
    ensures forall|p: StochParams, h: CH| #[trigger] self.inv(p, h) ==> r == p.cold(h),
@*/
}
// ---- a trend gated by the stochastic oscillator ----
/*@struct juno/src/strategies/double_ma_stoch.rs DoubleMAStochParams
attr:
    #[derive(Clone, Copy)]
@*/
/*@struct juno/src/strategies/double_ma_stoch.rs DoubleMAStoch
@*/
impl DoubleMAStochParams {
    pub open spec fn ok(self) -> bool { self.double_ma.ok() && self.stoch.ok() }
    pub open spec fn mat(self) -> int { imax(self.double_ma.mat(), self.stoch.mat()) }
    // out: against the trend or at the extreme reached; in (possibly right away): with the trend, from the near half
    pub open spec fn left(self, a: Advice, h: CH) -> Advice {
        let t = self.double_ma.adv(h);
        if a is Long && (t is Short || self.stoch.hot(h)) || a is Short && (t is Long || self.stoch.cold(h)) { Advice::Liquidate } else { a } }
    pub open spec fn adv(self, h: CH) -> Advice decreases h.len() {
        if h.len() == 0 { Advice::None } else {
            let a = self.adv(h.drop_last());
            let (b, t, k) = (self.left(a, h), self.double_ma.adv(h), self.stoch.val(h));
            if h.len() < self.mat() { a } else if b is Long || b is Short { b }
            else if t is Long && k < 50real { Advice::Long } else if t is Short && k >= 50real { Advice::Short } else { b } } }
}
impl DoubleMAStoch {
    pub open spec fn wf(&self) -> bool { self.double_ma.wf() && self.stoch.wf() }
    pub open spec fn inv(&self, p: DoubleMAStochParams, h: CH) -> bool {
        p.ok() && self.double_ma.inv(p.double_ma, h) && self.stoch.inv(p.stoch, h) && self.advice == p.adv(h) }
/*@fn juno/src/strategies/double_ma_stoch.rs DoubleMAStoch::new
ret: r
spec:
    requires params.ok(),
    ensures r.inv(*params, Seq::empty()),
@*/
/*@fn juno/src/strategies/double_ma_stoch.rs DoubleMAStoch::maturity
ret: r
spec:
    requires self.wf(),
    ensures forall|p: DoubleMAStochParams, h: CH| #[trigger] self.inv(p, h) ==> r == p.mat(),
@*/
/*@fn juno/src/strategies/double_ma_stoch.rs DoubleMAStoch::mature
ret: r
spec:
    requires self.wf(),
    ensures forall|p: DoubleMAStochParams, h: CH| #[trigger] self.double_ma.inv(p.double_ma, h) && #[trigger] self.stoch.inv(p.stoch, h) ==> r == (h.len() >= p.mat()),
@*/
/*@fn juno/src/strategies/double_ma_stoch.rs DoubleMAStoch::update
spec:
    requires exists|p: DoubleMAStochParams, h: CH| #[trigger] old(self).inv(p, h),
    ensures final(self).wf(), forall|p: DoubleMAStochParams, h: CH| #[trigger] old(self).inv(p, h) ==> final(self).inv(p, c_upd(h, *candle)),
@*/
/*@fn juno_derive/src/macros/derive_signal.rs#DoubleMAStoch DoubleMAStoch::advice
ret: r
spec:
    ensures forall|p: DoubleMAStochParams, h: CH| #[trigger] self.inv(p, h) ==> r == p.adv(h),
@*/
}
// ---- the signals of the combined strategies: each implementation has met the contract of the trait ----
/*@enum juno/src/strategies/mod.rs SignalParams
attr:
    #[derive(Clone, Copy)]
@*/
/*@enum juno/src/strategies/mod.rs OscillatorParams
attr:
    #[derive(Clone, Copy)]
@*/
impl SignalParams {
    pub open spec fn ok(self) -> bool { match self { SignalParams::DoubleMA(p) => p.ok(), SignalParams::DoubleMA2(p) => p.ok(), SignalParams::DoubleMAStoch(p) => p.ok(), SignalParams::FourWeekRule(p) => p.ok(), SignalParams::Macd(p) => p.ok(), SignalParams::SingleMA(p) => p.ok(), SignalParams::TripleMA(p) => p.ok() } }
    pub open spec fn mat(self) -> int { match self { SignalParams::DoubleMA(p) => p.mat(), SignalParams::DoubleMA2(p) => p.mat(), SignalParams::DoubleMAStoch(p) => p.mat(), SignalParams::FourWeekRule(p) => p.mat(), SignalParams::Macd(p) => p.mat(), SignalParams::SingleMA(p) => p.mat(), SignalParams::TripleMA(p) => p.mat() } }
    pub open spec fn adv(self, h: CH) -> Advice { match self { SignalParams::DoubleMA(p) => p.adv(h), SignalParams::DoubleMA2(p) => p.adv(h), SignalParams::DoubleMAStoch(p) => p.adv(h), SignalParams::FourWeekRule(p) => p.adv(h), SignalParams::Macd(p) => p.adv(h), SignalParams::SingleMA(p) => p.adv(h), SignalParams::TripleMA(p) => p.adv(h) } }
    pub open spec fn fits(self, h: CH) -> bool { match self { SignalParams::DoubleMA2(p) => p.fits(h), _ => true } }
/*@fn juno/src/strategies/mod.rs SignalParams::construct
ret: r
subst: Box::new => sig_box
spec:
    requires self.ok(),
    ensures r.inv(*self, Seq::empty()), r.wf(),
@*/
}
pub enum DynSig { DoubleMA(DoubleMA), DoubleMA2(DoubleMA2), DoubleMAStoch(DoubleMAStoch), FourWeekRule(FourWeekRule), Macd(Macd), SingleMA(SingleMA), TripleMA(TripleMA) }
pub trait ImpSig: Sized { spec fn as_dyn(self) -> DynSig; fn boxed(self) -> (r: DynSig) ensures r == self.as_dyn(); }
impl ImpSig for DoubleMA { open spec fn as_dyn(self) -> DynSig { DynSig::DoubleMA(self) } fn boxed(self) -> (r: DynSig) { DynSig::DoubleMA(self) } }
impl ImpSig for DoubleMA2 { open spec fn as_dyn(self) -> DynSig { DynSig::DoubleMA2(self) } fn boxed(self) -> (r: DynSig) { DynSig::DoubleMA2(self) } }
impl ImpSig for DoubleMAStoch { open spec fn as_dyn(self) -> DynSig { DynSig::DoubleMAStoch(self) } fn boxed(self) -> (r: DynSig) { DynSig::DoubleMAStoch(self) } }
impl ImpSig for FourWeekRule { open spec fn as_dyn(self) -> DynSig { DynSig::FourWeekRule(self) } fn boxed(self) -> (r: DynSig) { DynSig::FourWeekRule(self) } }
impl ImpSig for Macd { open spec fn as_dyn(self) -> DynSig { DynSig::Macd(self) } fn boxed(self) -> (r: DynSig) { DynSig::Macd(self) } }
impl ImpSig for SingleMA { open spec fn as_dyn(self) -> DynSig { DynSig::SingleMA(self) } fn boxed(self) -> (r: DynSig) { DynSig::SingleMA(self) } }
impl ImpSig for TripleMA { open spec fn as_dyn(self) -> DynSig { DynSig::TripleMA(self) } fn boxed(self) -> (r: DynSig) { DynSig::TripleMA(self) } }
pub fn sig_box<T: ImpSig>(t: T) -> (r: DynSig) ensures r == t.as_dyn() { t.boxed() }
impl DynSig {
    pub open spec fn inv(self, p: SignalParams, h: CH) -> bool { match (self, p) { (DynSig::DoubleMA(x), SignalParams::DoubleMA(p)) => x.inv(p, h), (DynSig::DoubleMA2(x), SignalParams::DoubleMA2(p)) => x.inv(p, h), (DynSig::DoubleMAStoch(x), SignalParams::DoubleMAStoch(p)) => x.inv(p, h), (DynSig::FourWeekRule(x), SignalParams::FourWeekRule(p)) => x.inv(p, h), (DynSig::Macd(x), SignalParams::Macd(p)) => x.inv(p, h), (DynSig::SingleMA(x), SignalParams::SingleMA(p)) => x.inv(p, h), (DynSig::TripleMA(x), SignalParams::TripleMA(p)) => x.inv(p, h), _ => false } }
    pub open spec fn wf(self) -> bool { match self { DynSig::DoubleMA(x) => x.wf(), DynSig::DoubleMA2(x) => x.wf(), DynSig::DoubleMAStoch(x) => x.wf(), DynSig::FourWeekRule(x) => true, DynSig::Macd(x) => x.wf(), DynSig::SingleMA(x) => true, DynSig::TripleMA(x) => x.wf() } }
    pub fn maturity(&self) -> (r: u32)
        requires self.wf(), exists|p: SignalParams, h: CH| #[trigger] self.inv(p, h),
        ensures forall|p: SignalParams, h: CH| #[trigger] self.inv(p, h) ==> r == p.mat()
    { match self { DynSig::DoubleMA(x) => x.maturity(), DynSig::DoubleMA2(x) => x.maturity(), DynSig::DoubleMAStoch(x) => x.maturity(), DynSig::FourWeekRule(x) => x.maturity(), DynSig::Macd(x) => x.maturity(), DynSig::SingleMA(x) => x.maturity(), DynSig::TripleMA(x) => x.maturity() } }
    pub fn mature(&self) -> (r: bool)
        requires self.wf(),
        ensures forall|p: SignalParams, h: CH| #[trigger] self.inv(p, h) ==> r == (h.len() >= p.mat())
    { match self { DynSig::DoubleMA(x) => x.mature(), DynSig::DoubleMA2(x) => x.mature(), DynSig::DoubleMAStoch(x) => x.mature(), DynSig::FourWeekRule(x) => x.mature(), DynSig::Macd(x) => x.mature(), DynSig::SingleMA(x) => x.mature(), DynSig::TripleMA(x) => x.mature() } }
    pub fn update(&mut self, candle: &Candle)
        requires old(self).wf(), exists|p: SignalParams, h: CH| #[trigger] old(self).inv(p, h) && p.fits(c_upd(h, *candle)),
        ensures final(self).wf(), forall|p: SignalParams, h: CH| #[trigger] old(self).inv(p, h) && p.fits(c_upd(h, *candle)) ==> final(self).inv(p, c_upd(h, *candle))
    {
        hide(DoubleMA::inv); hide(DoubleMA2::inv); hide(DoubleMAStoch::inv); hide(FourWeekRule::inv); hide(Macd::inv); hide(SingleMA::inv); hide(TripleMA::inv); hide(DoubleMA::wf); hide(DoubleMA2::wf); hide(DoubleMAStoch::wf); hide(Macd::wf); hide(TripleMA::wf); hide(DoubleMA2Params::fits);
        let ghost s0 = *self;
        proof {
            let (p, h) = choose|p: SignalParams, h: CH| #[trigger] self.inv(p, h) && p.fits(c_upd(h, *candle));
            match (s0, p) { (DynSig::DoubleMA(x), SignalParams::DoubleMA(q)) => { assert(x.inv(q, h)); }, (DynSig::DoubleMA2(x), SignalParams::DoubleMA2(q)) => { assert(x.inv(q, h)); }, (DynSig::DoubleMAStoch(x), SignalParams::DoubleMAStoch(q)) => { assert(x.inv(q, h)); }, (DynSig::FourWeekRule(x), SignalParams::FourWeekRule(q)) => { assert(x.inv(q, h)); }, (DynSig::Macd(x), SignalParams::Macd(q)) => { assert(x.inv(q, h)); }, (DynSig::SingleMA(x), SignalParams::SingleMA(q)) => { assert(x.inv(q, h)); }, (DynSig::TripleMA(x), SignalParams::TripleMA(q)) => { assert(x.inv(q, h)); }, _ => {} }
        }
        match self { DynSig::DoubleMA(x) => x.update(candle), DynSig::DoubleMA2(x) => x.update(candle), DynSig::DoubleMAStoch(x) => x.update(candle), DynSig::FourWeekRule(x) => x.update(candle), DynSig::Macd(x) => x.update(candle), DynSig::SingleMA(x) => x.update(candle), DynSig::TripleMA(x) => x.update(candle) } }
    pub fn advice(&self) -> (r: Advice)
        ensures forall|p: SignalParams, h: CH| #[trigger] self.inv(p, h) ==> r == p.adv(h)
    { match self { DynSig::DoubleMA(x) => x.advice(), DynSig::DoubleMA2(x) => x.advice(), DynSig::DoubleMAStoch(x) => x.advice(), DynSig::FourWeekRule(x) => x.advice(), DynSig::Macd(x) => x.advice(), DynSig::SingleMA(x) => x.advice(), DynSig::TripleMA(x) => x.advice() } }
}
impl OscillatorParams {
    pub open spec fn ok(self) -> bool { match self { OscillatorParams::Rsi(p) => p.ok(), OscillatorParams::Stoch(p) => p.ok() } }
    pub open spec fn mat(self) -> int { match self { OscillatorParams::Rsi(p) => p.mat(), OscillatorParams::Stoch(p) => p.mat() } }
    pub open spec fn hot(self, h: CH) -> bool { match self { OscillatorParams::Rsi(p) => p.hot(h), OscillatorParams::Stoch(p) => p.hot(h) } }
    pub open spec fn cold(self, h: CH) -> bool { match self { OscillatorParams::Rsi(p) => p.cold(h), OscillatorParams::Stoch(p) => p.cold(h) } }
/*@fn juno/src/strategies/mod.rs OscillatorParams::construct
ret: r
subst: Box::new => osc_box
spec:
    requires self.ok(),
    ensures r.inv(*self, Seq::empty()), r.wf(),
@*/
}
pub enum DynOsc { Rsi(Rsi), Stoch(Stoch) }
pub trait ImpOsc: Sized { spec fn as_dyn(self) -> DynOsc; fn boxed(self) -> (r: DynOsc) ensures r == self.as_dyn(); }
impl ImpOsc for Rsi { open spec fn as_dyn(self) -> DynOsc { DynOsc::Rsi(self) } fn boxed(self) -> (r: DynOsc) { DynOsc::Rsi(self) } }
impl ImpOsc for Stoch { open spec fn as_dyn(self) -> DynOsc { DynOsc::Stoch(self) } fn boxed(self) -> (r: DynOsc) { DynOsc::Stoch(self) } }
pub fn osc_box<T: ImpOsc>(t: T) -> (r: DynOsc) ensures r == t.as_dyn() { t.boxed() }
impl DynOsc {
    pub open spec fn inv(self, p: OscillatorParams, h: CH) -> bool { match (self, p) { (DynOsc::Rsi(x), OscillatorParams::Rsi(p)) => x.inv(p, h), (DynOsc::Stoch(x), OscillatorParams::Stoch(p)) => x.inv(p, h), _ => false } }
    pub open spec fn wf(self) -> bool { match self { DynOsc::Rsi(x) => x.wf(), DynOsc::Stoch(x) => x.wf() } }
    pub fn maturity(&self) -> (r: u32)
        requires self.wf(), ensures forall|p: OscillatorParams, h: CH| #[trigger] self.inv(p, h) ==> r == p.mat()
    { match self { DynOsc::Rsi(x) => x.maturity(), DynOsc::Stoch(x) => x.maturity() } }
    pub fn mature(&self) -> (r: bool)
        requires self.wf(), ensures forall|p: OscillatorParams, h: CH| #[trigger] self.inv(p, h) ==> r == (h.len() >= p.mat())
    { match self { DynOsc::Rsi(x) => x.mature(), DynOsc::Stoch(x) => x.mature() } }
    pub fn update(&mut self, candle: &Candle)
        requires old(self).wf(), exists|p: OscillatorParams, h: CH| #[trigger] old(self).inv(p, h),
        ensures final(self).wf(), forall|p: OscillatorParams, h: CH| #[trigger] old(self).inv(p, h) ==> final(self).inv(p, c_upd(h, *candle))
    {
        let ghost s0 = *self;
        proof {
            let (p, h) = choose|p: OscillatorParams, h: CH| #[trigger] self.inv(p, h);
            match (s0, p) { (DynOsc::Rsi(x), OscillatorParams::Rsi(q)) => { assert(x.inv(q, h)); }, (DynOsc::Stoch(x), OscillatorParams::Stoch(q)) => { assert(x.inv(q, h)); }, _ => {} }
        }
        match self { DynOsc::Rsi(x) => x.update(candle), DynOsc::Stoch(x) => x.update(candle) } }
    pub fn overbought(&self) -> (r: bool)
        requires self.wf(), ensures forall|p: OscillatorParams, h: CH| #[trigger] self.inv(p, h) ==> r == p.hot(h)
    { match self { DynOsc::Rsi(x) => x.overbought(), DynOsc::Stoch(x) => x.overbought() } }
    pub fn oversold(&self) -> (r: bool)
        requires self.wf(), ensures forall|p: OscillatorParams, h: CH| #[trigger] self.inv(p, h) ==> r == p.cold(h)
    { match self { DynOsc::Rsi(x) => x.oversold(), DynOsc::Stoch(x) => x.oversold() } }
}
// ---- filtered signals ----
/*@struct juno/src/strategies/sig.rs SigParams
attr:
    #[derive(Clone, Copy)]
@*/
/*@struct juno/src/strategies/sig.rs Sig
@*/
/*@struct juno/src/strategies/sig_osc.rs SigOscParams
attr:
    #[derive(Clone, Copy)]
@*/
/*@struct juno/src/strategies/sig_osc.rs SigOsc
@*/
impl<'a> Cow<'a> { pub fn as_ref(&self) -> (r: &Candle) ensures *r == self.val() { match self { Cow::Borrowed(c) => c, Cow::Owned(c) => c } } }
// both filters have to let an advice through; where they disagree, out
pub open spec fn both(a: Advice, b: Advice) -> Advice { if a is None || b is None { Advice::None } else if a == b { a } else { Advice::Liquidate } }
pub open spec fn mt_mat(p: MidTrendPolicy) -> int { if p is Current { 1 } else { 2 } }
pub open spec fn wait(p: MidTrendPolicy, level: u32) -> int { imax(mt_mat(p), level + 1) - 1 }
// what the filters make of the raw advices r
pub open spec fn filtered(r: AH, p: MidTrendPolicy, level: u32) -> Advice {
    if r.len() == 0 { Advice::None } else {
        both(if p is Ignore && all_same(r) { Advice::None } else { r.last() }, if ran(r, level as int) { r.last() } else { Advice::None }) } }
// a strategy and the candle interval it runs on
pub struct SigCfg { pub p: SigParams, pub iv: Interval }
impl SigCfg {
    pub open spec fn buffers(self) -> bool { self.p.buffer_interval is Some && (self.p.buffer_interval->0).0 != self.iv.0 }
    pub open spec fn k(self) -> Cfg { Cfg { iv: self.iv, bv: self.p.buffer_interval->0 } }
    pub open spec fn ok(self) -> bool { self.p.sig.ok() && self.iv.0 > 0 && (self.p.buffer_interval is Some ==> self.iv.0 <= (self.p.buffer_interval->0).0)
        && self.p.sig.mat() + self.p.persistence + 2 < u32::MAX && self.p.sig.mat() > 0 }
    pub open spec fn mat(self) -> int { self.p.sig.mat() + wait(self.p.mid_trend_policy, self.p.persistence) }
    // the candles the signal sees: all of them, or the buffered ones
    pub open spec fn seen(self, h: CH) -> CH decreases h.len() {
        if h.len() == 0 { Seq::empty() } else {
            let g = h.drop_last();
            if !self.buffers() { c_upd(self.seen(g), h.last()) }
            else { match emitted(g, h.last(), self.k()) { None => self.seen(g), Some(x) => c_upd(self.seen(g), x) } } } }
    // the raw advices over the candles seen
    pub open spec fn raws(self, e: CH) -> AH decreases e.len() {
        if e.len() == 0 { Seq::empty() } else if e.len() < self.p.sig.mat() { self.raws(e.drop_last()) } else { a_upd(self.raws(e.drop_last()), self.p.sig.adv(e)) } }
    pub open spec fn fits(self, h: CH, c: Candle) -> bool { (self.buffers() ==> extends(h, c, self.k())) && self.p.sig.fits(self.seen(c_upd(h, c))) }
    pub open spec fn adv(self, h: CH) -> Advice { filtered(self.raws(self.seen(h)), self.p.mid_trend_policy, self.p.persistence) }
}
impl Sig {
    pub open spec fn inv(&self, s: SigCfg, h: CH) -> bool {
        let (e, b) = (s.seen(h), self.buffered_candle);
        &&& s.ok() && b.inv(h) && b.enabled == s.buffers() && b.cfg().iv == s.iv && (s.buffers() ==> b.cfg().bv == s.k().bv)
        &&& self.sig.wf() && self.sig.inv(s.p.sig, e)
        &&& self.mid_trend.policy == s.p.mid_trend_policy && self.mid_trend.inv(s.raws(e))
        &&& self.persistence.wf() && self.persistence.cfg() == (s.p.persistence, false) && self.persistence.inv(s.raws(e))
        &&& self.t1 == s.mat() && self.t == lmin(e.len() as int, s.mat())
        &&& self.advice == s.adv(h) }
/*@fn juno/src/strategies/sig.rs Sig::new
ret: r
spec:
    requires (SigCfg { p: *params, iv: meta.interval }).ok(),
    ensures r.inv(SigCfg { p: *params, iv: meta.interval }, Seq::empty()),
@*/
/*@fn juno/src/strategies/sig.rs Sig::maturity
ret: r
spec:
    ensures forall|s: SigCfg, h: CH| #[trigger] self.inv(s, h) ==> r == s.mat(),
@*/
/*@fn juno/src/strategies/sig.rs Sig::mature
ret: r
spec:
    ensures forall|s: SigCfg, h: CH| #[trigger] self.inv(s, h) ==> r == (s.seen(h).len() >= s.mat()),
@*/
/*@fn juno/src/strategies/sig.rs Sig::update
spec:
    requires exists|s: SigCfg, h: CH| #[trigger] old(self).inv(s, h) && s.fits(h, *candle),
    ensures forall|s: SigCfg, h: CH| #[trigger] old(self).inv(s, h) && s.fits(h, *candle) ==> final(self).inv(s, c_upd(h, *candle)),
head:
    hide(emitted); hide(extends); hide(pending); hide(all_same); hide(ran); hide(streak); hide(last_passed); hide(SignalParams::fits); hide(SignalParams::adv); hide(SignalParams::ok); hide(SignalParams::mat); hide(DynSig::inv); hide(DynSig::wf); hide(MidTrend::inv); hide(Persistence::inv);
@*/
/*@fn juno_derive/src/macros/derive_signal.rs#Sig Sig::advice
ret: r
spec:
    ensures forall|s: SigCfg, h: CH| #[trigger] self.inv(s, h) ==> r == s.adv(h),
@*/
}
impl SigOscParams {
    pub open spec fn ok(self) -> bool { self.sig.ok() && self.osc.ok() && self.ripe() + self.persistence + 2 < u32::MAX && self.ripe() > 0 }
    pub open spec fn ripe(self) -> int { imax(self.sig.mat(), self.osc.mat()) }
    pub open spec fn mat(self) -> int { self.ripe() + wait(self.mid_trend_policy, self.persistence) }
    // enforce: only in at the right extreme; prevent: never in at the wrong one. Otherwise out, never reversed.
    pub open spec fn gated(self, a: Advice, h: CH) -> Advice {
        let keep = match (self.osc_filter, a) {
            (OscFilter::Enforce, Advice::Long) => self.osc.cold(h), (OscFilter::Enforce, Advice::Short) => self.osc.hot(h),
            (OscFilter::Prevent, Advice::Long) => !self.osc.hot(h), (OscFilter::Prevent, Advice::Short) => !self.osc.cold(h), _ => true };
        if keep { a } else { Advice::Liquidate } }
    pub open spec fn raws(self, h: CH) -> AH decreases h.len() {
        if h.len() == 0 { Seq::empty() } else if h.len() < self.ripe() { self.raws(h.drop_last()) } else { a_upd(self.raws(h.drop_last()), self.gated(self.sig.adv(h), h)) } }
    pub open spec fn fits(self, h: CH) -> bool { self.sig.fits(h) }
    pub open spec fn adv(self, h: CH) -> Advice { filtered(self.raws(h), self.mid_trend_policy, self.persistence) }
}
impl SigOsc {
    pub open spec fn inv(&self, p: SigOscParams, h: CH) -> bool {
        &&& p.ok() && self.sig.wf() && self.sig.inv(p.sig, h) && self.osc.wf() && self.osc.inv(p.osc, h) && self.osc_filter == p.osc_filter
        &&& self.mid_trend.policy == p.mid_trend_policy && self.mid_trend.inv(p.raws(h))
        &&& self.persistence.wf() && self.persistence.cfg() == (p.persistence, false) && self.persistence.inv(p.raws(h))
        &&& self.t1 == p.mat() && self.t == lmin(h.len() as int, p.mat())
        &&& self.advice == p.adv(h) }
/*@fn juno/src/strategies/sig_osc.rs SigOsc::new
ret: r
spec:
    requires params.ok(),
    ensures r.inv(*params, Seq::empty()),
@*/
/*@fn juno/src/strategies/sig_osc.rs SigOsc::maturity
ret: r
spec:
    ensures forall|p: SigOscParams, h: CH| #[trigger] self.inv(p, h) ==> r == p.mat(),
@*/
/*@fn juno/src/strategies/sig_osc.rs SigOsc::mature
ret: r
spec:
    ensures forall|p: SigOscParams, h: CH| #[trigger] self.inv(p, h) ==> r == (h.len() >= p.mat()),
@*/
/*@fn juno/src/strategies/sig_osc.rs SigOsc::filter
ret: r
spec:
    requires self.osc.wf(),
    ensures forall|p: SigOscParams, h: CH| #[trigger] self.osc.inv(p.osc, h) && p.osc_filter == self.osc_filter ==> r == p.gated(advice, h),
@*/
/*@fn juno/src/strategies/sig_osc.rs SigOsc::filter_enforce
ret: r
spec:
    requires self.osc.wf(),
    ensures forall|p: SigOscParams, h: CH| #[trigger] self.osc.inv(p.osc, h) && p.osc_filter == self.osc_filter && p.osc_filter is Enforce ==> r == p.gated(advice, h),
@*/
/*@fn juno/src/strategies/sig_osc.rs SigOsc::filter_prevent
ret: r
spec:
    requires self.osc.wf(),
    ensures forall|p: SigOscParams, h: CH| #[trigger] self.osc.inv(p.osc, h) && p.osc_filter == self.osc_filter && p.osc_filter is Prevent ==> r == p.gated(advice, h),
@*/
/*@fn juno/src/strategies/sig_osc.rs SigOsc::update
spec:
    requires exists|p: SigOscParams, h: CH| #[trigger] old(self).inv(p, h) && p.fits(c_upd(h, *candle)),
    ensures forall|p: SigOscParams, h: CH| #[trigger] old(self).inv(p, h) && p.fits(c_upd(h, *candle)) ==> final(self).inv(p, c_upd(h, *candle)),
head:
    hide(all_same); hide(ran); hide(streak); hide(last_passed);
@*/
/*@fn juno_derive/src/macros/derive_signal.rs#SigOsc SigOsc::advice
ret: r
spec:
    ensures forall|p: SigOscParams, h: CH| #[trigger] self.inv(p, h) ==> r == p.adv(h),
@*/
}
// ---- construct: every configured strategy becomes its own implementation ----
/*@enum juno/src/strategies/mod.rs StrategyParams
attr:
    #[derive(Clone, Copy)]
@*/
pub enum DynStrategy { DoubleMA(DoubleMA), DoubleMA2(DoubleMA2), DoubleMAStoch(DoubleMAStoch), FourWeekRule(FourWeekRule), Macd(Macd), SingleMA(SingleMA), TripleMA(TripleMA), SigOsc(SigOsc), Sig(Sig) }
pub trait ImpStrategy: Sized { spec fn as_dyn(self) -> DynStrategy; fn boxed(self) -> (r: DynStrategy) ensures r == self.as_dyn(); }
impl ImpStrategy for DoubleMA { open spec fn as_dyn(self) -> DynStrategy { DynStrategy::DoubleMA(self) } fn boxed(self) -> (r: DynStrategy) { DynStrategy::DoubleMA(self) } }
impl ImpStrategy for DoubleMA2 { open spec fn as_dyn(self) -> DynStrategy { DynStrategy::DoubleMA2(self) } fn boxed(self) -> (r: DynStrategy) { DynStrategy::DoubleMA2(self) } }
impl ImpStrategy for DoubleMAStoch { open spec fn as_dyn(self) -> DynStrategy { DynStrategy::DoubleMAStoch(self) } fn boxed(self) -> (r: DynStrategy) { DynStrategy::DoubleMAStoch(self) } }
impl ImpStrategy for FourWeekRule { open spec fn as_dyn(self) -> DynStrategy { DynStrategy::FourWeekRule(self) } fn boxed(self) -> (r: DynStrategy) { DynStrategy::FourWeekRule(self) } }
impl ImpStrategy for Macd { open spec fn as_dyn(self) -> DynStrategy { DynStrategy::Macd(self) } fn boxed(self) -> (r: DynStrategy) { DynStrategy::Macd(self) } }
impl ImpStrategy for SingleMA { open spec fn as_dyn(self) -> DynStrategy { DynStrategy::SingleMA(self) } fn boxed(self) -> (r: DynStrategy) { DynStrategy::SingleMA(self) } }
impl ImpStrategy for TripleMA { open spec fn as_dyn(self) -> DynStrategy { DynStrategy::TripleMA(self) } fn boxed(self) -> (r: DynStrategy) { DynStrategy::TripleMA(self) } }
impl ImpStrategy for SigOsc { open spec fn as_dyn(self) -> DynStrategy { DynStrategy::SigOsc(self) } fn boxed(self) -> (r: DynStrategy) { DynStrategy::SigOsc(self) } }
impl ImpStrategy for Sig { open spec fn as_dyn(self) -> DynStrategy { DynStrategy::Sig(self) } fn boxed(self) -> (r: DynStrategy) { DynStrategy::Sig(self) } }
pub fn strategy_box<T: ImpStrategy>(t: T) -> (r: DynStrategy) ensures r == t.as_dyn() { t.boxed() }
impl DynStrategy {
    pub open spec fn inv(self, p: StrategyParams, iv: Interval, h: CH) -> bool { match (self, p) { (DynStrategy::DoubleMA(x), StrategyParams::DoubleMA(p)) => x.inv(p, h), (DynStrategy::DoubleMA2(x), StrategyParams::DoubleMA2(p)) => x.inv(p, h), (DynStrategy::DoubleMAStoch(x), StrategyParams::DoubleMAStoch(p)) => x.inv(p, h), (DynStrategy::FourWeekRule(x), StrategyParams::FourWeekRule(p)) => x.inv(p, h), (DynStrategy::Macd(x), StrategyParams::Macd(p)) => x.inv(p, h), (DynStrategy::SingleMA(x), StrategyParams::SingleMA(p)) => x.inv(p, h), (DynStrategy::TripleMA(x), StrategyParams::TripleMA(p)) => x.inv(p, h), (DynStrategy::SigOsc(x), StrategyParams::SigOsc(p)) => x.inv(p, h), (DynStrategy::Sig(x), StrategyParams::Sig(p)) => x.inv(SigCfg { p, iv }, h), _ => false } }
}
impl StrategyParams {
    pub open spec fn ok(self, iv: Interval) -> bool { match self { StrategyParams::DoubleMA(p) => p.ok(), StrategyParams::DoubleMA2(p) => p.ok(), StrategyParams::DoubleMAStoch(p) => p.ok(), StrategyParams::FourWeekRule(p) => p.ok(), StrategyParams::Macd(p) => p.ok(), StrategyParams::SingleMA(p) => p.ok(), StrategyParams::TripleMA(p) => p.ok(), StrategyParams::SigOsc(p) => p.ok(), StrategyParams::Sig(p) => (SigCfg { p, iv }).ok() } }
/*@fn juno/src/strategies/mod.rs StrategyParams::construct
ret: r
subst: Box::new => strategy_box
tysubst: Box<dyn Signal> => DynStrategy
spec:
    requires self.ok(meta.interval),
    ensures r.inv(*self, meta.interval, Seq::empty()),
@*/
}
// ---- no advice before the indicators are mature ----
pub proof fn lemma_quiet_singlema(p: SingleMAParams, h: CH) requires h.len() < p.mat() ensures p.adv(h) is None decreases h.len() { if h.len() > 0 { lemma_quiet_singlema(p, h.drop_last()); } }
pub proof fn lemma_quiet_doublema(p: DoubleMAParams, h: CH) requires h.len() < p.mat() ensures p.adv(h) is None decreases h.len() { if h.len() > 0 { lemma_quiet_doublema(p, h.drop_last()); } }
pub proof fn lemma_quiet_doublema2(p: DoubleMA2Params, h: CH) requires h.len() < p.mat() ensures p.adv(h) is None decreases h.len() { if h.len() > 0 { lemma_quiet_doublema2(p, h.drop_last()); } }
pub proof fn lemma_quiet_triplema(p: TripleMAParams, h: CH) requires h.len() < p.mat() ensures p.adv(h) is None decreases h.len() { if h.len() > 0 { lemma_quiet_triplema(p, h.drop_last()); } }
pub proof fn lemma_quiet_fourweekrule(p: FourWeekRuleParams, h: CH) requires h.len() < p.mat() ensures p.adv(h) is None decreases h.len() { if h.len() > 0 { lemma_quiet_fourweekrule(p, h.drop_last()); } }
pub proof fn lemma_quiet_doublemastoch(p: DoubleMAStochParams, h: CH) requires h.len() < p.mat() ensures p.adv(h) is None decreases h.len() { if h.len() > 0 { lemma_quiet_doublemastoch(p, h.drop_last()); } }
pub proof fn lemma_quiet_macd(p: MacdParams, h: CH) requires h.len() < p.mat() ensures p.adv(h) is None { }
pub proof fn lemma_quiet_signal(p: SignalParams, h: CH) requires h.len() < p.mat() ensures p.adv(h) is None
{ match p { SignalParams::DoubleMA(p) => { lemma_quiet_doublema(p, h); } SignalParams::DoubleMA2(p) => { lemma_quiet_doublema2(p, h); } SignalParams::DoubleMAStoch(p) => { lemma_quiet_doublemastoch(p, h); } SignalParams::FourWeekRule(p) => { lemma_quiet_fourweekrule(p, h); } SignalParams::Macd(p) => { lemma_quiet_macd(p, h); } SignalParams::SingleMA(p) => { lemma_quiet_singlema(p, h); } SignalParams::TripleMA(p) => { lemma_quiet_triplema(p, h); } } }
pub proof fn lemma_quiet_sig(s: SigCfg, h: CH) requires s.seen(h).len() < s.p.sig.mat() ensures s.adv(h) is None
{ lemma_raws_sig(s, s.seen(h)); }
proof fn lemma_raws_sig(s: SigCfg, e: CH) requires e.len() < s.p.sig.mat() ensures s.raws(e).len() == 0 decreases e.len() { if e.len() > 0 { lemma_raws_sig(s, e.drop_last()); } }
pub proof fn lemma_quiet_sig_osc(p: SigOscParams, h: CH) requires h.len() < p.ripe() ensures p.adv(h) is None
{ lemma_raws_sig_osc(p, h); }
proof fn lemma_raws_sig_osc(p: SigOscParams, h: CH) requires h.len() < p.ripe() ensures p.raws(h).len() == 0 decreases h.len() { if h.len() > 0 { lemma_raws_sig_osc(p, h.drop_last()); } }
// without a buffer a filtered signal sees every candle
pub proof fn lemma_seen_all(s: SigCfg, h: CH) requires !s.buffers() ensures s.seen(h) == h decreases h.len()
{ if h.len() > 0 { lemma_seen_all(s, h.drop_last()); assert(h.drop_last().push(h.last()) =~= h); } else { assert(h =~= Seq::empty()); } }
// filters: an advice only comes out if it is the raw one, and only after it held for the persistence level
pub proof fn lemma_filtered(r: AH, p: MidTrendPolicy, level: u32)
    ensures filtered(r, p, level) is None || filtered(r, p, level) == r.last(),
        !(filtered(r, p, level) is None) ==> r.len() > level && forall|i: int| r.len() - 1 - level <= i < r.len() ==> #[trigger] r[i] == r.last(),
        p is Ignore && !(filtered(r, p, level) is None) ==> !all_same(r),
{ lemma_streak_meaning(r, level as int); }
pub proof fn lemma_gate(p: SigOscParams, a: Advice, h: CH) ensures p.gated(a, h) == a || p.gated(a, h) is Liquidate { }
}
pub use strm::*;

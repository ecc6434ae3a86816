//@include hdr.rs
verus! {
//@subst_type Box<dyn TakeProfit> => Dyn
//@include fl.rs
//@include rt.rs
//@include iter.rs
//@include rseq.rs
//@contracts ma.rs
//@contracts osc.rs
//@include ts_min.rs
//@include candle.rs
//@include hist.rs
//@broadcast lemma_h_upd, lemma_h_op
/*@struct juno/src/take_profit/basic.rs BasicParams
attr:
    #[derive(Clone, Copy)]
@*/
/*@struct juno/src/take_profit/basic.rs Basic
attr:
    #[derive(Clone, Copy)]
@*/
impl BasicParams { pub open spec fn ok(p: BasicParams) -> bool { true } }
impl Basic {
    pub open spec fn cfg(&self) -> (real, real) { (self.up_threshold_factor.v() - 1real, 1real - self.down_threshold_factor.v()) }
    pub open spec fn of(&self, p: BasicParams) -> bool { self.cfg() == (p.up_threshold.v(), p.down_threshold.v()) }
    pub open spec fn inv(&self, h: Hist) -> bool { self.close.v() == h_close(h) && (h_opened(h) ==> self.close_at_position.v() == h_open(h)) }
    pub open spec fn long_rule(&self, h: Hist) -> bool { h_close(h) >= h_open(h) * (1real + self.cfg().0) }
    pub open spec fn short_rule(&self, h: Hist) -> bool { h_close(h) <= h_open(h) * (1real - self.cfg().1) }
}

impl Basic {
/*@fn juno/src/take_profit/basic.rs Basic::new
ret: r
spec:
    requires BasicParams::ok(*params),
    ensures r.inv(Seq::empty()), r.of(*params),
@*/
/*@fn juno/src/take_profit/basic.rs Basic::upside_hit
ret: r
spec:
    ensures forall|h: Hist| #[trigger] self.inv(h) && h_opened(h) ==> r == self.long_rule(h),
@*/
/*@fn juno/src/take_profit/basic.rs Basic::downside_hit
ret: r
spec:
    ensures forall|h: Hist| #[trigger] self.inv(h) && h_opened(h) ==> r == self.short_rule(h),
@*/
/*@fn juno/src/take_profit/basic.rs Basic::clear
spec:
    ensures forall|h: Hist| #[trigger] old(self).inv(h) ==> final(self).inv(h_op(h, *candle)),
        final(self).cfg() == old(self).cfg(),
@*/
/*@fn juno/src/take_profit/basic.rs Basic::update
spec:
    ensures forall|h: Hist| #[trigger] old(self).inv(h) ==> final(self).inv(h_upd(h, *candle)),
        final(self).cfg() == old(self).cfg(),
@*/
}
/*@struct juno/src/take_profit/legacy.rs LegacyParams
attr:
    #[derive(Clone, Copy)]
@*/
/*@struct juno/src/take_profit/legacy.rs Legacy
attr:
    #[derive(Clone, Copy)]
@*/
impl LegacyParams { pub open spec fn ok(p: LegacyParams) -> bool { true } }
impl Legacy {
    pub open spec fn cfg(&self) -> real { self.threshold.v() }
    pub open spec fn of(&self, p: LegacyParams) -> bool { self.cfg() == p.threshold.v() }
    pub open spec fn inv(&self, h: Hist) -> bool { self.close.v() == h_close(h) && (h_opened(h) ==> self.close_at_position.v() == h_open(h)) }
    pub open spec fn long_rule(&self, h: Hist) -> bool { self.threshold.v() > 0real && h_close(h) >= h_open(h) * (1real + self.threshold.v()) }
    pub open spec fn short_rule(&self, h: Hist) -> bool { self.threshold.v() > 0real && h_close(h) <= h_open(h) * (1real - self.threshold.v()) }
}

impl Legacy {
/*@fn juno/src/take_profit/legacy.rs Legacy::new
ret: r
spec:
    requires LegacyParams::ok(*params),
    ensures r.inv(Seq::empty()), r.of(*params),
@*/
/*@fn juno/src/take_profit/legacy.rs Legacy::upside_hit
ret: r
spec:
    ensures forall|h: Hist| #[trigger] self.inv(h) && h_opened(h) ==> r == self.long_rule(h),
@*/
/*@fn juno/src/take_profit/legacy.rs Legacy::downside_hit
ret: r
spec:
    ensures forall|h: Hist| #[trigger] self.inv(h) && h_opened(h) ==> r == self.short_rule(h),
@*/
/*@fn juno/src/take_profit/legacy.rs Legacy::clear
spec:
    ensures forall|h: Hist| #[trigger] old(self).inv(h) ==> final(self).inv(h_op(h, *candle)),
        final(self).cfg() == old(self).cfg(),
@*/
/*@fn juno/src/take_profit/legacy.rs Legacy::update
spec:
    ensures forall|h: Hist| #[trigger] old(self).inv(h) ==> final(self).inv(h_upd(h, *candle)),
        final(self).cfg() == old(self).cfg(),
@*/
}
/*@struct juno/src/take_profit/noop.rs NoopParams
@*/
/*@struct juno/src/take_profit/noop.rs Noop
@*/
impl NoopParams { pub open spec fn ok(p: NoopParams) -> bool { true } }
impl Noop {
    pub open spec fn cfg(&self) -> int { 0 }
    pub open spec fn of(&self, p: NoopParams) -> bool { true }
    pub open spec fn inv(&self, h: Hist) -> bool { true }
    pub open spec fn long_rule(&self, h: Hist) -> bool { false }
    pub open spec fn short_rule(&self, h: Hist) -> bool { false }
}

impl Noop {
/*@fn juno/src/take_profit/noop.rs Noop::new
ret: r
spec:
    requires NoopParams::ok(*_params),
    ensures r.inv(Seq::empty()), r.of(*_params),
@*/
/*@fn juno/src/take_profit/noop.rs Noop::upside_hit
default: juno/src/take_profit/mod.rs TakeProfit::upside_hit
ret: r
spec:
    ensures forall|h: Hist| #[trigger] self.inv(h) && h_opened(h) ==> r == self.long_rule(h),
@*/
/*@fn juno/src/take_profit/noop.rs Noop::downside_hit
default: juno/src/take_profit/mod.rs TakeProfit::downside_hit
ret: r
spec:
    ensures forall|h: Hist| #[trigger] self.inv(h) && h_opened(h) ==> r == self.short_rule(h),
@*/
/*@fn juno/src/take_profit/noop.rs Noop::clear
default: juno/src/take_profit/mod.rs TakeProfit::clear
spec:
    ensures forall|h: Hist| #[trigger] old(self).inv(h) ==> final(self).inv(h_op(h, *_candle)),
        final(self).cfg() == old(self).cfg(),
@*/
/*@fn juno/src/take_profit/noop.rs Noop::update
default: juno/src/take_profit/mod.rs TakeProfit::update
spec:
    ensures forall|h: Hist| #[trigger] old(self).inv(h) ==> final(self).inv(h_upd(h, *_candle)),
        final(self).cfg() == old(self).cfg(),
@*/
}

// ---- trending: the average directional index by its contract (C12), the easing curve by its (C05e) ----
//@contracts curves.rs
pub mod am { use super::*;
// the highs and lows of the candles of a history
pub open spec fn highs(h: Hist) -> FS decreases h.len() { if h.len() == 0 { Seq::empty() } else { match h.last() { Ev::Upd(c) => p_upd(highs(h.drop_last()), c.high), Ev::Open(_) => highs(h.drop_last()) } } }
pub open spec fn lows(h: Hist) -> FS decreases h.len() { if h.len() == 0 { Seq::empty() } else { match h.last() { Ev::Upd(c) => p_upd(lows(h.drop_last()), c.low), Ev::Open(_) => lows(h.drop_last()) } } }
// the average directional index of a history (C12), 0 before there are enough candles for it
pub open spec fn adx_spec(period: u32, h: Hist) -> real { if highs(h).len() >= 2 * period - 1 { adx_of(highs(h), lows(h), period as int) } else { 0real } }
pub broadcast proof fn lemma_hl_open(h: Hist, c: Candle) ensures highs(#[trigger] h_op(h, c)) == highs(h), lows(h_op(h, c)) == lows(h) { assert(h_op(h, c).drop_last() =~= h); }
pub broadcast proof fn lemma_hl_upd(h: Hist, c: Candle) ensures highs(#[trigger] h_upd(h, c)) == p_upd(highs(h), c.high), lows(h_upd(h, c)) == p_upd(lows(h), c.low) { assert(h_upd(h, c).drop_last() =~= h); }
impl Adx { pub open spec fn is(&self, period: u32, h: Hist) -> bool { self.wf() && self.n() == period && self.inv(highs(h), lows(h)) } }
}
pub use am::*;
//@broadcast lemma_hl_open, lemma_hl_upd
/*@fn juno/src/math.rs lerp
ret: r
spec:
    ensures r.v() == t.v() * a.v() + (1real - t.v()) * b.v(),
@*/
/*@struct juno/src/take_profit/trending.rs TrendingParams
attr:
    #[derive(Clone, Copy)]
@*/
/*@struct juno/src/take_profit/trending.rs Trending
@*/
impl TrendingParams { pub open spec fn ok(p: TrendingParams) -> bool { p.period > 0 && 2 * p.period + 1 < u32::MAX } }
pub struct TCfg { pub up: (real, real), pub down: (real, real), pub easing: Easing, pub lock: bool }
// weight of the first bound after history h
pub open spec fn weight(e: Easing, period: u32, h: Hist) -> real { ease(adx_spec(period, h) / 100real, e) }
pub open spec fn mix(b: (real, real), w: real) -> real { w * b.0 + (1real - w) * b.1 }
pub mod em { use super::*;
// the history at which the fraction in force was evaluated: the latest opening if locked, else the latest candle
pub open spec fn at_eval(h: Hist, lock: bool) -> Hist decreases h.len() {
    if h.len() == 0 { h } else if lock { if h.last() is Open { h } else { at_eval(h.drop_last(), lock) } }
    else { if h.last() is Upd { h } else { at_eval(h.drop_last(), lock) } } }
pub open spec fn evaluated(h: Hist, lock: bool) -> bool decreases h.len() {
    if h.len() == 0 { false } else if lock { h_opened(h) } else { h.last() is Upd || evaluated(h.drop_last(), lock) } }
pub broadcast proof fn lemma_eval_upd(h: Hist, c: Candle, lock: bool)
    ensures #[trigger] at_eval(h_upd(h, c), lock) == (if lock { at_eval(h, lock) } else { h_upd(h, c) }),
{ assert(h_upd(h, c).drop_last() =~= h); }
pub broadcast proof fn lemma_eval_op(h: Hist, c: Candle, lock: bool)
    ensures #[trigger] at_eval(h_op(h, c), lock) == (if lock { h_op(h, c) } else { at_eval(h, lock) }),
{ assert(h_op(h, c).drop_last() =~= h); }
pub broadcast proof fn lemma_evd_upd(h: Hist, c: Candle, lock: bool)
    ensures #[trigger] evaluated(h_upd(h, c), lock) == (if lock { evaluated(h, lock) } else { true }),
{ lemma_h_upd(h, c); assert(h_upd(h, c).drop_last() =~= h); }
pub broadcast proof fn lemma_evd_op(h: Hist, c: Candle, lock: bool)
    ensures #[trigger] evaluated(h_op(h, c), lock) == (if lock { true } else { evaluated(h, lock) }),
{ assert(h_op(h, c).drop_last() =~= h); }
}
pub use em::*;
//@broadcast lemma_eval_upd, lemma_eval_op, lemma_evd_upd, lemma_evd_op
impl Trending {
    pub open spec fn cfg(&self) -> TCfg { TCfg { up: (self.up_min_threshold.v(), self.up_max_threshold.v()), down: (self.down_min_threshold.v(), self.down_max_threshold.v()), easing: self.easing, lock: self.lock_threshold } }
    pub open spec fn of(&self, p: TrendingParams) -> bool {
        self.cfg() == (TCfg { up: (p.up_thresholds.0.v(), p.up_thresholds.1.v()), down: (p.down_thresholds.0.v(), p.down_thresholds.1.v()), easing: p.easing, lock: p.lock_threshold })
        && self.adx.is(p.period, Seq::empty()) }
    pub open spec fn inv(&self, h: Hist) -> bool { exists|p: u32| #[trigger] self.adx.is(p, h) && self.inv_p(h, p) }
    pub open spec fn inv_p(&self, h: Hist, p: u32) -> bool {
        let w = weight(self.easing, p, at_eval(h, self.lock_threshold));
        &&& self.close.v() == h_close(h) && (h_opened(h) ==> self.close_at_position.v() == h_open(h))
        &&& self.adx.is(p, h)
        &&& evaluated(h, self.lock_threshold) ==> self.up_threshold_factor.v() == 1real + mix(self.cfg().up, w) && self.down_threshold_factor.v() == 1real - mix(self.cfg().down, w)
    }
    // with ADX period p, once a fraction is in force
    pub open spec fn long_rule(&self, h: Hist, p: u32) -> bool { h_close(h) >= h_open(h) * (1real + mix(self.cfg().up, weight(self.easing, p, at_eval(h, self.lock_threshold)))) }
    pub open spec fn short_rule(&self, h: Hist, p: u32) -> bool { h_close(h) <= h_open(h) * (1real - mix(self.cfg().down, weight(self.easing, p, at_eval(h, self.lock_threshold)))) }
/*@fn juno/src/take_profit/trending.rs Trending::new
ret: r
spec:
    requires TrendingParams::ok(*params),
    ensures r.of(*params), r.inv_p(Seq::empty(), params.period), r.inv(Seq::empty()),
tail:
    proof { assert(res_.adx.is(params.period, Seq::empty()) && res_.inv_p(Seq::empty(), params.period)); }
@*/
/*@fn juno/src/take_profit/trending.rs Trending::set_threshold_factors
spec:
    ensures final(self).cfg() == old(self).cfg(), final(self).adx == old(self).adx, final(self).close == old(self).close, final(self).close_at_position == old(self).close_at_position,
        ({ let w = ease(old(self).adx.value.v() / 100real, old(self).easing);
           final(self).up_threshold_factor.v() == 1real + mix(old(self).cfg().up, w) && final(self).down_threshold_factor.v() == 1real - mix(old(self).cfg().down, w) }),
@*/
/*@fn juno/src/take_profit/trending.rs Trending::upside_hit
ret: r
spec:
    ensures forall|h: Hist, p: u32| #[trigger] self.inv_p(h, p) && h_opened(h) && evaluated(h, self.lock_threshold) ==> r == self.long_rule(h, p),
@*/
/*@fn juno/src/take_profit/trending.rs Trending::downside_hit
ret: r
spec:
    ensures forall|h: Hist, p: u32| #[trigger] self.inv_p(h, p) && h_opened(h) && evaluated(h, self.lock_threshold) ==> r == self.short_rule(h, p),
@*/
/*@fn juno/src/take_profit/trending.rs Trending::clear
spec:
    ensures forall|h: Hist, p: u32| #[trigger] old(self).inv_p(h, p) ==> final(self).inv_p(h_op(h, *candle), p),
        final(self).cfg() == old(self).cfg(),
@*/
/*@fn juno/src/take_profit/trending.rs Trending::update
spec:
    requires exists|h: Hist, p: u32| #[trigger] old(self).inv_p(h, p),
    ensures forall|h: Hist, p: u32| #[trigger] old(self).inv_p(h, p) ==> final(self).inv_p(h_upd(h, *candle), p),
        final(self).cfg() == old(self).cfg(),
head:
    proof { let (h, p) = choose|h: Hist, p: u32| #[trigger] self.inv_p(h, p); assert(self.adx.is(p, h)); assert(self.adx.inv(highs(h), lows(h))); }
tail:
    proof {
        assert forall|h: Hist, p: u32| #[trigger] old(self).inv_p(h, p) implies self.inv_p(h_upd(h, *candle), p) by {
            assert(old(self).adx.is(p, h));
            assert(self.adx.is(p, h_upd(h, *candle)));
            assert(at_eval(h_upd(h, *candle), self.lock_threshold) == (if self.lock_threshold { at_eval(h, self.lock_threshold) } else { h_upd(h, *candle) }));
            assert(evaluated(h_upd(h, *candle), self.lock_threshold) == (if self.lock_threshold { evaluated(h, self.lock_threshold) } else { true }));
            assert(self.close.v() == h_close(h_upd(h, *candle)));
            assert(h_opened(h_upd(h, *candle)) ==> self.close_at_position.v() == h_open(h_upd(h, *candle)));
        }
    }
@*/
}
// ---- construct: every variant becomes its own implementation (Box<dyn _> replaced by an enum of the implementations) ----
/*@enum juno/src/take_profit/mod.rs TakeProfitParams
@*/
pub enum Dyn { Basic(Basic), Legacy(Legacy), Noop(Noop), Trending(Trending) }
pub trait Imp: Sized { spec fn as_dyn(self) -> Dyn; fn boxed(self) -> (r: Dyn) ensures r == self.as_dyn(); }
impl Imp for Basic { open spec fn as_dyn(self) -> Dyn { Dyn::Basic(self) } fn boxed(self) -> (r: Dyn) { Dyn::Basic(self) } }
impl Imp for Legacy { open spec fn as_dyn(self) -> Dyn { Dyn::Legacy(self) } fn boxed(self) -> (r: Dyn) { Dyn::Legacy(self) } }
impl Imp for Noop { open spec fn as_dyn(self) -> Dyn { Dyn::Noop(self) } fn boxed(self) -> (r: Dyn) { Dyn::Noop(self) } }
impl Imp for Trending { open spec fn as_dyn(self) -> Dyn { Dyn::Trending(self) } fn boxed(self) -> (r: Dyn) { Dyn::Trending(self) } }
pub fn dyn_box<T: Imp>(t: T) -> (r: Dyn) ensures r == t.as_dyn() { t.boxed() }
impl TakeProfitParams {
    pub open spec fn ok(&self) -> bool { match *self { TakeProfitParams::Basic(p) => BasicParams::ok(p), TakeProfitParams::Legacy(p) => LegacyParams::ok(p), TakeProfitParams::Noop(p) => NoopParams::ok(p), TakeProfitParams::Trending(p) => TrendingParams::ok(p), } }
    // the right kind of object, with the configured numbers, and no history yet
    pub open spec fn built(&self, d: Dyn) -> bool { match (*self, d) {
        (TakeProfitParams::Basic(p), Dyn::Basic(x)) => x.of(p) && x.inv(Seq::empty()),
        (TakeProfitParams::Legacy(p), Dyn::Legacy(x)) => x.of(p) && x.inv(Seq::empty()),
        (TakeProfitParams::Noop(p), Dyn::Noop(x)) => x.of(p) && x.inv(Seq::empty()),
        (TakeProfitParams::Trending(p), Dyn::Trending(x)) => x.of(p) && x.inv(Seq::empty()),
        _ => false } }
/*@fn juno/src/take_profit/mod.rs TakeProfitParams::construct
ret: r
subst: Box::new => dyn_box
spec:
    requires self.ok(),
    ensures self.built(r),
@*/
}
}
fn main(){}

//@include hdr.rs
verus! {
//@subst_type Box<dyn StopLoss> => Dyn
//@include fl.rs
//@include rt.rs
//@include ts_min.rs
//@include candle.rs
//@include hist.rs
//@broadcast lemma_h_upd, lemma_h_op
/*@struct juno/src/stop_loss/basic.rs BasicParams
attr:
    #[derive(Clone, Copy)]
@*/
/*@struct juno/src/stop_loss/basic.rs Basic
attr:
    #[derive(Clone, Copy)]
@*/
/*@struct juno/src/stop_loss/trailing.rs TrailingParams
attr:
    #[derive(Clone, Copy)]
@*/
/*@struct juno/src/stop_loss/trailing.rs Trailing
attr:
    #[derive(Clone, Copy)]
@*/
impl BasicParams { pub open spec fn ok(p: BasicParams) -> bool { true } }
impl TrailingParams { pub open spec fn ok(p: TrailingParams) -> bool { true } }
// configured fractions (u: long, d: short); the code may keep them in any form
impl Basic {
    pub open spec fn cfg(&self) -> (real, real) { (1real - self.up_threshold_factor.v(), self.down_threshold_factor.v() - 1real) }
    pub open spec fn of(&self, p: BasicParams) -> bool { self.cfg() == (p.up_threshold.v(), p.down_threshold.v()) }
    pub open spec fn inv(&self, h: Hist) -> bool { self.close.v() == h_close(h) && (h_opened(h) ==> self.close_at_position.v() == h_open(h)) }
    pub open spec fn long_rule(&self, h: Hist) -> bool { h_close(h) <= h_open(h) * (1real - self.cfg().0) }
    pub open spec fn short_rule(&self, h: Hist) -> bool { h_close(h) >= h_open(h) * (1real + self.cfg().1) }
}
impl Trailing {
    pub open spec fn cfg(&self) -> (real, real) { (1real - self.up_threshold_factor.v(), self.down_threshold_factor.v() - 1real) }
    pub open spec fn of(&self, p: TrailingParams) -> bool { self.cfg() == (p.up_threshold.v(), p.down_threshold.v()) }
    pub open spec fn inv(&self, h: Hist) -> bool { self.close.v() == h_close(h)
        && (h_opened(h) ==> self.highest_close_since_position.v() == h_high(h) && self.lowest_close_since_position.v() == h_low(h)) }
    pub open spec fn long_rule(&self, h: Hist) -> bool { h_close(h) <= h_high(h) * (1real - self.cfg().0) }
    pub open spec fn short_rule(&self, h: Hist) -> bool { h_close(h) >= h_low(h) * (1real + self.cfg().1) }
}

impl Basic {
/*@fn juno/src/stop_loss/basic.rs Basic::new
ret: r
spec:
    requires BasicParams::ok(*params),
    ensures r.inv(Seq::empty()), r.of(*params),
@*/
/*@fn juno/src/stop_loss/basic.rs Basic::upside_hit
ret: r
spec:
    ensures forall|h: Hist| #[trigger] self.inv(h) && h_opened(h) ==> r == self.long_rule(h),
@*/
/*@fn juno/src/stop_loss/basic.rs Basic::downside_hit
ret: r
spec:
    ensures forall|h: Hist| #[trigger] self.inv(h) && h_opened(h) ==> r == self.short_rule(h),
@*/
/*@fn juno/src/stop_loss/basic.rs Basic::clear
spec:
    ensures forall|h: Hist| #[trigger] old(self).inv(h) ==> final(self).inv(h_op(h, *candle)),
        final(self).cfg() == old(self).cfg(),
@*/
/*@fn juno/src/stop_loss/basic.rs Basic::update
spec:
    ensures forall|h: Hist| #[trigger] old(self).inv(h) ==> final(self).inv(h_upd(h, *candle)),
        final(self).cfg() == old(self).cfg(),
@*/
}

impl Trailing {
/*@fn juno/src/stop_loss/trailing.rs Trailing::new
ret: r
spec:
    requires TrailingParams::ok(*params),
    ensures r.inv(Seq::empty()), r.of(*params),
@*/
/*@fn juno/src/stop_loss/trailing.rs Trailing::upside_hit
ret: r
spec:
    ensures forall|h: Hist| #[trigger] self.inv(h) && h_opened(h) ==> r == self.long_rule(h),
@*/
/*@fn juno/src/stop_loss/trailing.rs Trailing::downside_hit
ret: r
spec:
    ensures forall|h: Hist| #[trigger] self.inv(h) && h_opened(h) ==> r == self.short_rule(h),
@*/
/*@fn juno/src/stop_loss/trailing.rs Trailing::clear
spec:
    ensures forall|h: Hist| #[trigger] old(self).inv(h) ==> final(self).inv(h_op(h, *candle)),
        final(self).cfg() == old(self).cfg(),
@*/
/*@fn juno/src/stop_loss/trailing.rs Trailing::update
spec:
    ensures forall|h: Hist| #[trigger] old(self).inv(h) ==> final(self).inv(h_upd(h, *candle)),
        final(self).cfg() == old(self).cfg(),
@*/
}
/*@struct juno/src/stop_loss/basic_plus_trailing.rs BasicPlusTrailingParams
attr:
    #[derive(Clone, Copy)]
@*/
/*@struct juno/src/stop_loss/basic_plus_trailing.rs BasicPlusTrailing
@*/
impl BasicPlusTrailingParams { pub open spec fn ok(p: BasicPlusTrailingParams) -> bool { true } }
impl BasicPlusTrailing {
    pub open spec fn cfg(&self) -> ((real, real), (real, real)) { (self.basic.cfg(), self.trailing.cfg()) }
    pub open spec fn of(&self, p: BasicPlusTrailingParams) -> bool { self.basic.of(p.basic) && self.trailing.of(p.trailing) }
    pub open spec fn inv(&self, h: Hist) -> bool { self.basic.inv(h) && self.trailing.inv(h) }
    pub open spec fn long_rule(&self, h: Hist) -> bool { self.basic.long_rule(h) || self.trailing.long_rule(h) }
    pub open spec fn short_rule(&self, h: Hist) -> bool { self.basic.short_rule(h) || self.trailing.short_rule(h) }
}

impl BasicPlusTrailing {
/*@fn juno/src/stop_loss/basic_plus_trailing.rs BasicPlusTrailing::new
ret: r
spec:
    requires BasicPlusTrailingParams::ok(*params),
    ensures r.inv(Seq::empty()), r.of(*params),
@*/
/*@fn juno/src/stop_loss/basic_plus_trailing.rs BasicPlusTrailing::upside_hit
ret: r
spec:
    ensures forall|h: Hist| #[trigger] self.inv(h) && h_opened(h) ==> r == self.long_rule(h),
@*/
/*@fn juno/src/stop_loss/basic_plus_trailing.rs BasicPlusTrailing::downside_hit
ret: r
spec:
    ensures forall|h: Hist| #[trigger] self.inv(h) && h_opened(h) ==> r == self.short_rule(h),
@*/
/*@fn juno/src/stop_loss/basic_plus_trailing.rs BasicPlusTrailing::clear
spec:
    ensures forall|h: Hist| #[trigger] old(self).inv(h) ==> final(self).inv(h_op(h, *candle)),
        final(self).cfg() == old(self).cfg(),
@*/
/*@fn juno/src/stop_loss/basic_plus_trailing.rs BasicPlusTrailing::update
spec:
    ensures forall|h: Hist| #[trigger] old(self).inv(h) ==> final(self).inv(h_upd(h, *candle)),
        final(self).cfg() == old(self).cfg(),
@*/
}
/*@struct juno/src/stop_loss/legacy.rs LegacyParams
attr:
    #[derive(Clone, Copy)]
@*/
/*@struct juno/src/stop_loss/legacy.rs Legacy
attr:
    #[derive(Clone, Copy)]
@*/
impl LegacyParams { pub open spec fn ok(p: LegacyParams) -> bool { true } }
impl Legacy {
    pub open spec fn cfg(&self) -> (real, bool) { (self.threshold.v(), self.trail) }
    pub open spec fn of(&self, p: LegacyParams) -> bool { self.cfg() == (p.threshold.v(), p.trail) }
    pub open spec fn inv(&self, h: Hist) -> bool { self.close.v() == h_close(h) && (h_opened(h) ==> self.close_at_position.v() == h_open(h)
        && self.highest_close_since_position.v() == h_high(h) && self.lowest_close_since_position.v() == h_low(h)) }
    pub open spec fn long_rule(&self, h: Hist) -> bool { self.threshold.v() > 0real
        && h_close(h) <= (if self.trail { h_high(h) } else { h_open(h) }) * (1real - self.threshold.v()) }
    pub open spec fn short_rule(&self, h: Hist) -> bool { self.threshold.v() > 0real
        && h_close(h) >= (if self.trail { h_low(h) } else { h_open(h) }) * (1real + self.threshold.v()) }
}

impl Legacy {
/*@fn juno/src/stop_loss/legacy.rs Legacy::new
ret: r
spec:
    requires LegacyParams::ok(*params),
    ensures r.inv(Seq::empty()), r.of(*params),
@*/
/*@fn juno/src/stop_loss/legacy.rs Legacy::upside_hit
ret: r
spec:
    ensures forall|h: Hist| #[trigger] self.inv(h) && h_opened(h) ==> r == self.long_rule(h),
@*/
/*@fn juno/src/stop_loss/legacy.rs Legacy::downside_hit
ret: r
spec:
    ensures forall|h: Hist| #[trigger] self.inv(h) && h_opened(h) ==> r == self.short_rule(h),
@*/
/*@fn juno/src/stop_loss/legacy.rs Legacy::clear
spec:
    ensures forall|h: Hist| #[trigger] old(self).inv(h) ==> final(self).inv(h_op(h, *candle)),
        final(self).cfg() == old(self).cfg(),
@*/
/*@fn juno/src/stop_loss/legacy.rs Legacy::update
spec:
    ensures forall|h: Hist| #[trigger] old(self).inv(h) ==> final(self).inv(h_upd(h, *candle)),
        final(self).cfg() == old(self).cfg(),
@*/
}
/*@struct juno/src/stop_loss/noop.rs NoopParams
@*/
/*@struct juno/src/stop_loss/noop.rs Noop
@*/
impl NoopParams { pub open spec fn ok(p: NoopParams) -> bool { true } }
impl Noop {
    pub open spec fn cfg(&self) -> int { 0 }
    pub open spec fn of(&self, p: NoopParams) -> bool { true }
    pub open spec fn inv(&self, h: Hist) -> bool { true }
    pub open spec fn long_rule(&self, h: Hist) -> bool { false }
    pub open spec fn short_rule(&self, h: Hist) -> bool { false }
}

impl Noop {
/*@fn juno/src/stop_loss/noop.rs Noop::new
ret: r
spec:
    requires NoopParams::ok(*_params),
    ensures r.inv(Seq::empty()), r.of(*_params),
@*/
/*@fn juno/src/stop_loss/noop.rs Noop::upside_hit
default: juno/src/stop_loss/mod.rs StopLoss::upside_hit
ret: r
spec:
    ensures forall|h: Hist| #[trigger] self.inv(h) && h_opened(h) ==> r == self.long_rule(h),
@*/
/*@fn juno/src/stop_loss/noop.rs Noop::downside_hit
default: juno/src/stop_loss/mod.rs StopLoss::downside_hit
ret: r
spec:
    ensures forall|h: Hist| #[trigger] self.inv(h) && h_opened(h) ==> r == self.short_rule(h),
@*/
/*@fn juno/src/stop_loss/noop.rs Noop::clear
default: juno/src/stop_loss/mod.rs StopLoss::clear
spec:
    ensures forall|h: Hist| #[trigger] old(self).inv(h) ==> final(self).inv(h_op(h, *_candle)),
        final(self).cfg() == old(self).cfg(),
@*/
/*@fn juno/src/stop_loss/noop.rs Noop::update
default: juno/src/stop_loss/mod.rs StopLoss::update
spec:
    ensures forall|h: Hist| #[trigger] old(self).inv(h) ==> final(self).inv(h_upd(h, *_candle)),
        final(self).cfg() == old(self).cfg(),
@*/
}
// ---- construct: every variant becomes its own implementation (Box<dyn _> replaced by an enum of the implementations) ----
/*@enum juno/src/stop_loss/mod.rs StopLossParams
@*/
pub enum Dyn { BasicPlusTrailing(BasicPlusTrailing), Basic(Basic), Legacy(Legacy), Noop(Noop), Trailing(Trailing) }
pub trait Imp: Sized { spec fn as_dyn(self) -> Dyn; fn boxed(self) -> (r: Dyn) ensures r == self.as_dyn(); }
impl Imp for BasicPlusTrailing { open spec fn as_dyn(self) -> Dyn { Dyn::BasicPlusTrailing(self) } fn boxed(self) -> (r: Dyn) { Dyn::BasicPlusTrailing(self) } }
impl Imp for Basic { open spec fn as_dyn(self) -> Dyn { Dyn::Basic(self) } fn boxed(self) -> (r: Dyn) { Dyn::Basic(self) } }
impl Imp for Legacy { open spec fn as_dyn(self) -> Dyn { Dyn::Legacy(self) } fn boxed(self) -> (r: Dyn) { Dyn::Legacy(self) } }
impl Imp for Noop { open spec fn as_dyn(self) -> Dyn { Dyn::Noop(self) } fn boxed(self) -> (r: Dyn) { Dyn::Noop(self) } }
impl Imp for Trailing { open spec fn as_dyn(self) -> Dyn { Dyn::Trailing(self) } fn boxed(self) -> (r: Dyn) { Dyn::Trailing(self) } }
pub fn dyn_box<T: Imp>(t: T) -> (r: Dyn) ensures r == t.as_dyn() { t.boxed() }
impl StopLossParams {
    pub open spec fn ok(&self) -> bool { match *self { StopLossParams::BasicPlusTrailing(p) => BasicPlusTrailingParams::ok(p), StopLossParams::Basic(p) => BasicParams::ok(p), StopLossParams::Legacy(p) => LegacyParams::ok(p), StopLossParams::Noop(p) => NoopParams::ok(p), StopLossParams::Trailing(p) => TrailingParams::ok(p), } }
    // the right kind of object, with the configured numbers, and no history yet
    pub open spec fn built(&self, d: Dyn) -> bool { match (*self, d) {
        (StopLossParams::BasicPlusTrailing(p), Dyn::BasicPlusTrailing(x)) => x.of(p) && x.inv(Seq::empty()),
        (StopLossParams::Basic(p), Dyn::Basic(x)) => x.of(p) && x.inv(Seq::empty()),
        (StopLossParams::Legacy(p), Dyn::Legacy(x)) => x.of(p) && x.inv(Seq::empty()),
        (StopLossParams::Noop(p), Dyn::Noop(x)) => x.of(p) && x.inv(Seq::empty()),
        (StopLossParams::Trailing(p), Dyn::Trailing(x)) => x.of(p) && x.inv(Seq::empty()),
        _ => false } }
/*@fn juno/src/stop_loss/mod.rs StopLossParams::construct
ret: r
subst: Box::new => dyn_box
spec:
    requires self.ok(),
    ensures self.built(r),
@*/
}
}
fn main(){}

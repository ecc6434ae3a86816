// written by tools/mkchrom.py
// ---- indicators: constructors and maturities ----
pub mod indicators { use super::*;
broadcast use fl_axioms;
pub trait Boxed: Sized { type Dyn; spec fn as_dyn(self) -> Self::Dyn; fn boxed(self) -> (r: Self::Dyn) ensures r == self.as_dyn(); }
pub fn dyn_box<T: Boxed>(t: T) -> (r: T::Dyn) ensures r == t.as_dyn() { t.boxed() }
/*@struct juno/src/indicators/sma.rs Sma
@*/
impl Sma {
    pub open spec fn mok(&self) -> bool { 0 < self.t1 < 0x400000 }
/*@fn juno/src/indicators/sma.rs Sma::new
ret: r
spec:
    requires MAParams::Sma(*params).valid(),
    ensures r.mok(),
@*/
/*@fn juno/src/indicators/sma.rs Sma::MA::maturity
ret: r
spec:
    requires self.mok(),
    ensures 0 < r < 0x400000,
@*/
}
/*@struct juno/src/indicators/ema.rs Ema
@*/
impl Ema {
    pub open spec fn mok(&self) -> bool { 0 < self.t1 < 0x400000 }
/*@fn juno/src/indicators/ema.rs Ema::new
ret: r
spec:
    requires MAParams::Ema(*params).valid(),
    ensures r.mok(),
@*/
/*@fn juno/src/indicators/ema.rs Ema::MA::maturity
ret: r
spec:
    requires self.mok(),
    ensures 0 < r < 0x400000,
@*/
}
/*@struct juno/src/indicators/ema2.rs Ema2
@*/
impl Ema2 {
    pub open spec fn mok(&self) -> bool { 0 < self.t1 < 0x400000 }
/*@fn juno/src/indicators/ema2.rs Ema2::new
ret: r
spec:
    requires MAParams::Ema2(*params).valid(),
    ensures r.mok(),
@*/
/*@fn juno/src/indicators/ema2.rs Ema2::MA::maturity
ret: r
spec:
    requires self.mok(),
    ensures 0 < r < 0x400000,
@*/
}
/*@struct juno/src/indicators/smma.rs Smma
@*/
impl Smma {
    pub open spec fn mok(&self) -> bool { 0 < self.t2 < 0x400000 }
/*@fn juno/src/indicators/smma.rs Smma::new
ret: r
spec:
    requires MAParams::Smma(*params).valid(),
    ensures r.mok(),
@*/
/*@fn juno/src/indicators/smma.rs Smma::MA::maturity
ret: r
spec:
    requires self.mok(),
    ensures 0 < r < 0x400000,
@*/
}
/*@struct juno/src/indicators/dema.rs Dema
@*/
impl Dema {
    pub open spec fn mok(&self) -> bool { 0 < self.t2 < 0x400000 }
/*@fn juno/src/indicators/dema.rs Dema::new
ret: r
spec:
    requires MAParams::Dema(*params).valid(),
    ensures r.mok(),
@*/
/*@fn juno/src/indicators/dema.rs Dema::MA::maturity
ret: r
spec:
    requires self.mok(),
    ensures 0 < r < 0x400000,
@*/
}
/*@struct juno/src/indicators/kama.rs Kama
@*/
impl Kama {
    pub open spec fn mok(&self) -> bool { 0 < self.t2 < 0x400000 }
/*@fn juno/src/indicators/kama.rs Kama::new
ret: r
spec:
    requires MAParams::Kama(*params).valid(),
    ensures r.mok(),
@*/
/*@fn juno/src/indicators/kama.rs Kama::MA::maturity
ret: r
spec:
    requires self.mok(),
    ensures 0 < r < 0x400000,
@*/
}
/*@struct juno/src/indicators/alma.rs Alma
@*/
impl Alma {
    pub open spec fn mok(&self) -> bool { 0 < self.t1 < 0x400000 }
/*@fn juno/src/indicators/alma.rs Alma::new
ret: r
flag: noauto
spec:
    requires MAParams::Alma(*params).valid(),
    ensures r.mok(),
@*/
/*@fn juno/src/indicators/alma.rs Alma::MA::maturity
ret: r
spec:
    requires self.mok(),
    ensures 0 < r < 0x400000,
@*/
}
pub enum DynMa { Alma(Alma), Dema(Dema), Ema(Ema), Ema2(Ema2), Kama(Kama), Sma(Sma), Smma(Smma) }
impl Boxed for Alma { type Dyn = DynMa; open spec fn as_dyn(self) -> DynMa { DynMa::Alma(self) } fn boxed(self) -> (r: DynMa) { DynMa::Alma(self) } }
impl Boxed for Dema { type Dyn = DynMa; open spec fn as_dyn(self) -> DynMa { DynMa::Dema(self) } fn boxed(self) -> (r: DynMa) { DynMa::Dema(self) } }
impl Boxed for Ema { type Dyn = DynMa; open spec fn as_dyn(self) -> DynMa { DynMa::Ema(self) } fn boxed(self) -> (r: DynMa) { DynMa::Ema(self) } }
impl Boxed for Ema2 { type Dyn = DynMa; open spec fn as_dyn(self) -> DynMa { DynMa::Ema2(self) } fn boxed(self) -> (r: DynMa) { DynMa::Ema2(self) } }
impl Boxed for Kama { type Dyn = DynMa; open spec fn as_dyn(self) -> DynMa { DynMa::Kama(self) } fn boxed(self) -> (r: DynMa) { DynMa::Kama(self) } }
impl Boxed for Sma { type Dyn = DynMa; open spec fn as_dyn(self) -> DynMa { DynMa::Sma(self) } fn boxed(self) -> (r: DynMa) { DynMa::Sma(self) } }
impl Boxed for Smma { type Dyn = DynMa; open spec fn as_dyn(self) -> DynMa { DynMa::Smma(self) } fn boxed(self) -> (r: DynMa) { DynMa::Smma(self) } }
impl DynMa {
    pub open spec fn mok(self) -> bool { match self { DynMa::Alma(x) => x.mok(), DynMa::Dema(x) => x.mok(), DynMa::Ema(x) => x.mok(), DynMa::Ema2(x) => x.mok(), DynMa::Kama(x) => x.mok(), DynMa::Sma(x) => x.mok(), DynMa::Smma(x) => x.mok(), } }
    pub fn maturity(&self) -> (r: u32) requires self.mok() ensures 0 < r < 0x400000 { match self { DynMa::Alma(x) => x.maturity(), DynMa::Dema(x) => x.maturity(), DynMa::Ema(x) => x.maturity(), DynMa::Ema2(x) => x.maturity(), DynMa::Kama(x) => x.maturity(), DynMa::Sma(x) => x.maturity(), DynMa::Smma(x) => x.maturity(), } }
}
impl MAParams {
/*@fn juno/src/indicators/mod.rs MAParams::construct
ret: r
subst: Box::new => dyn_box
spec:
    requires self.valid(),
    ensures r.mok(),
@*/
/*@fn juno/src/indicators/mod.rs MAParams::period
ret: r
spec:
    ensures r == self.n(),
@*/
}
/*@struct juno/src/indicators/rsi.rs Rsi
@*/
impl Rsi {
    pub open spec fn mok(&self) -> bool { 0 < self.t1 < 0x1000000 }
/*@fn juno/src/indicators/rsi.rs Rsi::new
ret: r
spec:
    requires sane(period),
    ensures r.mok(),
@*/
/*@fn juno/src/indicators/rsi.rs Rsi::maturity
ret: r
spec:
    requires self.mok(),
    ensures 0 < r < 0x1000000,
@*/
}
/*@struct juno/src/indicators/macd.rs Macd
@*/
impl Macd {
    pub open spec fn mok(&self) -> bool { self.short_ema.mok() && self.long_ema.mok() && self.signal_ema.mok() }
/*@fn juno/src/indicators/macd.rs Macd::new
ret: r
spec:
    requires sane(short_period), sane(long_period), sane(signal_period), short_period <= long_period,
    ensures r.mok(),
@*/
/*@fn juno/src/indicators/macd.rs Macd::maturity
ret: r
spec:
    requires self.mok(),
    ensures 0 < r < 0x1000000,
@*/
}
/*@struct juno/src/indicators/stoch.rs Stoch
@*/
impl Stoch {
    pub open spec fn mok(&self) -> bool { 0 < self.t3 < 0x1000000 }
/*@fn juno/src/indicators/stoch.rs Stoch::new
ret: r
spec:
    requires sane(k_period), sane(k_sma_period), sane(d_sma_period),
    ensures r.mok(),
@*/
/*@fn juno/src/indicators/stoch.rs Stoch::maturity
ret: r
spec:
    requires self.mok(),
    ensures 0 < r < 0x1000000,
@*/
}
/*@struct juno/src/indicators/dm.rs DM
@*/
impl DM {
    pub open spec fn mok(&self) -> bool { true }
/*@fn juno/src/indicators/dm.rs DM::new
ret: r
spec:
    requires sane(period),
    ensures r.mok(),
@*/
}
/*@struct juno/src/indicators/dx.rs DX
@*/
impl DX {
    pub open spec fn mok(&self) -> bool { true }
/*@fn juno/src/indicators/dx.rs DX::new
ret: r
spec:
    requires sane(period),
    ensures r.mok(),
@*/
}
/*@struct juno/src/indicators/adx.rs Adx
@*/
impl Adx {
    pub open spec fn mok(&self) -> bool { true }
/*@fn juno/src/indicators/adx.rs Adx::new
ret: r
spec:
    requires sane(period),
    ensures r.mok(),
@*/
}
}
pub use indicators::{DynMa, Boxed, dyn_box, Adx};
pub mod stop_loss { use super::*;
pub mod basic { use super::*;
broadcast use fl_axioms;
/*@struct juno/src/stop_loss/basic.rs BasicParams
attr:
    #[derive(Clone, Copy)]
@*/
/*@struct expanded:stop_loss::basic BasicParamsContext
@*/
impl BasicParams { pub open spec fn ok_up_threshold(x: Fl) -> bool { x.fin() && 0real < x.v() <= 1real } }
/*@fn juno/src/stop_loss/basic.rs up_threshold
ret: x
flag: anyloops
spec:
    ensures BasicParams::ok_up_threshold(x),
@*/
impl BasicParams { pub open spec fn ok_down_threshold(x: Fl) -> bool { x.fin() && 0real < x.v() <= 1real } }
/*@fn juno/src/stop_loss/basic.rs down_threshold
ret: x
flag: anyloops
spec:
    ensures BasicParams::ok_down_threshold(x),
@*/
impl DfltX for BasicParamsContext {
    open spec fn dv() -> Self { BasicParamsContext { up_threshold: None, down_threshold: None } }
/*@fn expanded:stop_loss::basic BasicParamsContext::Default::default
ret: r
flag: novis
@*/
}
impl Chromosome for BasicParams {
    type Context = BasicParamsContext;
    open spec fn g_len() -> nat { 2nat }
    open spec fn ok(x: Self, c: BasicParamsContext) -> bool { BasicParams::ok_up_threshold(x.up_threshold) && (c.up_threshold is Some ==> x.up_threshold == c.up_threshold->0) && BasicParams::ok_down_threshold(x.down_threshold) && (c.down_threshold is Some ==> x.down_threshold == c.down_threshold->0) }
    open spec fn cvalid(c: BasicParamsContext) -> bool { (c.up_threshold is Some ==> BasicParams::ok_up_threshold(c.up_threshold->0)) && (c.down_threshold is Some ==> BasicParams::ok_down_threshold(c.down_threshold->0)) }
    open spec fn valid(x: Self) -> bool { BasicParams::ok_up_threshold(x.up_threshold) && BasicParams::ok_down_threshold(x.down_threshold) }
    proof fn ok_valid(x: Self, c: BasicParamsContext) {  }
/*@fn expanded:stop_loss::basic BasicParams::Chromosome::len
ret: r
flag: novis
@*/
/*@fn expanded:stop_loss::basic BasicParams::Chromosome::generate
ret: x
flag: novis
@*/
/*@fn expanded:stop_loss::basic BasicParams::Chromosome::cross
flag: novis
@*/
/*@fn expanded:stop_loss::basic BasicParams::Chromosome::mutate
flag: novis
@*/
}
/*@struct juno/src/stop_loss/basic.rs Basic
@*/
impl Basic {
/*@fn juno/src/stop_loss/basic.rs Basic::new
spec:
    requires BasicParams::valid(*params),
@*/
}
}
pub use basic::Basic;
pub use basic::{BasicParams, BasicParamsContext};
pub mod trailing { use super::*;
broadcast use fl_axioms;
/*@struct juno/src/stop_loss/trailing.rs TrailingParams
attr:
    #[derive(Clone, Copy)]
@*/
/*@struct expanded:stop_loss::trailing TrailingParamsContext
@*/
impl TrailingParams { pub open spec fn ok_up_threshold(x: Fl) -> bool { x.fin() && 0real < x.v() <= 1real } }
/*@fn juno/src/stop_loss/trailing.rs up_threshold
ret: x
flag: anyloops
spec:
    ensures TrailingParams::ok_up_threshold(x),
@*/
impl TrailingParams { pub open spec fn ok_down_threshold(x: Fl) -> bool { x.fin() && 0real < x.v() <= 1real } }
/*@fn juno/src/stop_loss/trailing.rs down_threshold
ret: x
flag: anyloops
spec:
    ensures TrailingParams::ok_down_threshold(x),
@*/
impl DfltX for TrailingParamsContext {
    open spec fn dv() -> Self { TrailingParamsContext { up_threshold: None, down_threshold: None } }
/*@fn expanded:stop_loss::trailing TrailingParamsContext::Default::default
ret: r
flag: novis
@*/
}
impl Chromosome for TrailingParams {
    type Context = TrailingParamsContext;
    open spec fn g_len() -> nat { 2nat }
    open spec fn ok(x: Self, c: TrailingParamsContext) -> bool { TrailingParams::ok_up_threshold(x.up_threshold) && (c.up_threshold is Some ==> x.up_threshold == c.up_threshold->0) && TrailingParams::ok_down_threshold(x.down_threshold) && (c.down_threshold is Some ==> x.down_threshold == c.down_threshold->0) }
    open spec fn cvalid(c: TrailingParamsContext) -> bool { (c.up_threshold is Some ==> TrailingParams::ok_up_threshold(c.up_threshold->0)) && (c.down_threshold is Some ==> TrailingParams::ok_down_threshold(c.down_threshold->0)) }
    open spec fn valid(x: Self) -> bool { TrailingParams::ok_up_threshold(x.up_threshold) && TrailingParams::ok_down_threshold(x.down_threshold) }
    proof fn ok_valid(x: Self, c: TrailingParamsContext) {  }
/*@fn expanded:stop_loss::trailing TrailingParams::Chromosome::len
ret: r
flag: novis
@*/
/*@fn expanded:stop_loss::trailing TrailingParams::Chromosome::generate
ret: x
flag: novis
@*/
/*@fn expanded:stop_loss::trailing TrailingParams::Chromosome::cross
flag: novis
@*/
/*@fn expanded:stop_loss::trailing TrailingParams::Chromosome::mutate
flag: novis
@*/
}
/*@struct juno/src/stop_loss/trailing.rs Trailing
@*/
impl Trailing {
/*@fn juno/src/stop_loss/trailing.rs Trailing::new
spec:
    requires TrailingParams::valid(*params),
@*/
}
}
pub use trailing::Trailing;
pub use trailing::{TrailingParams, TrailingParamsContext};
pub mod basic_plus_trailing { use super::*;
broadcast use fl_axioms;
/*@struct juno/src/stop_loss/basic_plus_trailing.rs BasicPlusTrailingParams
attr:
    #[derive(Clone, Copy)]
@*/
/*@struct expanded:stop_loss::basic_plus_trailing BasicPlusTrailingParamsContext
@*/
impl DfltX for BasicPlusTrailingParamsContext {
    open spec fn dv() -> Self { BasicPlusTrailingParamsContext { basic: BasicParamsContext::dv(), trailing: TrailingParamsContext::dv() } }
/*@fn expanded:stop_loss::basic_plus_trailing BasicPlusTrailingParamsContext::Default::default
ret: r
flag: novis
@*/
}
impl Chromosome for BasicPlusTrailingParams {
    type Context = BasicPlusTrailingParamsContext;
    open spec fn g_len() -> nat { BasicParams::g_len() + TrailingParams::g_len() + 0nat }
    open spec fn ok(x: Self, c: BasicPlusTrailingParamsContext) -> bool { BasicParams::ok(x.basic, c.basic) && TrailingParams::ok(x.trailing, c.trailing) }
    open spec fn cvalid(c: BasicPlusTrailingParamsContext) -> bool { BasicParams::cvalid(c.basic) && TrailingParams::cvalid(c.trailing) }
    open spec fn valid(x: Self) -> bool { BasicParams::valid(x.basic) && TrailingParams::valid(x.trailing) }
    proof fn ok_valid(x: Self, c: BasicPlusTrailingParamsContext) { BasicParams::ok_valid(x.basic, c.basic); TrailingParams::ok_valid(x.trailing, c.trailing);  }
/*@fn expanded:stop_loss::basic_plus_trailing BasicPlusTrailingParams::Chromosome::len
ret: r
flag: novis
@*/
/*@fn expanded:stop_loss::basic_plus_trailing BasicPlusTrailingParams::Chromosome::generate
ret: x
flag: novis
@*/
/*@fn expanded:stop_loss::basic_plus_trailing BasicPlusTrailingParams::Chromosome::cross
flag: novis
@*/
/*@fn expanded:stop_loss::basic_plus_trailing BasicPlusTrailingParams::Chromosome::mutate
flag: novis
@*/
}
/*@struct juno/src/stop_loss/basic_plus_trailing.rs BasicPlusTrailing
@*/
impl BasicPlusTrailing {
/*@fn juno/src/stop_loss/basic_plus_trailing.rs BasicPlusTrailing::new
spec:
    requires BasicPlusTrailingParams::valid(*params),
@*/
}
}
pub use basic_plus_trailing::BasicPlusTrailing;
pub use basic_plus_trailing::{BasicPlusTrailingParams, BasicPlusTrailingParamsContext};
pub mod legacy { use super::*;
broadcast use fl_axioms;
/*@struct juno/src/stop_loss/legacy.rs LegacyParams
attr:
    #[derive(Clone, Copy)]
@*/
/*@struct expanded:stop_loss::legacy LegacyParamsContext
@*/
impl LegacyParams { pub open spec fn ok_threshold(x: Fl) -> bool { x.fin() && 0real <= x.v() <= 1real } }
/*@fn juno/src/stop_loss/legacy.rs threshold
ret: x
flag: anyloops
spec:
    ensures LegacyParams::ok_threshold(x),
@*/
impl LegacyParams { pub open spec fn ok_trail(x: bool) -> bool { true } }
/*@fn juno/src/stop_loss/legacy.rs trail
ret: x
flag: anyloops
spec:
    ensures LegacyParams::ok_trail(x),
@*/
impl DfltX for LegacyParamsContext {
    open spec fn dv() -> Self { LegacyParamsContext { threshold: None, trail: None } }
/*@fn expanded:stop_loss::legacy LegacyParamsContext::Default::default
ret: r
flag: novis
@*/
}
impl Chromosome for LegacyParams {
    type Context = LegacyParamsContext;
    open spec fn g_len() -> nat { 2nat }
    open spec fn ok(x: Self, c: LegacyParamsContext) -> bool { LegacyParams::ok_threshold(x.threshold) && (c.threshold is Some ==> x.threshold == c.threshold->0) && LegacyParams::ok_trail(x.trail) && (c.trail is Some ==> x.trail == c.trail->0) }
    open spec fn cvalid(c: LegacyParamsContext) -> bool { (c.threshold is Some ==> LegacyParams::ok_threshold(c.threshold->0)) && (c.trail is Some ==> LegacyParams::ok_trail(c.trail->0)) }
    open spec fn valid(x: Self) -> bool { LegacyParams::ok_threshold(x.threshold) && LegacyParams::ok_trail(x.trail) }
    proof fn ok_valid(x: Self, c: LegacyParamsContext) {  }
/*@fn expanded:stop_loss::legacy LegacyParams::Chromosome::len
ret: r
flag: novis
@*/
/*@fn expanded:stop_loss::legacy LegacyParams::Chromosome::generate
ret: x
flag: novis
@*/
/*@fn expanded:stop_loss::legacy LegacyParams::Chromosome::cross
flag: novis
@*/
/*@fn expanded:stop_loss::legacy LegacyParams::Chromosome::mutate
flag: novis
@*/
}
/*@struct juno/src/stop_loss/legacy.rs Legacy
@*/
impl Legacy {
/*@fn juno/src/stop_loss/legacy.rs Legacy::new
spec:
    requires LegacyParams::valid(*params),
@*/
}
}
pub use legacy::Legacy;
pub use legacy::{LegacyParams, LegacyParamsContext};
pub mod noop { use super::*;
broadcast use fl_axioms;
/*@struct juno/src/stop_loss/noop.rs NoopParams
attr:
    #[derive(Clone, Copy)]
@*/
/*@struct expanded:stop_loss::noop NoopParamsContext
@*/
impl DfltX for NoopParamsContext {
    open spec fn dv() -> Self { NoopParamsContext {  } }
/*@fn expanded:stop_loss::noop NoopParamsContext::Default::default
ret: r
flag: novis
@*/
}
impl Chromosome for NoopParams {
    type Context = NoopParamsContext;
    open spec fn g_len() -> nat { 0nat }
    open spec fn ok(x: Self, c: NoopParamsContext) -> bool { true }
    open spec fn cvalid(c: NoopParamsContext) -> bool { true }
    open spec fn valid(x: Self) -> bool { true }
    proof fn ok_valid(x: Self, c: NoopParamsContext) {  }
/*@fn expanded:stop_loss::noop NoopParams::Chromosome::len
ret: r
flag: novis
@*/
/*@fn expanded:stop_loss::noop NoopParams::Chromosome::generate
ret: x
flag: novis
@*/
/*@fn expanded:stop_loss::noop NoopParams::Chromosome::cross
flag: novis
flag: uncallable
@*/
/*@fn expanded:stop_loss::noop NoopParams::Chromosome::mutate
flag: novis
flag: uncallable
@*/
}
/*@struct juno/src/stop_loss/noop.rs Noop
@*/
impl Noop {
/*@fn juno/src/stop_loss/noop.rs Noop::new
spec:
    requires NoopParams::valid(*_params),
@*/
}
}
pub use noop::Noop;
pub use noop::{NoopParams, NoopParamsContext};
/*@enum juno/src/stop_loss/mod.rs StopLossParams
attr:
    #[derive(Clone, Copy)]
@*/
/*@enum expanded:stop_loss StopLossParamsContext
@*/
impl Tagged for StopLossParams { open spec fn tag(&self) -> int { match *self { StopLossParams::BasicPlusTrailing(_) => 0int, StopLossParams::Basic(_) => 1int, StopLossParams::Legacy(_) => 2int, StopLossParams::Noop(_) => 3int, StopLossParams::Trailing(_) => 4int, } } }
impl StopLossParams {
    pub open spec fn g_vlen(&self) -> nat { match *self { StopLossParams::BasicPlusTrailing(_) => BasicPlusTrailingParams::g_len(), StopLossParams::Basic(_) => BasicParams::g_len(), StopLossParams::Legacy(_) => LegacyParams::g_len(), StopLossParams::Noop(_) => NoopParams::g_len(), StopLossParams::Trailing(_) => TrailingParams::g_len(), } }
/*@fn expanded:stop_loss StopLossParams::variant_len
ret: r
spec:
    ensures r == self.g_vlen(),
@*/
}
//@subst_expr &DEFAULT_STOP_LOSS_PARAMS_BASIC_PLUS_TRAILING_CTX => DEFAULT_STOP_LOSS_PARAMS_BASIC_PLUS_TRAILING_CTX_X()
/*@lazy expanded:stop_loss DEFAULT_STOP_LOSS_PARAMS_BASIC_PLUS_TRAILING_CTX
spec:
    ensures r == BasicPlusTrailingParamsContext::dv(),
@*/
// the lazily initialised static holds what its initialiser returns
#[verifier::external_body] pub fn DEFAULT_STOP_LOSS_PARAMS_BASIC_PLUS_TRAILING_CTX_X() -> (r: &'static BasicPlusTrailingParamsContext) ensures call_ensures(DEFAULT_STOP_LOSS_PARAMS_BASIC_PLUS_TRAILING_CTX_init, (), *r) { unimplemented!() }
//@subst_expr &DEFAULT_STOP_LOSS_PARAMS_BASIC_CTX => DEFAULT_STOP_LOSS_PARAMS_BASIC_CTX_X()
/*@lazy expanded:stop_loss DEFAULT_STOP_LOSS_PARAMS_BASIC_CTX
spec:
    ensures r == BasicParamsContext::dv(),
@*/
// the lazily initialised static holds what its initialiser returns
#[verifier::external_body] pub fn DEFAULT_STOP_LOSS_PARAMS_BASIC_CTX_X() -> (r: &'static BasicParamsContext) ensures call_ensures(DEFAULT_STOP_LOSS_PARAMS_BASIC_CTX_init, (), *r) { unimplemented!() }
//@subst_expr &DEFAULT_STOP_LOSS_PARAMS_LEGACY_CTX => DEFAULT_STOP_LOSS_PARAMS_LEGACY_CTX_X()
/*@lazy expanded:stop_loss DEFAULT_STOP_LOSS_PARAMS_LEGACY_CTX
spec:
    ensures r == LegacyParamsContext::dv(),
@*/
// the lazily initialised static holds what its initialiser returns
#[verifier::external_body] pub fn DEFAULT_STOP_LOSS_PARAMS_LEGACY_CTX_X() -> (r: &'static LegacyParamsContext) ensures call_ensures(DEFAULT_STOP_LOSS_PARAMS_LEGACY_CTX_init, (), *r) { unimplemented!() }
//@subst_expr &DEFAULT_STOP_LOSS_PARAMS_NOOP_CTX => DEFAULT_STOP_LOSS_PARAMS_NOOP_CTX_X()
/*@lazy expanded:stop_loss DEFAULT_STOP_LOSS_PARAMS_NOOP_CTX
spec:
    ensures r == NoopParamsContext::dv(),
@*/
// the lazily initialised static holds what its initialiser returns
#[verifier::external_body] pub fn DEFAULT_STOP_LOSS_PARAMS_NOOP_CTX_X() -> (r: &'static NoopParamsContext) ensures call_ensures(DEFAULT_STOP_LOSS_PARAMS_NOOP_CTX_init, (), *r) { unimplemented!() }
//@subst_expr &DEFAULT_STOP_LOSS_PARAMS_TRAILING_CTX => DEFAULT_STOP_LOSS_PARAMS_TRAILING_CTX_X()
/*@lazy expanded:stop_loss DEFAULT_STOP_LOSS_PARAMS_TRAILING_CTX
spec:
    ensures r == TrailingParamsContext::dv(),
@*/
// the lazily initialised static holds what its initialiser returns
#[verifier::external_body] pub fn DEFAULT_STOP_LOSS_PARAMS_TRAILING_CTX_X() -> (r: &'static TrailingParamsContext) ensures call_ensures(DEFAULT_STOP_LOSS_PARAMS_TRAILING_CTX_init, (), *r) { unimplemented!() }
impl StopLossParamsContext {
/*@fn expanded:stop_loss StopLossParamsContext::basicplustrailing
ret: r
spec:
    ensures *r == self.sub_basicplustrailing(),
@*/
    pub open spec fn sub_basicplustrailing(self) -> BasicPlusTrailingParamsContext { match self { StopLossParamsContext::BasicPlusTrailing(c) => c, _ => BasicPlusTrailingParamsContext::dv() } }
/*@fn expanded:stop_loss StopLossParamsContext::basic
ret: r
spec:
    ensures *r == self.sub_basic(),
@*/
    pub open spec fn sub_basic(self) -> BasicParamsContext { match self { StopLossParamsContext::Basic(c) => c, _ => BasicParamsContext::dv() } }
/*@fn expanded:stop_loss StopLossParamsContext::legacy
ret: r
spec:
    ensures *r == self.sub_legacy(),
@*/
    pub open spec fn sub_legacy(self) -> LegacyParamsContext { match self { StopLossParamsContext::Legacy(c) => c, _ => LegacyParamsContext::dv() } }
/*@fn expanded:stop_loss StopLossParamsContext::noop
ret: r
spec:
    ensures *r == self.sub_noop(),
@*/
    pub open spec fn sub_noop(self) -> NoopParamsContext { match self { StopLossParamsContext::Noop(c) => c, _ => NoopParamsContext::dv() } }
/*@fn expanded:stop_loss StopLossParamsContext::trailing
ret: r
spec:
    ensures *r == self.sub_trailing(),
@*/
    pub open spec fn sub_trailing(self) -> TrailingParamsContext { match self { StopLossParamsContext::Trailing(c) => c, _ => TrailingParamsContext::dv() } }
}
impl DfltX for StopLossParamsContext {
    open spec fn dv() -> Self { StopLossParamsContext::None }
/*@fn expanded:stop_loss StopLossParamsContext::Default::default
ret: r
flag: novis
@*/
}
impl Chromosome for StopLossParams {
    type Context = StopLossParamsContext;
    open spec fn g_len() -> nat { 1 + nmax(BasicPlusTrailingParams::g_len(), nmax(BasicParams::g_len(), nmax(LegacyParams::g_len(), nmax(NoopParams::g_len(), TrailingParams::g_len())))) }
    open spec fn ok(x: Self, c: StopLossParamsContext) -> bool { match (x, c) { (StopLossParams::BasicPlusTrailing(p), StopLossParamsContext::None) => BasicPlusTrailingParams::ok(p, BasicPlusTrailingParamsContext::dv()), (StopLossParams::BasicPlusTrailing(p), StopLossParamsContext::BasicPlusTrailing(d)) => BasicPlusTrailingParams::ok(p, d), (StopLossParams::Basic(p), StopLossParamsContext::None) => BasicParams::ok(p, BasicParamsContext::dv()), (StopLossParams::Basic(p), StopLossParamsContext::Basic(d)) => BasicParams::ok(p, d), (StopLossParams::Legacy(p), StopLossParamsContext::None) => LegacyParams::ok(p, LegacyParamsContext::dv()), (StopLossParams::Legacy(p), StopLossParamsContext::Legacy(d)) => LegacyParams::ok(p, d), (StopLossParams::Noop(p), StopLossParamsContext::None) => NoopParams::ok(p, NoopParamsContext::dv()), (StopLossParams::Noop(p), StopLossParamsContext::Noop(d)) => NoopParams::ok(p, d), (StopLossParams::Trailing(p), StopLossParamsContext::None) => TrailingParams::ok(p, TrailingParamsContext::dv()), (StopLossParams::Trailing(p), StopLossParamsContext::Trailing(d)) => TrailingParams::ok(p, d), _ => false } }
    open spec fn cvalid(c: StopLossParamsContext) -> bool { match c { StopLossParamsContext::None => true, StopLossParamsContext::BasicPlusTrailing(d) => BasicPlusTrailingParams::cvalid(d), StopLossParamsContext::Basic(d) => BasicParams::cvalid(d), StopLossParamsContext::Legacy(d) => LegacyParams::cvalid(d), StopLossParamsContext::Noop(d) => NoopParams::cvalid(d), StopLossParamsContext::Trailing(d) => TrailingParams::cvalid(d), } }
    open spec fn valid(x: Self) -> bool { match x { StopLossParams::BasicPlusTrailing(p) => BasicPlusTrailingParams::valid(p), StopLossParams::Basic(p) => BasicParams::valid(p), StopLossParams::Legacy(p) => LegacyParams::valid(p), StopLossParams::Noop(p) => NoopParams::valid(p), StopLossParams::Trailing(p) => TrailingParams::valid(p), } }
    proof fn ok_valid(x: Self, c: StopLossParamsContext) { match (x, c) { (StopLossParams::BasicPlusTrailing(p), StopLossParamsContext::None) => { BasicPlusTrailingParams::ok_valid(p, BasicPlusTrailingParamsContext::dv()); }, (StopLossParams::BasicPlusTrailing(p), StopLossParamsContext::BasicPlusTrailing(d)) => { BasicPlusTrailingParams::ok_valid(p, d); }, (StopLossParams::Basic(p), StopLossParamsContext::None) => { BasicParams::ok_valid(p, BasicParamsContext::dv()); }, (StopLossParams::Basic(p), StopLossParamsContext::Basic(d)) => { BasicParams::ok_valid(p, d); }, (StopLossParams::Legacy(p), StopLossParamsContext::None) => { LegacyParams::ok_valid(p, LegacyParamsContext::dv()); }, (StopLossParams::Legacy(p), StopLossParamsContext::Legacy(d)) => { LegacyParams::ok_valid(p, d); }, (StopLossParams::Noop(p), StopLossParamsContext::None) => { NoopParams::ok_valid(p, NoopParamsContext::dv()); }, (StopLossParams::Noop(p), StopLossParamsContext::Noop(d)) => { NoopParams::ok_valid(p, d); }, (StopLossParams::Trailing(p), StopLossParamsContext::None) => { TrailingParams::ok_valid(p, TrailingParamsContext::dv()); }, (StopLossParams::Trailing(p), StopLossParamsContext::Trailing(d)) => { TrailingParams::ok_valid(p, d); }, _ => {} } }
/*@fn expanded:stop_loss StopLossParams::Chromosome::len
ret: r
flag: novis
@*/
/*@fn expanded:stop_loss StopLossParams::Chromosome::generate
ret: x
flag: novis
@*/
/*@fn expanded:stop_loss StopLossParams::Chromosome::cross
flag: novis
@*/
/*@fn expanded:stop_loss StopLossParams::Chromosome::mutate
flag: novis
@*/
}
pub enum DynSl { BasicPlusTrailing(BasicPlusTrailing), Basic(Basic), Legacy(Legacy), Noop(Noop), Trailing(Trailing) }
impl Boxed for BasicPlusTrailing { type Dyn = DynSl; open spec fn as_dyn(self) -> DynSl { DynSl::BasicPlusTrailing(self) } fn boxed(self) -> (r: DynSl) { DynSl::BasicPlusTrailing(self) } }
impl Boxed for Basic { type Dyn = DynSl; open spec fn as_dyn(self) -> DynSl { DynSl::Basic(self) } fn boxed(self) -> (r: DynSl) { DynSl::Basic(self) } }
impl Boxed for Legacy { type Dyn = DynSl; open spec fn as_dyn(self) -> DynSl { DynSl::Legacy(self) } fn boxed(self) -> (r: DynSl) { DynSl::Legacy(self) } }
impl Boxed for Noop { type Dyn = DynSl; open spec fn as_dyn(self) -> DynSl { DynSl::Noop(self) } fn boxed(self) -> (r: DynSl) { DynSl::Noop(self) } }
impl Boxed for Trailing { type Dyn = DynSl; open spec fn as_dyn(self) -> DynSl { DynSl::Trailing(self) } fn boxed(self) -> (r: DynSl) { DynSl::Trailing(self) } }
impl StopLossParams {
/*@fn juno/src/stop_loss/mod.rs StopLossParams::construct
ret: r
subst: Box::new => dyn_box
spec:
    requires StopLossParams::valid(*self),
@*/
}
}
pub mod take_profit { use super::*;
pub mod basic { use super::*;
broadcast use fl_axioms;
/*@struct juno/src/take_profit/basic.rs BasicParams
attr:
    #[derive(Clone, Copy)]
@*/
/*@struct expanded:take_profit::basic BasicParamsContext
@*/
impl BasicParams { pub open spec fn ok_up_threshold(x: Fl) -> bool { x.fin() && 0real < x.v() <= 10real } }
/*@fn juno/src/take_profit/basic.rs up_threshold
ret: x
flag: anyloops
spec:
    ensures BasicParams::ok_up_threshold(x),
@*/
impl BasicParams { pub open spec fn ok_down_threshold(x: Fl) -> bool { x.fin() && 0real < x.v() <= 10real } }
/*@fn juno/src/take_profit/basic.rs down_threshold
ret: x
flag: anyloops
spec:
    ensures BasicParams::ok_down_threshold(x),
@*/
impl DfltX for BasicParamsContext {
    open spec fn dv() -> Self { BasicParamsContext { up_threshold: None, down_threshold: None } }
/*@fn expanded:take_profit::basic BasicParamsContext::Default::default
ret: r
flag: novis
@*/
}
impl Chromosome for BasicParams {
    type Context = BasicParamsContext;
    open spec fn g_len() -> nat { 2nat }
    open spec fn ok(x: Self, c: BasicParamsContext) -> bool { BasicParams::ok_up_threshold(x.up_threshold) && (c.up_threshold is Some ==> x.up_threshold == c.up_threshold->0) && BasicParams::ok_down_threshold(x.down_threshold) && (c.down_threshold is Some ==> x.down_threshold == c.down_threshold->0) }
    open spec fn cvalid(c: BasicParamsContext) -> bool { (c.up_threshold is Some ==> BasicParams::ok_up_threshold(c.up_threshold->0)) && (c.down_threshold is Some ==> BasicParams::ok_down_threshold(c.down_threshold->0)) }
    open spec fn valid(x: Self) -> bool { BasicParams::ok_up_threshold(x.up_threshold) && BasicParams::ok_down_threshold(x.down_threshold) }
    proof fn ok_valid(x: Self, c: BasicParamsContext) {  }
/*@fn expanded:take_profit::basic BasicParams::Chromosome::len
ret: r
flag: novis
@*/
/*@fn expanded:take_profit::basic BasicParams::Chromosome::generate
ret: x
flag: novis
@*/
/*@fn expanded:take_profit::basic BasicParams::Chromosome::cross
flag: novis
@*/
/*@fn expanded:take_profit::basic BasicParams::Chromosome::mutate
flag: novis
@*/
}
/*@struct juno/src/take_profit/basic.rs Basic
@*/
impl Basic {
/*@fn juno/src/take_profit/basic.rs Basic::new
spec:
    requires BasicParams::valid(*params),
@*/
}
}
pub use basic::Basic;
pub use basic::{BasicParams, BasicParamsContext};
pub mod legacy { use super::*;
broadcast use fl_axioms;
/*@struct juno/src/take_profit/legacy.rs LegacyParams
attr:
    #[derive(Clone, Copy)]
@*/
/*@struct expanded:take_profit::legacy LegacyParamsContext
@*/
impl LegacyParams { pub open spec fn ok_threshold(x: Fl) -> bool { x.fin() && 0real <= x.v() <= 10real } }
/*@fn juno/src/take_profit/legacy.rs threshold
ret: x
flag: anyloops
spec:
    ensures LegacyParams::ok_threshold(x),
@*/
impl DfltX for LegacyParamsContext {
    open spec fn dv() -> Self { LegacyParamsContext { threshold: None } }
/*@fn expanded:take_profit::legacy LegacyParamsContext::Default::default
ret: r
flag: novis
@*/
}
impl Chromosome for LegacyParams {
    type Context = LegacyParamsContext;
    open spec fn g_len() -> nat { 1nat }
    open spec fn ok(x: Self, c: LegacyParamsContext) -> bool { LegacyParams::ok_threshold(x.threshold) && (c.threshold is Some ==> x.threshold == c.threshold->0) }
    open spec fn cvalid(c: LegacyParamsContext) -> bool { (c.threshold is Some ==> LegacyParams::ok_threshold(c.threshold->0)) }
    open spec fn valid(x: Self) -> bool { LegacyParams::ok_threshold(x.threshold) }
    proof fn ok_valid(x: Self, c: LegacyParamsContext) {  }
/*@fn expanded:take_profit::legacy LegacyParams::Chromosome::len
ret: r
flag: novis
@*/
/*@fn expanded:take_profit::legacy LegacyParams::Chromosome::generate
ret: x
flag: novis
@*/
/*@fn expanded:take_profit::legacy LegacyParams::Chromosome::cross
flag: novis
@*/
/*@fn expanded:take_profit::legacy LegacyParams::Chromosome::mutate
flag: novis
@*/
}
/*@struct juno/src/take_profit/legacy.rs Legacy
@*/
impl Legacy {
/*@fn juno/src/take_profit/legacy.rs Legacy::new
spec:
    requires LegacyParams::valid(*params),
@*/
}
}
pub use legacy::Legacy;
pub use legacy::{LegacyParams, LegacyParamsContext};
pub mod noop { use super::*;
broadcast use fl_axioms;
/*@struct juno/src/take_profit/noop.rs NoopParams
attr:
    #[derive(Clone, Copy)]
@*/
/*@struct expanded:take_profit::noop NoopParamsContext
@*/
impl DfltX for NoopParamsContext {
    open spec fn dv() -> Self { NoopParamsContext {  } }
/*@fn expanded:take_profit::noop NoopParamsContext::Default::default
ret: r
flag: novis
@*/
}
impl Chromosome for NoopParams {
    type Context = NoopParamsContext;
    open spec fn g_len() -> nat { 0nat }
    open spec fn ok(x: Self, c: NoopParamsContext) -> bool { true }
    open spec fn cvalid(c: NoopParamsContext) -> bool { true }
    open spec fn valid(x: Self) -> bool { true }
    proof fn ok_valid(x: Self, c: NoopParamsContext) {  }
/*@fn expanded:take_profit::noop NoopParams::Chromosome::len
ret: r
flag: novis
@*/
/*@fn expanded:take_profit::noop NoopParams::Chromosome::generate
ret: x
flag: novis
@*/
/*@fn expanded:take_profit::noop NoopParams::Chromosome::cross
flag: novis
flag: uncallable
@*/
/*@fn expanded:take_profit::noop NoopParams::Chromosome::mutate
flag: novis
flag: uncallable
@*/
}
/*@struct juno/src/take_profit/noop.rs Noop
@*/
impl Noop {
/*@fn juno/src/take_profit/noop.rs Noop::new
spec:
    requires NoopParams::valid(*_params),
@*/
}
}
pub use noop::Noop;
pub use noop::{NoopParams, NoopParamsContext};
pub mod trending { use super::*;
broadcast use fl_axioms;
/*@struct juno/src/take_profit/trending.rs TrendingParams
attr:
    #[derive(Clone, Copy)]
@*/
/*@struct expanded:take_profit::trending TrendingParamsContext
@*/
impl TrendingParams { pub open spec fn ok_up_thresholds(x: (Fl, Fl)) -> bool { x.0.fin() && x.1.fin() && 0real < x.0.v() < x.1.v() <= 10real } }
/*@fn juno/src/take_profit/trending.rs up_thresholds
ret: x
flag: anyloops
spec:
    ensures TrendingParams::ok_up_thresholds(x),
@*/
impl TrendingParams { pub open spec fn ok_down_thresholds(x: (Fl, Fl)) -> bool { x.0.fin() && x.1.fin() && 0real < x.0.v() < x.1.v() <= 10real } }
/*@fn juno/src/take_profit/trending.rs down_thresholds
ret: x
flag: anyloops
spec:
    ensures TrendingParams::ok_down_thresholds(x),
@*/
impl TrendingParams { pub open spec fn ok_period(x: u32) -> bool { sane(x) } }
/*@fn juno/src/take_profit/trending.rs period
ret: x
flag: anyloops
spec:
    ensures TrendingParams::ok_period(x),
@*/
impl TrendingParams { pub open spec fn ok_lock_threshold(x: bool) -> bool { true } }
/*@fn juno/src/take_profit/trending.rs lock_threshold
ret: x
flag: anyloops
spec:
    ensures TrendingParams::ok_lock_threshold(x),
@*/
impl TrendingParams { pub open spec fn ok_easing(x: Easing) -> bool { true } }
/*@fn juno/src/take_profit/trending.rs easing
ret: x
flag: anyloops
spec:
    ensures TrendingParams::ok_easing(x),
@*/
impl DfltX for TrendingParamsContext {
    open spec fn dv() -> Self { TrendingParamsContext { up_thresholds: None, down_thresholds: None, period: None, lock_threshold: None, easing: None } }
/*@fn expanded:take_profit::trending TrendingParamsContext::Default::default
ret: r
flag: novis
@*/
}
impl Chromosome for TrendingParams {
    type Context = TrendingParamsContext;
    open spec fn g_len() -> nat { 5nat }
    open spec fn ok(x: Self, c: TrendingParamsContext) -> bool { TrendingParams::ok_up_thresholds(x.up_thresholds) && (c.up_thresholds is Some ==> x.up_thresholds == c.up_thresholds->0) && TrendingParams::ok_down_thresholds(x.down_thresholds) && (c.down_thresholds is Some ==> x.down_thresholds == c.down_thresholds->0) && TrendingParams::ok_period(x.period) && (c.period is Some ==> x.period == c.period->0) && TrendingParams::ok_lock_threshold(x.lock_threshold) && (c.lock_threshold is Some ==> x.lock_threshold == c.lock_threshold->0) && TrendingParams::ok_easing(x.easing) && (c.easing is Some ==> x.easing == c.easing->0) }
    open spec fn cvalid(c: TrendingParamsContext) -> bool { (c.up_thresholds is Some ==> TrendingParams::ok_up_thresholds(c.up_thresholds->0)) && (c.down_thresholds is Some ==> TrendingParams::ok_down_thresholds(c.down_thresholds->0)) && (c.period is Some ==> TrendingParams::ok_period(c.period->0)) && (c.lock_threshold is Some ==> TrendingParams::ok_lock_threshold(c.lock_threshold->0)) && (c.easing is Some ==> TrendingParams::ok_easing(c.easing->0)) }
    open spec fn valid(x: Self) -> bool { TrendingParams::ok_up_thresholds(x.up_thresholds) && TrendingParams::ok_down_thresholds(x.down_thresholds) && TrendingParams::ok_period(x.period) && TrendingParams::ok_lock_threshold(x.lock_threshold) && TrendingParams::ok_easing(x.easing) }
    proof fn ok_valid(x: Self, c: TrendingParamsContext) {  }
/*@fn expanded:take_profit::trending TrendingParams::Chromosome::len
ret: r
flag: novis
@*/
/*@fn expanded:take_profit::trending TrendingParams::Chromosome::generate
ret: x
flag: novis
@*/
/*@fn expanded:take_profit::trending TrendingParams::Chromosome::cross
flag: novis
@*/
/*@fn expanded:take_profit::trending TrendingParams::Chromosome::mutate
flag: novis
@*/
}
/*@struct juno/src/take_profit/trending.rs Trending
@*/
impl Trending {
/*@fn juno/src/take_profit/trending.rs Trending::new
spec:
    requires TrendingParams::valid(*params),
@*/
}
}
pub use trending::Trending;
pub use trending::{TrendingParams, TrendingParamsContext};
/*@enum juno/src/take_profit/mod.rs TakeProfitParams
attr:
    #[derive(Clone, Copy)]
@*/
/*@enum expanded:take_profit TakeProfitParamsContext
@*/
impl Tagged for TakeProfitParams { open spec fn tag(&self) -> int { match *self { TakeProfitParams::Basic(_) => 0int, TakeProfitParams::Legacy(_) => 1int, TakeProfitParams::Noop(_) => 2int, TakeProfitParams::Trending(_) => 3int, } } }
impl TakeProfitParams {
    pub open spec fn g_vlen(&self) -> nat { match *self { TakeProfitParams::Basic(_) => BasicParams::g_len(), TakeProfitParams::Legacy(_) => LegacyParams::g_len(), TakeProfitParams::Noop(_) => NoopParams::g_len(), TakeProfitParams::Trending(_) => TrendingParams::g_len(), } }
/*@fn expanded:take_profit TakeProfitParams::variant_len
ret: r
spec:
    ensures r == self.g_vlen(),
@*/
}
//@subst_expr &DEFAULT_TAKE_PROFIT_PARAMS_BASIC_CTX => DEFAULT_TAKE_PROFIT_PARAMS_BASIC_CTX_X()
/*@lazy expanded:take_profit DEFAULT_TAKE_PROFIT_PARAMS_BASIC_CTX
spec:
    ensures r == BasicParamsContext::dv(),
@*/
// the lazily initialised static holds what its initialiser returns
#[verifier::external_body] pub fn DEFAULT_TAKE_PROFIT_PARAMS_BASIC_CTX_X() -> (r: &'static BasicParamsContext) ensures call_ensures(DEFAULT_TAKE_PROFIT_PARAMS_BASIC_CTX_init, (), *r) { unimplemented!() }
//@subst_expr &DEFAULT_TAKE_PROFIT_PARAMS_LEGACY_CTX => DEFAULT_TAKE_PROFIT_PARAMS_LEGACY_CTX_X()
/*@lazy expanded:take_profit DEFAULT_TAKE_PROFIT_PARAMS_LEGACY_CTX
spec:
    ensures r == LegacyParamsContext::dv(),
@*/
// the lazily initialised static holds what its initialiser returns
#[verifier::external_body] pub fn DEFAULT_TAKE_PROFIT_PARAMS_LEGACY_CTX_X() -> (r: &'static LegacyParamsContext) ensures call_ensures(DEFAULT_TAKE_PROFIT_PARAMS_LEGACY_CTX_init, (), *r) { unimplemented!() }
//@subst_expr &DEFAULT_TAKE_PROFIT_PARAMS_NOOP_CTX => DEFAULT_TAKE_PROFIT_PARAMS_NOOP_CTX_X()
/*@lazy expanded:take_profit DEFAULT_TAKE_PROFIT_PARAMS_NOOP_CTX
spec:
    ensures r == NoopParamsContext::dv(),
@*/
// the lazily initialised static holds what its initialiser returns
#[verifier::external_body] pub fn DEFAULT_TAKE_PROFIT_PARAMS_NOOP_CTX_X() -> (r: &'static NoopParamsContext) ensures call_ensures(DEFAULT_TAKE_PROFIT_PARAMS_NOOP_CTX_init, (), *r) { unimplemented!() }
//@subst_expr &DEFAULT_TAKE_PROFIT_PARAMS_TRENDING_CTX => DEFAULT_TAKE_PROFIT_PARAMS_TRENDING_CTX_X()
/*@lazy expanded:take_profit DEFAULT_TAKE_PROFIT_PARAMS_TRENDING_CTX
spec:
    ensures r == TrendingParamsContext::dv(),
@*/
// the lazily initialised static holds what its initialiser returns
#[verifier::external_body] pub fn DEFAULT_TAKE_PROFIT_PARAMS_TRENDING_CTX_X() -> (r: &'static TrendingParamsContext) ensures call_ensures(DEFAULT_TAKE_PROFIT_PARAMS_TRENDING_CTX_init, (), *r) { unimplemented!() }
impl TakeProfitParamsContext {
/*@fn expanded:take_profit TakeProfitParamsContext::basic
ret: r
spec:
    ensures *r == self.sub_basic(),
@*/
    pub open spec fn sub_basic(self) -> BasicParamsContext { match self { TakeProfitParamsContext::Basic(c) => c, _ => BasicParamsContext::dv() } }
/*@fn expanded:take_profit TakeProfitParamsContext::legacy
ret: r
spec:
    ensures *r == self.sub_legacy(),
@*/
    pub open spec fn sub_legacy(self) -> LegacyParamsContext { match self { TakeProfitParamsContext::Legacy(c) => c, _ => LegacyParamsContext::dv() } }
/*@fn expanded:take_profit TakeProfitParamsContext::noop
ret: r
spec:
    ensures *r == self.sub_noop(),
@*/
    pub open spec fn sub_noop(self) -> NoopParamsContext { match self { TakeProfitParamsContext::Noop(c) => c, _ => NoopParamsContext::dv() } }
/*@fn expanded:take_profit TakeProfitParamsContext::trending
ret: r
spec:
    ensures *r == self.sub_trending(),
@*/
    pub open spec fn sub_trending(self) -> TrendingParamsContext { match self { TakeProfitParamsContext::Trending(c) => c, _ => TrendingParamsContext::dv() } }
}
impl DfltX for TakeProfitParamsContext {
    open spec fn dv() -> Self { TakeProfitParamsContext::None }
/*@fn expanded:take_profit TakeProfitParamsContext::Default::default
ret: r
flag: novis
@*/
}
impl Chromosome for TakeProfitParams {
    type Context = TakeProfitParamsContext;
    open spec fn g_len() -> nat { 1 + nmax(BasicParams::g_len(), nmax(LegacyParams::g_len(), nmax(NoopParams::g_len(), TrendingParams::g_len()))) }
    open spec fn ok(x: Self, c: TakeProfitParamsContext) -> bool { match (x, c) { (TakeProfitParams::Basic(p), TakeProfitParamsContext::None) => BasicParams::ok(p, BasicParamsContext::dv()), (TakeProfitParams::Basic(p), TakeProfitParamsContext::Basic(d)) => BasicParams::ok(p, d), (TakeProfitParams::Legacy(p), TakeProfitParamsContext::None) => LegacyParams::ok(p, LegacyParamsContext::dv()), (TakeProfitParams::Legacy(p), TakeProfitParamsContext::Legacy(d)) => LegacyParams::ok(p, d), (TakeProfitParams::Noop(p), TakeProfitParamsContext::None) => NoopParams::ok(p, NoopParamsContext::dv()), (TakeProfitParams::Noop(p), TakeProfitParamsContext::Noop(d)) => NoopParams::ok(p, d), (TakeProfitParams::Trending(p), TakeProfitParamsContext::None) => TrendingParams::ok(p, TrendingParamsContext::dv()), (TakeProfitParams::Trending(p), TakeProfitParamsContext::Trending(d)) => TrendingParams::ok(p, d), _ => false } }
    open spec fn cvalid(c: TakeProfitParamsContext) -> bool { match c { TakeProfitParamsContext::None => true, TakeProfitParamsContext::Basic(d) => BasicParams::cvalid(d), TakeProfitParamsContext::Legacy(d) => LegacyParams::cvalid(d), TakeProfitParamsContext::Noop(d) => NoopParams::cvalid(d), TakeProfitParamsContext::Trending(d) => TrendingParams::cvalid(d), } }
    open spec fn valid(x: Self) -> bool { match x { TakeProfitParams::Basic(p) => BasicParams::valid(p), TakeProfitParams::Legacy(p) => LegacyParams::valid(p), TakeProfitParams::Noop(p) => NoopParams::valid(p), TakeProfitParams::Trending(p) => TrendingParams::valid(p), } }
    proof fn ok_valid(x: Self, c: TakeProfitParamsContext) { match (x, c) { (TakeProfitParams::Basic(p), TakeProfitParamsContext::None) => { BasicParams::ok_valid(p, BasicParamsContext::dv()); }, (TakeProfitParams::Basic(p), TakeProfitParamsContext::Basic(d)) => { BasicParams::ok_valid(p, d); }, (TakeProfitParams::Legacy(p), TakeProfitParamsContext::None) => { LegacyParams::ok_valid(p, LegacyParamsContext::dv()); }, (TakeProfitParams::Legacy(p), TakeProfitParamsContext::Legacy(d)) => { LegacyParams::ok_valid(p, d); }, (TakeProfitParams::Noop(p), TakeProfitParamsContext::None) => { NoopParams::ok_valid(p, NoopParamsContext::dv()); }, (TakeProfitParams::Noop(p), TakeProfitParamsContext::Noop(d)) => { NoopParams::ok_valid(p, d); }, (TakeProfitParams::Trending(p), TakeProfitParamsContext::None) => { TrendingParams::ok_valid(p, TrendingParamsContext::dv()); }, (TakeProfitParams::Trending(p), TakeProfitParamsContext::Trending(d)) => { TrendingParams::ok_valid(p, d); }, _ => {} } }
/*@fn expanded:take_profit TakeProfitParams::Chromosome::len
ret: r
flag: novis
@*/
/*@fn expanded:take_profit TakeProfitParams::Chromosome::generate
ret: x
flag: novis
@*/
/*@fn expanded:take_profit TakeProfitParams::Chromosome::cross
flag: novis
@*/
/*@fn expanded:take_profit TakeProfitParams::Chromosome::mutate
flag: novis
@*/
}
pub enum DynTp { Basic(Basic), Legacy(Legacy), Noop(Noop), Trending(Trending) }
impl Boxed for Basic { type Dyn = DynTp; open spec fn as_dyn(self) -> DynTp { DynTp::Basic(self) } fn boxed(self) -> (r: DynTp) { DynTp::Basic(self) } }
impl Boxed for Legacy { type Dyn = DynTp; open spec fn as_dyn(self) -> DynTp { DynTp::Legacy(self) } fn boxed(self) -> (r: DynTp) { DynTp::Legacy(self) } }
impl Boxed for Noop { type Dyn = DynTp; open spec fn as_dyn(self) -> DynTp { DynTp::Noop(self) } fn boxed(self) -> (r: DynTp) { DynTp::Noop(self) } }
impl Boxed for Trending { type Dyn = DynTp; open spec fn as_dyn(self) -> DynTp { DynTp::Trending(self) } fn boxed(self) -> (r: DynTp) { DynTp::Trending(self) } }
impl TakeProfitParams {
/*@fn juno/src/take_profit/mod.rs TakeProfitParams::construct
ret: r
subst: Box::new => dyn_box
spec:
    requires TakeProfitParams::valid(*self),
@*/
}
}
pub mod strategies { use super::*;
/*@enum juno/src/strategies/sig_osc.rs OscFilter
attr:
    #[derive(Clone, Copy)]
@*/
/*@struct juno/src/strategies/mod.rs StrategyMeta
@*/
pub open spec fn fits(p: SigParams, iv: Interval) -> bool { iv.0 > 0 && (p.buffer_interval is Some ==> iv.0 <= (p.buffer_interval->0).0) }
pub mod double_ma { use super::*;
broadcast use fl_axioms;
/*@struct juno/src/strategies/double_ma.rs DoubleMAParams
attr:
    #[derive(Clone, Copy)]
@*/
/*@struct expanded:strategies::double_ma DoubleMAParamsContext
@*/
impl DoubleMAParams { pub open spec fn ok_mas(x: (MAParams, MAParams)) -> bool { x.0.valid() && x.1.valid() && x.0.n() < x.1.n() } }
/*@fn juno/src/strategies/double_ma.rs mas
ret: x
flag: anyloops
spec:
    ensures DoubleMAParams::ok_mas(x),
@*/
impl DfltX for DoubleMAParamsContext {
    open spec fn dv() -> Self { DoubleMAParamsContext { mas: None } }
/*@fn expanded:strategies::double_ma DoubleMAParamsContext::Default::default
ret: r
flag: novis
@*/
}
impl Chromosome for DoubleMAParams {
    type Context = DoubleMAParamsContext;
    open spec fn g_len() -> nat { 1nat }
    open spec fn ok(x: Self, c: DoubleMAParamsContext) -> bool { DoubleMAParams::ok_mas(x.mas) && (c.mas is Some ==> x.mas == c.mas->0) }
    open spec fn cvalid(c: DoubleMAParamsContext) -> bool { (c.mas is Some ==> DoubleMAParams::ok_mas(c.mas->0)) }
    open spec fn valid(x: Self) -> bool { DoubleMAParams::ok_mas(x.mas) }
    proof fn ok_valid(x: Self, c: DoubleMAParamsContext) {  }
/*@fn expanded:strategies::double_ma DoubleMAParams::Chromosome::len
ret: r
flag: novis
@*/
/*@fn expanded:strategies::double_ma DoubleMAParams::Chromosome::generate
ret: x
flag: novis
@*/
/*@fn expanded:strategies::double_ma DoubleMAParams::Chromosome::cross
flag: novis
@*/
/*@fn expanded:strategies::double_ma DoubleMAParams::Chromosome::mutate
flag: novis
@*/
}
/*@struct juno/src/strategies/double_ma.rs DoubleMA
@*/
impl DoubleMA {
    pub open spec fn mok(&self) -> bool { self.short_ma.mok() && self.long_ma.mok() }
/*@fn juno/src/strategies/double_ma.rs DoubleMA::new
ret: r
spec:
    requires DoubleMAParams::valid(*params),
    ensures r.mok(),
@*/
/*@fn juno/src/strategies/double_ma.rs DoubleMA::Strategy::maturity
ret: r
spec:
    requires self.mok(),
    ensures 0 < r < 0x2000000,
@*/
}
}
pub use double_ma::DoubleMA;
pub use double_ma::{DoubleMAParams, DoubleMAParamsContext};
pub mod double_ma_2 { use super::*;
broadcast use fl_axioms;
/*@struct juno/src/strategies/double_ma_2.rs DoubleMA2Params
attr:
    #[derive(Clone, Copy)]
@*/
/*@struct expanded:strategies::double_ma_2 DoubleMA2ParamsContext
@*/
impl DoubleMA2Params { pub open spec fn ok_neg_threshold(x: Fl) -> bool { x.fin() && -1real <= x.v() < 0real } }
/*@fn juno/src/strategies/double_ma_2.rs neg_threshold
ret: x
flag: anyloops
spec:
    ensures DoubleMA2Params::ok_neg_threshold(x),
@*/
impl DoubleMA2Params { pub open spec fn ok_pos_threshold(x: Fl) -> bool { x.fin() && 0real < x.v() < 1real } }
/*@fn juno/src/strategies/double_ma_2.rs pos_threshold
ret: x
flag: anyloops
spec:
    ensures DoubleMA2Params::ok_pos_threshold(x),
@*/
impl DoubleMA2Params { pub open spec fn ok_mas(x: (MAParams, MAParams)) -> bool { x.0.valid() && x.1.valid() && x.0.n() < x.1.n() } }
/*@fn juno/src/strategies/double_ma_2.rs mas
ret: x
flag: anyloops
spec:
    ensures DoubleMA2Params::ok_mas(x),
@*/
impl DfltX for DoubleMA2ParamsContext {
    open spec fn dv() -> Self { DoubleMA2ParamsContext { neg_threshold: None, pos_threshold: None, mas: None } }
/*@fn expanded:strategies::double_ma_2 DoubleMA2ParamsContext::Default::default
ret: r
flag: novis
@*/
}
impl Chromosome for DoubleMA2Params {
    type Context = DoubleMA2ParamsContext;
    open spec fn g_len() -> nat { 3nat }
    open spec fn ok(x: Self, c: DoubleMA2ParamsContext) -> bool { DoubleMA2Params::ok_neg_threshold(x.neg_threshold) && (c.neg_threshold is Some ==> x.neg_threshold == c.neg_threshold->0) && DoubleMA2Params::ok_pos_threshold(x.pos_threshold) && (c.pos_threshold is Some ==> x.pos_threshold == c.pos_threshold->0) && DoubleMA2Params::ok_mas(x.mas) && (c.mas is Some ==> x.mas == c.mas->0) }
    open spec fn cvalid(c: DoubleMA2ParamsContext) -> bool { (c.neg_threshold is Some ==> DoubleMA2Params::ok_neg_threshold(c.neg_threshold->0)) && (c.pos_threshold is Some ==> DoubleMA2Params::ok_pos_threshold(c.pos_threshold->0)) && (c.mas is Some ==> DoubleMA2Params::ok_mas(c.mas->0)) }
    open spec fn valid(x: Self) -> bool { DoubleMA2Params::ok_neg_threshold(x.neg_threshold) && DoubleMA2Params::ok_pos_threshold(x.pos_threshold) && DoubleMA2Params::ok_mas(x.mas) }
    proof fn ok_valid(x: Self, c: DoubleMA2ParamsContext) {  }
/*@fn expanded:strategies::double_ma_2 DoubleMA2Params::Chromosome::len
ret: r
flag: novis
@*/
/*@fn expanded:strategies::double_ma_2 DoubleMA2Params::Chromosome::generate
ret: x
flag: novis
@*/
/*@fn expanded:strategies::double_ma_2 DoubleMA2Params::Chromosome::cross
flag: novis
@*/
/*@fn expanded:strategies::double_ma_2 DoubleMA2Params::Chromosome::mutate
flag: novis
@*/
}
/*@struct juno/src/strategies/double_ma_2.rs DoubleMA2
@*/
impl DoubleMA2 {
    pub open spec fn mok(&self) -> bool { self.short_ma.mok() && self.long_ma.mok() }
/*@fn juno/src/strategies/double_ma_2.rs DoubleMA2::new
ret: r
spec:
    requires DoubleMA2Params::valid(*params),
    ensures r.mok(),
@*/
/*@fn juno/src/strategies/double_ma_2.rs DoubleMA2::Strategy::maturity
ret: r
spec:
    requires self.mok(),
    ensures 0 < r < 0x2000000,
@*/
}
}
pub use double_ma_2::DoubleMA2;
pub use double_ma_2::{DoubleMA2Params, DoubleMA2ParamsContext};
pub mod stoch { use super::*;
broadcast use fl_axioms;
/*@struct juno/src/strategies/stoch.rs StochParams
attr:
    #[derive(Clone, Copy)]
@*/
/*@struct expanded:strategies::stoch StochParamsContext
@*/
impl StochParams { pub open spec fn ok_k_period(x: u32) -> bool { sane(x) } }
/*@fn juno/src/strategies/stoch.rs k_period
ret: x
flag: anyloops
spec:
    ensures StochParams::ok_k_period(x),
@*/
impl StochParams { pub open spec fn ok_k_sma_period(x: u32) -> bool { sane(x) } }
/*@fn juno/src/strategies/stoch.rs k_sma_period
ret: x
flag: anyloops
spec:
    ensures StochParams::ok_k_sma_period(x),
@*/
impl StochParams { pub open spec fn ok_d_sma_period(x: u32) -> bool { sane(x) } }
/*@fn juno/src/strategies/stoch.rs d_sma_period
ret: x
flag: anyloops
spec:
    ensures StochParams::ok_d_sma_period(x),
@*/
impl StochParams { pub open spec fn ok_up_threshold(x: Fl) -> bool { x.fin() && 50real <= x.v() <= 100real } }
/*@fn juno/src/strategies/stoch.rs up_threshold
ret: x
flag: anyloops
spec:
    ensures StochParams::ok_up_threshold(x),
@*/
impl StochParams { pub open spec fn ok_down_threshold(x: Fl) -> bool { x.fin() && 0real <= x.v() <= 50real } }
/*@fn juno/src/strategies/stoch.rs down_threshold
ret: x
flag: anyloops
spec:
    ensures StochParams::ok_down_threshold(x),
@*/
impl DfltX for StochParamsContext {
    open spec fn dv() -> Self { StochParamsContext { k_period: None, k_sma_period: None, d_sma_period: None, up_threshold: None, down_threshold: None } }
/*@fn expanded:strategies::stoch StochParamsContext::Default::default
ret: r
flag: novis
@*/
}
impl Chromosome for StochParams {
    type Context = StochParamsContext;
    open spec fn g_len() -> nat { 5nat }
    open spec fn ok(x: Self, c: StochParamsContext) -> bool { StochParams::ok_k_period(x.k_period) && (c.k_period is Some ==> x.k_period == c.k_period->0) && StochParams::ok_k_sma_period(x.k_sma_period) && (c.k_sma_period is Some ==> x.k_sma_period == c.k_sma_period->0) && StochParams::ok_d_sma_period(x.d_sma_period) && (c.d_sma_period is Some ==> x.d_sma_period == c.d_sma_period->0) && StochParams::ok_up_threshold(x.up_threshold) && (c.up_threshold is Some ==> x.up_threshold == c.up_threshold->0) && StochParams::ok_down_threshold(x.down_threshold) && (c.down_threshold is Some ==> x.down_threshold == c.down_threshold->0) }
    open spec fn cvalid(c: StochParamsContext) -> bool { (c.k_period is Some ==> StochParams::ok_k_period(c.k_period->0)) && (c.k_sma_period is Some ==> StochParams::ok_k_sma_period(c.k_sma_period->0)) && (c.d_sma_period is Some ==> StochParams::ok_d_sma_period(c.d_sma_period->0)) && (c.up_threshold is Some ==> StochParams::ok_up_threshold(c.up_threshold->0)) && (c.down_threshold is Some ==> StochParams::ok_down_threshold(c.down_threshold->0)) }
    open spec fn valid(x: Self) -> bool { StochParams::ok_k_period(x.k_period) && StochParams::ok_k_sma_period(x.k_sma_period) && StochParams::ok_d_sma_period(x.d_sma_period) && StochParams::ok_up_threshold(x.up_threshold) && StochParams::ok_down_threshold(x.down_threshold) }
    proof fn ok_valid(x: Self, c: StochParamsContext) {  }
/*@fn expanded:strategies::stoch StochParams::Chromosome::len
ret: r
flag: novis
@*/
/*@fn expanded:strategies::stoch StochParams::Chromosome::generate
ret: x
flag: novis
@*/
/*@fn expanded:strategies::stoch StochParams::Chromosome::cross
flag: novis
@*/
/*@fn expanded:strategies::stoch StochParams::Chromosome::mutate
flag: novis
@*/
}
/*@struct juno/src/strategies/stoch.rs Stoch
@*/
impl Stoch {
    pub open spec fn mok(&self) -> bool { self.indicator.mok() }
/*@fn juno/src/strategies/stoch.rs Stoch::new
ret: r
spec:
    requires StochParams::valid(*params),
    ensures r.mok(),
@*/
/*@fn juno/src/strategies/stoch.rs Stoch::Strategy::maturity
ret: r
spec:
    requires self.mok(),
    ensures 0 < r < 0x2000000,
@*/
}
}
pub use stoch::Stoch;
pub use stoch::{StochParams, StochParamsContext};
pub mod double_ma_stoch { use super::*;
broadcast use fl_axioms;
/*@struct juno/src/strategies/double_ma_stoch.rs DoubleMAStochParams
attr:
    #[derive(Clone, Copy)]
@*/
/*@struct expanded:strategies::double_ma_stoch DoubleMAStochParamsContext
@*/
impl DfltX for DoubleMAStochParamsContext {
    open spec fn dv() -> Self { DoubleMAStochParamsContext { double_ma: DoubleMAParamsContext::dv(), stoch: StochParamsContext::dv() } }
/*@fn expanded:strategies::double_ma_stoch DoubleMAStochParamsContext::Default::default
ret: r
flag: novis
@*/
}
impl Chromosome for DoubleMAStochParams {
    type Context = DoubleMAStochParamsContext;
    open spec fn g_len() -> nat { DoubleMAParams::g_len() + StochParams::g_len() + 0nat }
    open spec fn ok(x: Self, c: DoubleMAStochParamsContext) -> bool { DoubleMAParams::ok(x.double_ma, c.double_ma) && StochParams::ok(x.stoch, c.stoch) }
    open spec fn cvalid(c: DoubleMAStochParamsContext) -> bool { DoubleMAParams::cvalid(c.double_ma) && StochParams::cvalid(c.stoch) }
    open spec fn valid(x: Self) -> bool { DoubleMAParams::valid(x.double_ma) && StochParams::valid(x.stoch) }
    proof fn ok_valid(x: Self, c: DoubleMAStochParamsContext) { DoubleMAParams::ok_valid(x.double_ma, c.double_ma); StochParams::ok_valid(x.stoch, c.stoch);  }
/*@fn expanded:strategies::double_ma_stoch DoubleMAStochParams::Chromosome::len
ret: r
flag: novis
@*/
/*@fn expanded:strategies::double_ma_stoch DoubleMAStochParams::Chromosome::generate
ret: x
flag: novis
@*/
/*@fn expanded:strategies::double_ma_stoch DoubleMAStochParams::Chromosome::cross
flag: novis
@*/
/*@fn expanded:strategies::double_ma_stoch DoubleMAStochParams::Chromosome::mutate
flag: novis
@*/
}
/*@struct juno/src/strategies/double_ma_stoch.rs DoubleMAStoch
@*/
impl DoubleMAStoch {
    pub open spec fn mok(&self) -> bool { self.double_ma.mok() && self.stoch.mok() }
/*@fn juno/src/strategies/double_ma_stoch.rs DoubleMAStoch::new
ret: r
spec:
    requires DoubleMAStochParams::valid(*params),
    ensures r.mok(),
@*/
/*@fn juno/src/strategies/double_ma_stoch.rs DoubleMAStoch::Strategy::maturity
ret: r
spec:
    requires self.mok(),
    ensures 0 < r < 0x2000000,
@*/
}
}
pub use double_ma_stoch::DoubleMAStoch;
pub use double_ma_stoch::{DoubleMAStochParams, DoubleMAStochParamsContext};
pub mod four_week_rule { use super::*;
broadcast use fl_axioms;
/*@struct juno/src/strategies/four_week_rule.rs FourWeekRuleParams
attr:
    #[derive(Clone, Copy)]
@*/
/*@struct expanded:strategies::four_week_rule FourWeekRuleParamsContext
@*/
impl FourWeekRuleParams { pub open spec fn ok_period(x: u32) -> bool { sane(x) } }
/*@fn juno/src/strategies/four_week_rule.rs period
ret: x
flag: anyloops
spec:
    ensures FourWeekRuleParams::ok_period(x),
@*/
impl FourWeekRuleParams { pub open spec fn ok_ma(x: MAParams) -> bool { x.valid() } }
/*@fn juno/src/strategies/four_week_rule.rs ma
ret: x
flag: anyloops
spec:
    ensures FourWeekRuleParams::ok_ma(x),
@*/
impl DfltX for FourWeekRuleParamsContext {
    open spec fn dv() -> Self { FourWeekRuleParamsContext { period: None, ma: None } }
/*@fn expanded:strategies::four_week_rule FourWeekRuleParamsContext::Default::default
ret: r
flag: novis
@*/
}
impl Chromosome for FourWeekRuleParams {
    type Context = FourWeekRuleParamsContext;
    open spec fn g_len() -> nat { 2nat }
    open spec fn ok(x: Self, c: FourWeekRuleParamsContext) -> bool { FourWeekRuleParams::ok_period(x.period) && (c.period is Some ==> x.period == c.period->0) && FourWeekRuleParams::ok_ma(x.ma) && (c.ma is Some ==> x.ma == c.ma->0) }
    open spec fn cvalid(c: FourWeekRuleParamsContext) -> bool { (c.period is Some ==> FourWeekRuleParams::ok_period(c.period->0)) && (c.ma is Some ==> FourWeekRuleParams::ok_ma(c.ma->0)) }
    open spec fn valid(x: Self) -> bool { FourWeekRuleParams::ok_period(x.period) && FourWeekRuleParams::ok_ma(x.ma) }
    proof fn ok_valid(x: Self, c: FourWeekRuleParamsContext) {  }
/*@fn expanded:strategies::four_week_rule FourWeekRuleParams::Chromosome::len
ret: r
flag: novis
@*/
/*@fn expanded:strategies::four_week_rule FourWeekRuleParams::Chromosome::generate
ret: x
flag: novis
@*/
/*@fn expanded:strategies::four_week_rule FourWeekRuleParams::Chromosome::cross
flag: novis
@*/
/*@fn expanded:strategies::four_week_rule FourWeekRuleParams::Chromosome::mutate
flag: novis
@*/
}
/*@struct juno/src/strategies/four_week_rule.rs FourWeekRule
@*/
impl FourWeekRule {
    pub open spec fn mok(&self) -> bool { 0 < self.t1 < 0x2000000 }
/*@fn juno/src/strategies/four_week_rule.rs FourWeekRule::new
ret: r
spec:
    requires FourWeekRuleParams::valid(*params),
    ensures r.mok(),
@*/
/*@fn juno/src/strategies/four_week_rule.rs FourWeekRule::Strategy::maturity
ret: r
spec:
    requires self.mok(),
    ensures 0 < r < 0x2000000,
@*/
}
}
pub use four_week_rule::FourWeekRule;
pub use four_week_rule::{FourWeekRuleParams, FourWeekRuleParamsContext};
pub mod macd { use super::*;
broadcast use fl_axioms;
/*@struct juno/src/strategies/macd.rs MacdParams
attr:
    #[derive(Clone, Copy)]
@*/
/*@struct expanded:strategies::macd MacdParamsContext
@*/
impl MacdParams { pub open spec fn ok_periods(x: (u32, u32)) -> bool { sane(x.0) && sane(x.1) && x.0 < x.1 } }
/*@fn juno/src/strategies/macd.rs periods
ret: x
flag: anyloops
spec:
    ensures MacdParams::ok_periods(x),
@*/
impl MacdParams { pub open spec fn ok_signal_period(x: u32) -> bool { sane(x) } }
/*@fn juno/src/strategies/macd.rs signal_period
ret: x
flag: anyloops
spec:
    ensures MacdParams::ok_signal_period(x),
@*/
impl DfltX for MacdParamsContext {
    open spec fn dv() -> Self { MacdParamsContext { periods: None, signal_period: None } }
/*@fn expanded:strategies::macd MacdParamsContext::Default::default
ret: r
flag: novis
@*/
}
impl Chromosome for MacdParams {
    type Context = MacdParamsContext;
    open spec fn g_len() -> nat { 2nat }
    open spec fn ok(x: Self, c: MacdParamsContext) -> bool { MacdParams::ok_periods(x.periods) && (c.periods is Some ==> x.periods == c.periods->0) && MacdParams::ok_signal_period(x.signal_period) && (c.signal_period is Some ==> x.signal_period == c.signal_period->0) }
    open spec fn cvalid(c: MacdParamsContext) -> bool { (c.periods is Some ==> MacdParams::ok_periods(c.periods->0)) && (c.signal_period is Some ==> MacdParams::ok_signal_period(c.signal_period->0)) }
    open spec fn valid(x: Self) -> bool { MacdParams::ok_periods(x.periods) && MacdParams::ok_signal_period(x.signal_period) }
    proof fn ok_valid(x: Self, c: MacdParamsContext) {  }
/*@fn expanded:strategies::macd MacdParams::Chromosome::len
ret: r
flag: novis
@*/
/*@fn expanded:strategies::macd MacdParams::Chromosome::generate
ret: x
flag: novis
@*/
/*@fn expanded:strategies::macd MacdParams::Chromosome::cross
flag: novis
@*/
/*@fn expanded:strategies::macd MacdParams::Chromosome::mutate
flag: novis
@*/
}
/*@struct juno/src/strategies/macd.rs Macd
@*/
impl Macd {
    pub open spec fn mok(&self) -> bool { self.macd.mok() }
/*@fn juno/src/strategies/macd.rs Macd::new
ret: r
spec:
    requires MacdParams::valid(*params),
    ensures r.mok(),
@*/
/*@fn juno/src/strategies/macd.rs Macd::Strategy::maturity
ret: r
spec:
    requires self.mok(),
    ensures 0 < r < 0x2000000,
@*/
}
}
pub use macd::Macd;
pub use macd::{MacdParams, MacdParamsContext};
pub mod rsi { use super::*;
broadcast use fl_axioms;
/*@struct juno/src/strategies/rsi.rs RsiParams
attr:
    #[derive(Clone, Copy)]
@*/
/*@struct expanded:strategies::rsi RsiParamsContext
@*/
impl RsiParams { pub open spec fn ok_period(x: u32) -> bool { sane(x) } }
/*@fn juno/src/strategies/rsi.rs period
ret: x
flag: anyloops
spec:
    ensures RsiParams::ok_period(x),
@*/
impl RsiParams { pub open spec fn ok_up_threshold(x: Fl) -> bool { x.fin() && 50real <= x.v() <= 100real } }
/*@fn juno/src/strategies/rsi.rs up_threshold
ret: x
flag: anyloops
spec:
    ensures RsiParams::ok_up_threshold(x),
@*/
impl RsiParams { pub open spec fn ok_down_threshold(x: Fl) -> bool { x.fin() && 0real <= x.v() <= 50real } }
/*@fn juno/src/strategies/rsi.rs down_threshold
ret: x
flag: anyloops
spec:
    ensures RsiParams::ok_down_threshold(x),
@*/
impl DfltX for RsiParamsContext {
    open spec fn dv() -> Self { RsiParamsContext { period: None, up_threshold: None, down_threshold: None } }
/*@fn expanded:strategies::rsi RsiParamsContext::Default::default
ret: r
flag: novis
@*/
}
impl Chromosome for RsiParams {
    type Context = RsiParamsContext;
    open spec fn g_len() -> nat { 3nat }
    open spec fn ok(x: Self, c: RsiParamsContext) -> bool { RsiParams::ok_period(x.period) && (c.period is Some ==> x.period == c.period->0) && RsiParams::ok_up_threshold(x.up_threshold) && (c.up_threshold is Some ==> x.up_threshold == c.up_threshold->0) && RsiParams::ok_down_threshold(x.down_threshold) && (c.down_threshold is Some ==> x.down_threshold == c.down_threshold->0) }
    open spec fn cvalid(c: RsiParamsContext) -> bool { (c.period is Some ==> RsiParams::ok_period(c.period->0)) && (c.up_threshold is Some ==> RsiParams::ok_up_threshold(c.up_threshold->0)) && (c.down_threshold is Some ==> RsiParams::ok_down_threshold(c.down_threshold->0)) }
    open spec fn valid(x: Self) -> bool { RsiParams::ok_period(x.period) && RsiParams::ok_up_threshold(x.up_threshold) && RsiParams::ok_down_threshold(x.down_threshold) }
    proof fn ok_valid(x: Self, c: RsiParamsContext) {  }
/*@fn expanded:strategies::rsi RsiParams::Chromosome::len
ret: r
flag: novis
@*/
/*@fn expanded:strategies::rsi RsiParams::Chromosome::generate
ret: x
flag: novis
@*/
/*@fn expanded:strategies::rsi RsiParams::Chromosome::cross
flag: novis
@*/
/*@fn expanded:strategies::rsi RsiParams::Chromosome::mutate
flag: novis
@*/
}
/*@struct juno/src/strategies/rsi.rs Rsi
@*/
impl Rsi {
    pub open spec fn mok(&self) -> bool { self.indicator.mok() }
/*@fn juno/src/strategies/rsi.rs Rsi::new
ret: r
spec:
    requires RsiParams::valid(*params),
    ensures r.mok(),
@*/
/*@fn juno/src/strategies/rsi.rs Rsi::Strategy::maturity
ret: r
spec:
    requires self.mok(),
    ensures 0 < r < 0x2000000,
@*/
}
}
pub use rsi::Rsi;
pub use rsi::{RsiParams, RsiParamsContext};
pub mod single_ma { use super::*;
broadcast use fl_axioms;
/*@struct juno/src/strategies/single_ma.rs SingleMAParams
attr:
    #[derive(Clone, Copy)]
@*/
/*@struct expanded:strategies::single_ma SingleMAParamsContext
@*/
impl SingleMAParams { pub open spec fn ok_ma(x: MAParams) -> bool { x.valid() } }
/*@fn juno/src/strategies/single_ma.rs ma
ret: x
flag: anyloops
spec:
    ensures SingleMAParams::ok_ma(x),
@*/
impl DfltX for SingleMAParamsContext {
    open spec fn dv() -> Self { SingleMAParamsContext { ma: None } }
/*@fn expanded:strategies::single_ma SingleMAParamsContext::Default::default
ret: r
flag: novis
@*/
}
impl Chromosome for SingleMAParams {
    type Context = SingleMAParamsContext;
    open spec fn g_len() -> nat { 1nat }
    open spec fn ok(x: Self, c: SingleMAParamsContext) -> bool { SingleMAParams::ok_ma(x.ma) && (c.ma is Some ==> x.ma == c.ma->0) }
    open spec fn cvalid(c: SingleMAParamsContext) -> bool { (c.ma is Some ==> SingleMAParams::ok_ma(c.ma->0)) }
    open spec fn valid(x: Self) -> bool { SingleMAParams::ok_ma(x.ma) }
    proof fn ok_valid(x: Self, c: SingleMAParamsContext) {  }
/*@fn expanded:strategies::single_ma SingleMAParams::Chromosome::len
ret: r
flag: novis
@*/
/*@fn expanded:strategies::single_ma SingleMAParams::Chromosome::generate
ret: x
flag: novis
@*/
/*@fn expanded:strategies::single_ma SingleMAParams::Chromosome::cross
flag: novis
@*/
/*@fn expanded:strategies::single_ma SingleMAParams::Chromosome::mutate
flag: novis
@*/
}
/*@struct juno/src/strategies/single_ma.rs SingleMA
@*/
impl SingleMA {
    pub open spec fn mok(&self) -> bool { 0 < self.t1 < 0x2000000 }
/*@fn juno/src/strategies/single_ma.rs SingleMA::new
ret: r
spec:
    requires SingleMAParams::valid(*params),
    ensures r.mok(),
@*/
/*@fn juno/src/strategies/single_ma.rs SingleMA::Strategy::maturity
ret: r
spec:
    requires self.mok(),
    ensures 0 < r < 0x2000000,
@*/
}
}
pub use single_ma::SingleMA;
pub use single_ma::{SingleMAParams, SingleMAParamsContext};
pub mod triple_ma { use super::*;
broadcast use fl_axioms;
/*@struct juno/src/strategies/triple_ma.rs TripleMAParams
attr:
    #[derive(Clone, Copy)]
@*/
/*@struct expanded:strategies::triple_ma TripleMAParamsContext
@*/
impl TripleMAParams { pub open spec fn ok_mas(x: (MAParams, MAParams, MAParams)) -> bool { x.0.valid() && x.1.valid() && x.2.valid() && x.0.n() < x.1.n() < x.2.n() } }
/*@fn juno/src/strategies/triple_ma.rs mas
ret: x
flag: anyloops
spec:
    ensures TripleMAParams::ok_mas(x),
@*/
impl DfltX for TripleMAParamsContext {
    open spec fn dv() -> Self { TripleMAParamsContext { mas: None } }
/*@fn expanded:strategies::triple_ma TripleMAParamsContext::Default::default
ret: r
flag: novis
@*/
}
impl Chromosome for TripleMAParams {
    type Context = TripleMAParamsContext;
    open spec fn g_len() -> nat { 1nat }
    open spec fn ok(x: Self, c: TripleMAParamsContext) -> bool { TripleMAParams::ok_mas(x.mas) && (c.mas is Some ==> x.mas == c.mas->0) }
    open spec fn cvalid(c: TripleMAParamsContext) -> bool { (c.mas is Some ==> TripleMAParams::ok_mas(c.mas->0)) }
    open spec fn valid(x: Self) -> bool { TripleMAParams::ok_mas(x.mas) }
    proof fn ok_valid(x: Self, c: TripleMAParamsContext) {  }
/*@fn expanded:strategies::triple_ma TripleMAParams::Chromosome::len
ret: r
flag: novis
@*/
/*@fn expanded:strategies::triple_ma TripleMAParams::Chromosome::generate
ret: x
flag: novis
@*/
/*@fn expanded:strategies::triple_ma TripleMAParams::Chromosome::cross
flag: novis
@*/
/*@fn expanded:strategies::triple_ma TripleMAParams::Chromosome::mutate
flag: novis
@*/
}
/*@struct juno/src/strategies/triple_ma.rs TripleMA
@*/
impl TripleMA {
    pub open spec fn mok(&self) -> bool { self.short_ma.mok() && self.medium_ma.mok() && self.long_ma.mok() }
/*@fn juno/src/strategies/triple_ma.rs TripleMA::new
ret: r
spec:
    requires TripleMAParams::valid(*params),
    ensures r.mok(),
@*/
/*@fn juno/src/strategies/triple_ma.rs TripleMA::Strategy::maturity
ret: r
spec:
    requires self.mok(),
    ensures 0 < r < 0x2000000,
@*/
}
}
pub use triple_ma::TripleMA;
pub use triple_ma::{TripleMAParams, TripleMAParamsContext};
/*@enum juno/src/strategies/mod.rs SignalParams
attr:
    #[derive(Clone, Copy)]
@*/
/*@enum expanded:strategies SignalParamsContext
@*/
impl Tagged for SignalParams { open spec fn tag(&self) -> int { match *self { SignalParams::DoubleMA(_) => 0int, SignalParams::DoubleMA2(_) => 1int, SignalParams::DoubleMAStoch(_) => 2int, SignalParams::FourWeekRule(_) => 3int, SignalParams::Macd(_) => 4int, SignalParams::SingleMA(_) => 5int, SignalParams::TripleMA(_) => 6int, } } }
impl SignalParams {
    pub open spec fn g_vlen(&self) -> nat { match *self { SignalParams::DoubleMA(_) => DoubleMAParams::g_len(), SignalParams::DoubleMA2(_) => DoubleMA2Params::g_len(), SignalParams::DoubleMAStoch(_) => DoubleMAStochParams::g_len(), SignalParams::FourWeekRule(_) => FourWeekRuleParams::g_len(), SignalParams::Macd(_) => MacdParams::g_len(), SignalParams::SingleMA(_) => SingleMAParams::g_len(), SignalParams::TripleMA(_) => TripleMAParams::g_len(), } }
/*@fn expanded:strategies SignalParams::variant_len
ret: r
spec:
    ensures r == self.g_vlen(),
@*/
}
//@subst_expr &DEFAULT_SIGNAL_PARAMS_DOUBLE_MA_CTX => DEFAULT_SIGNAL_PARAMS_DOUBLE_MA_CTX_X()
/*@lazy expanded:strategies DEFAULT_SIGNAL_PARAMS_DOUBLE_MA_CTX
spec:
    ensures r == DoubleMAParamsContext::dv(),
@*/
// the lazily initialised static holds what its initialiser returns
#[verifier::external_body] pub fn DEFAULT_SIGNAL_PARAMS_DOUBLE_MA_CTX_X() -> (r: &'static DoubleMAParamsContext) ensures call_ensures(DEFAULT_SIGNAL_PARAMS_DOUBLE_MA_CTX_init, (), *r) { unimplemented!() }
//@subst_expr &DEFAULT_SIGNAL_PARAMS_DOUBLE_MA_2_CTX => DEFAULT_SIGNAL_PARAMS_DOUBLE_MA_2_CTX_X()
/*@lazy expanded:strategies DEFAULT_SIGNAL_PARAMS_DOUBLE_MA_2_CTX
spec:
    ensures r == DoubleMA2ParamsContext::dv(),
@*/
// the lazily initialised static holds what its initialiser returns
#[verifier::external_body] pub fn DEFAULT_SIGNAL_PARAMS_DOUBLE_MA_2_CTX_X() -> (r: &'static DoubleMA2ParamsContext) ensures call_ensures(DEFAULT_SIGNAL_PARAMS_DOUBLE_MA_2_CTX_init, (), *r) { unimplemented!() }
//@subst_expr &DEFAULT_SIGNAL_PARAMS_DOUBLE_MA_STOCH_CTX => DEFAULT_SIGNAL_PARAMS_DOUBLE_MA_STOCH_CTX_X()
/*@lazy expanded:strategies DEFAULT_SIGNAL_PARAMS_DOUBLE_MA_STOCH_CTX
spec:
    ensures r == DoubleMAStochParamsContext::dv(),
@*/
// the lazily initialised static holds what its initialiser returns
#[verifier::external_body] pub fn DEFAULT_SIGNAL_PARAMS_DOUBLE_MA_STOCH_CTX_X() -> (r: &'static DoubleMAStochParamsContext) ensures call_ensures(DEFAULT_SIGNAL_PARAMS_DOUBLE_MA_STOCH_CTX_init, (), *r) { unimplemented!() }
//@subst_expr &DEFAULT_SIGNAL_PARAMS_FOUR_WEEK_RULE_CTX => DEFAULT_SIGNAL_PARAMS_FOUR_WEEK_RULE_CTX_X()
/*@lazy expanded:strategies DEFAULT_SIGNAL_PARAMS_FOUR_WEEK_RULE_CTX
spec:
    ensures r == FourWeekRuleParamsContext::dv(),
@*/
// the lazily initialised static holds what its initialiser returns
#[verifier::external_body] pub fn DEFAULT_SIGNAL_PARAMS_FOUR_WEEK_RULE_CTX_X() -> (r: &'static FourWeekRuleParamsContext) ensures call_ensures(DEFAULT_SIGNAL_PARAMS_FOUR_WEEK_RULE_CTX_init, (), *r) { unimplemented!() }
//@subst_expr &DEFAULT_SIGNAL_PARAMS_MACD_CTX => DEFAULT_SIGNAL_PARAMS_MACD_CTX_X()
/*@lazy expanded:strategies DEFAULT_SIGNAL_PARAMS_MACD_CTX
spec:
    ensures r == MacdParamsContext::dv(),
@*/
// the lazily initialised static holds what its initialiser returns
#[verifier::external_body] pub fn DEFAULT_SIGNAL_PARAMS_MACD_CTX_X() -> (r: &'static MacdParamsContext) ensures call_ensures(DEFAULT_SIGNAL_PARAMS_MACD_CTX_init, (), *r) { unimplemented!() }
//@subst_expr &DEFAULT_SIGNAL_PARAMS_SINGLE_MA_CTX => DEFAULT_SIGNAL_PARAMS_SINGLE_MA_CTX_X()
/*@lazy expanded:strategies DEFAULT_SIGNAL_PARAMS_SINGLE_MA_CTX
spec:
    ensures r == SingleMAParamsContext::dv(),
@*/
// the lazily initialised static holds what its initialiser returns
#[verifier::external_body] pub fn DEFAULT_SIGNAL_PARAMS_SINGLE_MA_CTX_X() -> (r: &'static SingleMAParamsContext) ensures call_ensures(DEFAULT_SIGNAL_PARAMS_SINGLE_MA_CTX_init, (), *r) { unimplemented!() }
//@subst_expr &DEFAULT_SIGNAL_PARAMS_TRIPLE_MA_CTX => DEFAULT_SIGNAL_PARAMS_TRIPLE_MA_CTX_X()
/*@lazy expanded:strategies DEFAULT_SIGNAL_PARAMS_TRIPLE_MA_CTX
spec:
    ensures r == TripleMAParamsContext::dv(),
@*/
// the lazily initialised static holds what its initialiser returns
#[verifier::external_body] pub fn DEFAULT_SIGNAL_PARAMS_TRIPLE_MA_CTX_X() -> (r: &'static TripleMAParamsContext) ensures call_ensures(DEFAULT_SIGNAL_PARAMS_TRIPLE_MA_CTX_init, (), *r) { unimplemented!() }
impl SignalParamsContext {
/*@fn expanded:strategies SignalParamsContext::doublema
ret: r
spec:
    ensures *r == self.sub_doublema(),
@*/
    pub open spec fn sub_doublema(self) -> DoubleMAParamsContext { match self { SignalParamsContext::DoubleMA(c) => c, _ => DoubleMAParamsContext::dv() } }
/*@fn expanded:strategies SignalParamsContext::doublema2
ret: r
spec:
    ensures *r == self.sub_doublema2(),
@*/
    pub open spec fn sub_doublema2(self) -> DoubleMA2ParamsContext { match self { SignalParamsContext::DoubleMA2(c) => c, _ => DoubleMA2ParamsContext::dv() } }
/*@fn expanded:strategies SignalParamsContext::doublemastoch
ret: r
spec:
    ensures *r == self.sub_doublemastoch(),
@*/
    pub open spec fn sub_doublemastoch(self) -> DoubleMAStochParamsContext { match self { SignalParamsContext::DoubleMAStoch(c) => c, _ => DoubleMAStochParamsContext::dv() } }
/*@fn expanded:strategies SignalParamsContext::fourweekrule
ret: r
spec:
    ensures *r == self.sub_fourweekrule(),
@*/
    pub open spec fn sub_fourweekrule(self) -> FourWeekRuleParamsContext { match self { SignalParamsContext::FourWeekRule(c) => c, _ => FourWeekRuleParamsContext::dv() } }
/*@fn expanded:strategies SignalParamsContext::macd
ret: r
spec:
    ensures *r == self.sub_macd(),
@*/
    pub open spec fn sub_macd(self) -> MacdParamsContext { match self { SignalParamsContext::Macd(c) => c, _ => MacdParamsContext::dv() } }
/*@fn expanded:strategies SignalParamsContext::singlema
ret: r
spec:
    ensures *r == self.sub_singlema(),
@*/
    pub open spec fn sub_singlema(self) -> SingleMAParamsContext { match self { SignalParamsContext::SingleMA(c) => c, _ => SingleMAParamsContext::dv() } }
/*@fn expanded:strategies SignalParamsContext::triplema
ret: r
spec:
    ensures *r == self.sub_triplema(),
@*/
    pub open spec fn sub_triplema(self) -> TripleMAParamsContext { match self { SignalParamsContext::TripleMA(c) => c, _ => TripleMAParamsContext::dv() } }
}
impl DfltX for SignalParamsContext {
    open spec fn dv() -> Self { SignalParamsContext::None }
/*@fn expanded:strategies SignalParamsContext::Default::default
ret: r
flag: novis
@*/
}
impl Chromosome for SignalParams {
    type Context = SignalParamsContext;
    open spec fn g_len() -> nat { 1 + nmax(DoubleMAParams::g_len(), nmax(DoubleMA2Params::g_len(), nmax(DoubleMAStochParams::g_len(), nmax(FourWeekRuleParams::g_len(), nmax(MacdParams::g_len(), nmax(SingleMAParams::g_len(), TripleMAParams::g_len())))))) }
    open spec fn ok(x: Self, c: SignalParamsContext) -> bool { match (x, c) { (SignalParams::DoubleMA(p), SignalParamsContext::None) => DoubleMAParams::ok(p, DoubleMAParamsContext::dv()), (SignalParams::DoubleMA(p), SignalParamsContext::DoubleMA(d)) => DoubleMAParams::ok(p, d), (SignalParams::DoubleMA2(p), SignalParamsContext::None) => DoubleMA2Params::ok(p, DoubleMA2ParamsContext::dv()), (SignalParams::DoubleMA2(p), SignalParamsContext::DoubleMA2(d)) => DoubleMA2Params::ok(p, d), (SignalParams::DoubleMAStoch(p), SignalParamsContext::None) => DoubleMAStochParams::ok(p, DoubleMAStochParamsContext::dv()), (SignalParams::DoubleMAStoch(p), SignalParamsContext::DoubleMAStoch(d)) => DoubleMAStochParams::ok(p, d), (SignalParams::FourWeekRule(p), SignalParamsContext::None) => FourWeekRuleParams::ok(p, FourWeekRuleParamsContext::dv()), (SignalParams::FourWeekRule(p), SignalParamsContext::FourWeekRule(d)) => FourWeekRuleParams::ok(p, d), (SignalParams::Macd(p), SignalParamsContext::None) => MacdParams::ok(p, MacdParamsContext::dv()), (SignalParams::Macd(p), SignalParamsContext::Macd(d)) => MacdParams::ok(p, d), (SignalParams::SingleMA(p), SignalParamsContext::None) => SingleMAParams::ok(p, SingleMAParamsContext::dv()), (SignalParams::SingleMA(p), SignalParamsContext::SingleMA(d)) => SingleMAParams::ok(p, d), (SignalParams::TripleMA(p), SignalParamsContext::None) => TripleMAParams::ok(p, TripleMAParamsContext::dv()), (SignalParams::TripleMA(p), SignalParamsContext::TripleMA(d)) => TripleMAParams::ok(p, d), _ => false } }
    open spec fn cvalid(c: SignalParamsContext) -> bool { match c { SignalParamsContext::None => true, SignalParamsContext::DoubleMA(d) => DoubleMAParams::cvalid(d), SignalParamsContext::DoubleMA2(d) => DoubleMA2Params::cvalid(d), SignalParamsContext::DoubleMAStoch(d) => DoubleMAStochParams::cvalid(d), SignalParamsContext::FourWeekRule(d) => FourWeekRuleParams::cvalid(d), SignalParamsContext::Macd(d) => MacdParams::cvalid(d), SignalParamsContext::SingleMA(d) => SingleMAParams::cvalid(d), SignalParamsContext::TripleMA(d) => TripleMAParams::cvalid(d), } }
    open spec fn valid(x: Self) -> bool { match x { SignalParams::DoubleMA(p) => DoubleMAParams::valid(p), SignalParams::DoubleMA2(p) => DoubleMA2Params::valid(p), SignalParams::DoubleMAStoch(p) => DoubleMAStochParams::valid(p), SignalParams::FourWeekRule(p) => FourWeekRuleParams::valid(p), SignalParams::Macd(p) => MacdParams::valid(p), SignalParams::SingleMA(p) => SingleMAParams::valid(p), SignalParams::TripleMA(p) => TripleMAParams::valid(p), } }
    proof fn ok_valid(x: Self, c: SignalParamsContext) { match (x, c) { (SignalParams::DoubleMA(p), SignalParamsContext::None) => { DoubleMAParams::ok_valid(p, DoubleMAParamsContext::dv()); }, (SignalParams::DoubleMA(p), SignalParamsContext::DoubleMA(d)) => { DoubleMAParams::ok_valid(p, d); }, (SignalParams::DoubleMA2(p), SignalParamsContext::None) => { DoubleMA2Params::ok_valid(p, DoubleMA2ParamsContext::dv()); }, (SignalParams::DoubleMA2(p), SignalParamsContext::DoubleMA2(d)) => { DoubleMA2Params::ok_valid(p, d); }, (SignalParams::DoubleMAStoch(p), SignalParamsContext::None) => { DoubleMAStochParams::ok_valid(p, DoubleMAStochParamsContext::dv()); }, (SignalParams::DoubleMAStoch(p), SignalParamsContext::DoubleMAStoch(d)) => { DoubleMAStochParams::ok_valid(p, d); }, (SignalParams::FourWeekRule(p), SignalParamsContext::None) => { FourWeekRuleParams::ok_valid(p, FourWeekRuleParamsContext::dv()); }, (SignalParams::FourWeekRule(p), SignalParamsContext::FourWeekRule(d)) => { FourWeekRuleParams::ok_valid(p, d); }, (SignalParams::Macd(p), SignalParamsContext::None) => { MacdParams::ok_valid(p, MacdParamsContext::dv()); }, (SignalParams::Macd(p), SignalParamsContext::Macd(d)) => { MacdParams::ok_valid(p, d); }, (SignalParams::SingleMA(p), SignalParamsContext::None) => { SingleMAParams::ok_valid(p, SingleMAParamsContext::dv()); }, (SignalParams::SingleMA(p), SignalParamsContext::SingleMA(d)) => { SingleMAParams::ok_valid(p, d); }, (SignalParams::TripleMA(p), SignalParamsContext::None) => { TripleMAParams::ok_valid(p, TripleMAParamsContext::dv()); }, (SignalParams::TripleMA(p), SignalParamsContext::TripleMA(d)) => { TripleMAParams::ok_valid(p, d); }, _ => {} } }
/*@fn expanded:strategies SignalParams::Chromosome::len
ret: r
flag: novis
@*/
/*@fn expanded:strategies SignalParams::Chromosome::generate
ret: x
flag: novis
@*/
/*@fn expanded:strategies SignalParams::Chromosome::cross
flag: novis
@*/
/*@fn expanded:strategies SignalParams::Chromosome::mutate
flag: novis
@*/
}
pub enum DynSig { DoubleMA(DoubleMA), DoubleMA2(DoubleMA2), DoubleMAStoch(DoubleMAStoch), FourWeekRule(FourWeekRule), Macd(Macd), SingleMA(SingleMA), TripleMA(TripleMA) }
impl Boxed for DoubleMA { type Dyn = DynSig; open spec fn as_dyn(self) -> DynSig { DynSig::DoubleMA(self) } fn boxed(self) -> (r: DynSig) { DynSig::DoubleMA(self) } }
impl Boxed for DoubleMA2 { type Dyn = DynSig; open spec fn as_dyn(self) -> DynSig { DynSig::DoubleMA2(self) } fn boxed(self) -> (r: DynSig) { DynSig::DoubleMA2(self) } }
impl Boxed for DoubleMAStoch { type Dyn = DynSig; open spec fn as_dyn(self) -> DynSig { DynSig::DoubleMAStoch(self) } fn boxed(self) -> (r: DynSig) { DynSig::DoubleMAStoch(self) } }
impl Boxed for FourWeekRule { type Dyn = DynSig; open spec fn as_dyn(self) -> DynSig { DynSig::FourWeekRule(self) } fn boxed(self) -> (r: DynSig) { DynSig::FourWeekRule(self) } }
impl Boxed for Macd { type Dyn = DynSig; open spec fn as_dyn(self) -> DynSig { DynSig::Macd(self) } fn boxed(self) -> (r: DynSig) { DynSig::Macd(self) } }
impl Boxed for SingleMA { type Dyn = DynSig; open spec fn as_dyn(self) -> DynSig { DynSig::SingleMA(self) } fn boxed(self) -> (r: DynSig) { DynSig::SingleMA(self) } }
impl Boxed for TripleMA { type Dyn = DynSig; open spec fn as_dyn(self) -> DynSig { DynSig::TripleMA(self) } fn boxed(self) -> (r: DynSig) { DynSig::TripleMA(self) } }
impl DynSig {
    pub open spec fn mok(self) -> bool { match self { DynSig::DoubleMA(x) => x.mok(), DynSig::DoubleMA2(x) => x.mok(), DynSig::DoubleMAStoch(x) => x.mok(), DynSig::FourWeekRule(x) => x.mok(), DynSig::Macd(x) => x.mok(), DynSig::SingleMA(x) => x.mok(), DynSig::TripleMA(x) => x.mok(), } }
    pub fn maturity(&self) -> (r: u32) requires self.mok() ensures 0 < r < 0x2000000 { match self { DynSig::DoubleMA(x) => x.maturity(), DynSig::DoubleMA2(x) => x.maturity(), DynSig::DoubleMAStoch(x) => x.maturity(), DynSig::FourWeekRule(x) => x.maturity(), DynSig::Macd(x) => x.maturity(), DynSig::SingleMA(x) => x.maturity(), DynSig::TripleMA(x) => x.maturity(), } }
}
impl SignalParams {
/*@fn juno/src/strategies/mod.rs SignalParams::construct
ret: r
subst: Box::new => dyn_box
spec:
    requires SignalParams::valid(*self),
    ensures r.mok(),
@*/
}
/*@enum juno/src/strategies/mod.rs OscillatorParams
attr:
    #[derive(Clone, Copy)]
@*/
/*@enum expanded:strategies OscillatorParamsContext
@*/
impl Tagged for OscillatorParams { open spec fn tag(&self) -> int { match *self { OscillatorParams::Rsi(_) => 0int, OscillatorParams::Stoch(_) => 1int, } } }
impl OscillatorParams {
    pub open spec fn g_vlen(&self) -> nat { match *self { OscillatorParams::Rsi(_) => RsiParams::g_len(), OscillatorParams::Stoch(_) => StochParams::g_len(), } }
/*@fn expanded:strategies OscillatorParams::variant_len
ret: r
spec:
    ensures r == self.g_vlen(),
@*/
}
//@subst_expr &DEFAULT_OSCILLATOR_PARAMS_RSI_CTX => DEFAULT_OSCILLATOR_PARAMS_RSI_CTX_X()
/*@lazy expanded:strategies DEFAULT_OSCILLATOR_PARAMS_RSI_CTX
spec:
    ensures r == RsiParamsContext::dv(),
@*/
// the lazily initialised static holds what its initialiser returns
#[verifier::external_body] pub fn DEFAULT_OSCILLATOR_PARAMS_RSI_CTX_X() -> (r: &'static RsiParamsContext) ensures call_ensures(DEFAULT_OSCILLATOR_PARAMS_RSI_CTX_init, (), *r) { unimplemented!() }
//@subst_expr &DEFAULT_OSCILLATOR_PARAMS_STOCH_CTX => DEFAULT_OSCILLATOR_PARAMS_STOCH_CTX_X()
/*@lazy expanded:strategies DEFAULT_OSCILLATOR_PARAMS_STOCH_CTX
spec:
    ensures r == StochParamsContext::dv(),
@*/
// the lazily initialised static holds what its initialiser returns
#[verifier::external_body] pub fn DEFAULT_OSCILLATOR_PARAMS_STOCH_CTX_X() -> (r: &'static StochParamsContext) ensures call_ensures(DEFAULT_OSCILLATOR_PARAMS_STOCH_CTX_init, (), *r) { unimplemented!() }
impl OscillatorParamsContext {
/*@fn expanded:strategies OscillatorParamsContext::rsi
ret: r
spec:
    ensures *r == self.sub_rsi(),
@*/
    pub open spec fn sub_rsi(self) -> RsiParamsContext { match self { OscillatorParamsContext::Rsi(c) => c, _ => RsiParamsContext::dv() } }
/*@fn expanded:strategies OscillatorParamsContext::stoch
ret: r
spec:
    ensures *r == self.sub_stoch(),
@*/
    pub open spec fn sub_stoch(self) -> StochParamsContext { match self { OscillatorParamsContext::Stoch(c) => c, _ => StochParamsContext::dv() } }
}
impl DfltX for OscillatorParamsContext {
    open spec fn dv() -> Self { OscillatorParamsContext::None }
/*@fn expanded:strategies OscillatorParamsContext::Default::default
ret: r
flag: novis
@*/
}
impl Chromosome for OscillatorParams {
    type Context = OscillatorParamsContext;
    open spec fn g_len() -> nat { 1 + nmax(RsiParams::g_len(), StochParams::g_len()) }
    open spec fn ok(x: Self, c: OscillatorParamsContext) -> bool { match (x, c) { (OscillatorParams::Rsi(p), OscillatorParamsContext::None) => RsiParams::ok(p, RsiParamsContext::dv()), (OscillatorParams::Rsi(p), OscillatorParamsContext::Rsi(d)) => RsiParams::ok(p, d), (OscillatorParams::Stoch(p), OscillatorParamsContext::None) => StochParams::ok(p, StochParamsContext::dv()), (OscillatorParams::Stoch(p), OscillatorParamsContext::Stoch(d)) => StochParams::ok(p, d), _ => false } }
    open spec fn cvalid(c: OscillatorParamsContext) -> bool { match c { OscillatorParamsContext::None => true, OscillatorParamsContext::Rsi(d) => RsiParams::cvalid(d), OscillatorParamsContext::Stoch(d) => StochParams::cvalid(d), } }
    open spec fn valid(x: Self) -> bool { match x { OscillatorParams::Rsi(p) => RsiParams::valid(p), OscillatorParams::Stoch(p) => StochParams::valid(p), } }
    proof fn ok_valid(x: Self, c: OscillatorParamsContext) { match (x, c) { (OscillatorParams::Rsi(p), OscillatorParamsContext::None) => { RsiParams::ok_valid(p, RsiParamsContext::dv()); }, (OscillatorParams::Rsi(p), OscillatorParamsContext::Rsi(d)) => { RsiParams::ok_valid(p, d); }, (OscillatorParams::Stoch(p), OscillatorParamsContext::None) => { StochParams::ok_valid(p, StochParamsContext::dv()); }, (OscillatorParams::Stoch(p), OscillatorParamsContext::Stoch(d)) => { StochParams::ok_valid(p, d); }, _ => {} } }
/*@fn expanded:strategies OscillatorParams::Chromosome::len
ret: r
flag: novis
@*/
/*@fn expanded:strategies OscillatorParams::Chromosome::generate
ret: x
flag: novis
@*/
/*@fn expanded:strategies OscillatorParams::Chromosome::cross
flag: novis
@*/
/*@fn expanded:strategies OscillatorParams::Chromosome::mutate
flag: novis
@*/
}
pub enum DynOsc { Rsi(Rsi), Stoch(Stoch) }
impl Boxed for Rsi { type Dyn = DynOsc; open spec fn as_dyn(self) -> DynOsc { DynOsc::Rsi(self) } fn boxed(self) -> (r: DynOsc) { DynOsc::Rsi(self) } }
impl Boxed for Stoch { type Dyn = DynOsc; open spec fn as_dyn(self) -> DynOsc { DynOsc::Stoch(self) } fn boxed(self) -> (r: DynOsc) { DynOsc::Stoch(self) } }
impl DynOsc {
    pub open spec fn mok(self) -> bool { match self { DynOsc::Rsi(x) => x.mok(), DynOsc::Stoch(x) => x.mok(), } }
    pub fn maturity(&self) -> (r: u32) requires self.mok() ensures 0 < r < 0x2000000 { match self { DynOsc::Rsi(x) => x.maturity(), DynOsc::Stoch(x) => x.maturity(), } }
}
impl OscillatorParams {
/*@fn juno/src/strategies/mod.rs OscillatorParams::construct
ret: r
subst: Box::new => dyn_box
spec:
    requires OscillatorParams::valid(*self),
    ensures r.mok(),
@*/
}
pub mod sig { use super::*;
broadcast use fl_axioms;
/*@struct juno/src/strategies/sig.rs SigParams
attr:
    #[derive(Clone, Copy)]
@*/
/*@struct expanded:strategies::sig SigParamsContext
@*/
impl SigParams { pub open spec fn ok_persistence(x: u32) -> bool { x < 1000000 } }
/*@fn juno/src/strategies/sig.rs persistence
ret: x
flag: anyloops
spec:
    ensures SigParams::ok_persistence(x),
@*/
impl SigParams { pub open spec fn ok_mid_trend_policy(x: MidTrendPolicy) -> bool { true } }
/*@fn juno/src/strategies/sig.rs mid_trend_policy
ret: x
flag: anyloops
spec:
    ensures SigParams::ok_mid_trend_policy(x),
@*/
impl SigParams { pub open spec fn ok_buffer_interval(x: Option<Interval>) -> bool { true } }
/*@fn juno/src/strategies/sig.rs buffer_interval
ret: x
flag: anyloops
spec:
    ensures SigParams::ok_buffer_interval(x), x is None,
@*/
impl DfltX for SigParamsContext {
    open spec fn dv() -> Self { SigParamsContext { sig: SignalParamsContext::dv(), persistence: None, mid_trend_policy: None, buffer_interval: None } }
/*@fn expanded:strategies::sig SigParamsContext::Default::default
ret: r
flag: novis
@*/
}
impl Chromosome for SigParams {
    type Context = SigParamsContext;
    open spec fn g_len() -> nat { SignalParams::g_len() + 3nat }
    open spec fn ok(x: Self, c: SigParamsContext) -> bool { SignalParams::ok(x.sig, c.sig) && SigParams::ok_persistence(x.persistence) && (c.persistence is Some ==> x.persistence == c.persistence->0) && SigParams::ok_mid_trend_policy(x.mid_trend_policy) && (c.mid_trend_policy is Some ==> x.mid_trend_policy == c.mid_trend_policy->0) && SigParams::ok_buffer_interval(x.buffer_interval) && (c.buffer_interval is Some ==> x.buffer_interval == c.buffer_interval->0) && (c.buffer_interval is None ==> x.buffer_interval is None) }
    open spec fn cvalid(c: SigParamsContext) -> bool { SignalParams::cvalid(c.sig) && (c.persistence is Some ==> SigParams::ok_persistence(c.persistence->0)) && (c.mid_trend_policy is Some ==> SigParams::ok_mid_trend_policy(c.mid_trend_policy->0)) && (c.buffer_interval is Some ==> SigParams::ok_buffer_interval(c.buffer_interval->0)) }
    open spec fn valid(x: Self) -> bool { SignalParams::valid(x.sig) && SigParams::ok_persistence(x.persistence) && SigParams::ok_mid_trend_policy(x.mid_trend_policy) && SigParams::ok_buffer_interval(x.buffer_interval) }
    proof fn ok_valid(x: Self, c: SigParamsContext) { SignalParams::ok_valid(x.sig, c.sig);  }
/*@fn expanded:strategies::sig SigParams::Chromosome::len
ret: r
flag: novis
@*/
/*@fn expanded:strategies::sig SigParams::Chromosome::generate
ret: x
flag: novis
@*/
/*@fn expanded:strategies::sig SigParams::Chromosome::cross
flag: novis
@*/
/*@fn expanded:strategies::sig SigParams::Chromosome::mutate
flag: novis
@*/
}
/*@struct juno/src/strategies/sig.rs Sig
@*/
impl Sig {
    pub open spec fn mok(&self) -> bool { 0 < self.t1 < 0x4000000 }
/*@fn juno/src/strategies/sig.rs Sig::new
ret: r
spec:
    requires SigParams::valid(*params), fits(*params, meta.interval),
    ensures r.mok(),
@*/
/*@fn juno/src/strategies/sig.rs Sig::Strategy::maturity
ret: r
spec:
    requires self.mok(),
    ensures 0 < r < 0x4000000,
@*/
}
}
pub use sig::Sig;
pub use sig::{SigParams, SigParamsContext};
pub mod sig_osc { use super::*;
broadcast use fl_axioms;
/*@struct juno/src/strategies/sig_osc.rs SigOscParams
attr:
    #[derive(Clone, Copy)]
@*/
/*@struct expanded:strategies::sig_osc SigOscParamsContext
@*/
impl SigOscParams { pub open spec fn ok_osc_filter(x: OscFilter) -> bool { true } }
/*@fn juno/src/strategies/sig_osc.rs osc_filter
ret: x
flag: anyloops
spec:
    ensures SigOscParams::ok_osc_filter(x),
@*/
impl SigOscParams { pub open spec fn ok_persistence(x: u32) -> bool { x < 1000000 } }
/*@fn juno/src/strategies/sig_osc.rs persistence
ret: x
flag: anyloops
spec:
    ensures SigOscParams::ok_persistence(x),
@*/
impl SigOscParams { pub open spec fn ok_mid_trend_policy(x: MidTrendPolicy) -> bool { true } }
/*@fn juno/src/strategies/sig_osc.rs mid_trend_policy
ret: x
flag: anyloops
spec:
    ensures SigOscParams::ok_mid_trend_policy(x),
@*/
impl DfltX for SigOscParamsContext {
    open spec fn dv() -> Self { SigOscParamsContext { sig: SignalParamsContext::dv(), osc: OscillatorParamsContext::dv(), osc_filter: None, persistence: None, mid_trend_policy: None } }
/*@fn expanded:strategies::sig_osc SigOscParamsContext::Default::default
ret: r
flag: novis
@*/
}
impl Chromosome for SigOscParams {
    type Context = SigOscParamsContext;
    open spec fn g_len() -> nat { SignalParams::g_len() + OscillatorParams::g_len() + 3nat }
    open spec fn ok(x: Self, c: SigOscParamsContext) -> bool { SignalParams::ok(x.sig, c.sig) && OscillatorParams::ok(x.osc, c.osc) && SigOscParams::ok_osc_filter(x.osc_filter) && (c.osc_filter is Some ==> x.osc_filter == c.osc_filter->0) && SigOscParams::ok_persistence(x.persistence) && (c.persistence is Some ==> x.persistence == c.persistence->0) && SigOscParams::ok_mid_trend_policy(x.mid_trend_policy) && (c.mid_trend_policy is Some ==> x.mid_trend_policy == c.mid_trend_policy->0) }
    open spec fn cvalid(c: SigOscParamsContext) -> bool { SignalParams::cvalid(c.sig) && OscillatorParams::cvalid(c.osc) && (c.osc_filter is Some ==> SigOscParams::ok_osc_filter(c.osc_filter->0)) && (c.persistence is Some ==> SigOscParams::ok_persistence(c.persistence->0)) && (c.mid_trend_policy is Some ==> SigOscParams::ok_mid_trend_policy(c.mid_trend_policy->0)) }
    open spec fn valid(x: Self) -> bool { SignalParams::valid(x.sig) && OscillatorParams::valid(x.osc) && SigOscParams::ok_osc_filter(x.osc_filter) && SigOscParams::ok_persistence(x.persistence) && SigOscParams::ok_mid_trend_policy(x.mid_trend_policy) }
    proof fn ok_valid(x: Self, c: SigOscParamsContext) { SignalParams::ok_valid(x.sig, c.sig); OscillatorParams::ok_valid(x.osc, c.osc);  }
/*@fn expanded:strategies::sig_osc SigOscParams::Chromosome::len
ret: r
flag: novis
@*/
/*@fn expanded:strategies::sig_osc SigOscParams::Chromosome::generate
ret: x
flag: novis
@*/
/*@fn expanded:strategies::sig_osc SigOscParams::Chromosome::cross
flag: novis
@*/
/*@fn expanded:strategies::sig_osc SigOscParams::Chromosome::mutate
flag: novis
@*/
}
/*@struct juno/src/strategies/sig_osc.rs SigOsc
@*/
impl SigOsc {
    pub open spec fn mok(&self) -> bool { 0 < self.t1 < 0x4000000 }
/*@fn juno/src/strategies/sig_osc.rs SigOsc::new
ret: r
spec:
    requires SigOscParams::valid(*params),
    ensures r.mok(),
@*/
/*@fn juno/src/strategies/sig_osc.rs SigOsc::Strategy::maturity
ret: r
spec:
    requires self.mok(),
    ensures 0 < r < 0x4000000,
@*/
}
}
pub use sig_osc::SigOsc;
pub use sig_osc::{SigOscParams, SigOscParamsContext};
/*@enum juno/src/strategies/mod.rs StrategyParams
attr:
    #[derive(Clone, Copy)]
@*/
/*@enum expanded:strategies StrategyParamsContext
@*/
impl Tagged for StrategyParams { open spec fn tag(&self) -> int { match *self { StrategyParams::DoubleMA(_) => 0int, StrategyParams::DoubleMA2(_) => 1int, StrategyParams::DoubleMAStoch(_) => 2int, StrategyParams::FourWeekRule(_) => 3int, StrategyParams::Macd(_) => 4int, StrategyParams::SingleMA(_) => 5int, StrategyParams::TripleMA(_) => 6int, StrategyParams::SigOsc(_) => 7int, StrategyParams::Sig(_) => 8int, } } }
impl StrategyParams {
    pub open spec fn g_vlen(&self) -> nat { match *self { StrategyParams::DoubleMA(_) => DoubleMAParams::g_len(), StrategyParams::DoubleMA2(_) => DoubleMA2Params::g_len(), StrategyParams::DoubleMAStoch(_) => DoubleMAStochParams::g_len(), StrategyParams::FourWeekRule(_) => FourWeekRuleParams::g_len(), StrategyParams::Macd(_) => MacdParams::g_len(), StrategyParams::SingleMA(_) => SingleMAParams::g_len(), StrategyParams::TripleMA(_) => TripleMAParams::g_len(), StrategyParams::SigOsc(_) => SigOscParams::g_len(), StrategyParams::Sig(_) => SigParams::g_len(), } }
/*@fn expanded:strategies StrategyParams::variant_len
ret: r
spec:
    ensures r == self.g_vlen(),
@*/
}
//@subst_expr &DEFAULT_STRATEGY_PARAMS_DOUBLE_MA_CTX => DEFAULT_STRATEGY_PARAMS_DOUBLE_MA_CTX_X()
/*@lazy expanded:strategies DEFAULT_STRATEGY_PARAMS_DOUBLE_MA_CTX
spec:
    ensures r == DoubleMAParamsContext::dv(),
@*/
// the lazily initialised static holds what its initialiser returns
#[verifier::external_body] pub fn DEFAULT_STRATEGY_PARAMS_DOUBLE_MA_CTX_X() -> (r: &'static DoubleMAParamsContext) ensures call_ensures(DEFAULT_STRATEGY_PARAMS_DOUBLE_MA_CTX_init, (), *r) { unimplemented!() }
//@subst_expr &DEFAULT_STRATEGY_PARAMS_DOUBLE_MA_2_CTX => DEFAULT_STRATEGY_PARAMS_DOUBLE_MA_2_CTX_X()
/*@lazy expanded:strategies DEFAULT_STRATEGY_PARAMS_DOUBLE_MA_2_CTX
spec:
    ensures r == DoubleMA2ParamsContext::dv(),
@*/
// the lazily initialised static holds what its initialiser returns
#[verifier::external_body] pub fn DEFAULT_STRATEGY_PARAMS_DOUBLE_MA_2_CTX_X() -> (r: &'static DoubleMA2ParamsContext) ensures call_ensures(DEFAULT_STRATEGY_PARAMS_DOUBLE_MA_2_CTX_init, (), *r) { unimplemented!() }
//@subst_expr &DEFAULT_STRATEGY_PARAMS_DOUBLE_MA_STOCH_CTX => DEFAULT_STRATEGY_PARAMS_DOUBLE_MA_STOCH_CTX_X()
/*@lazy expanded:strategies DEFAULT_STRATEGY_PARAMS_DOUBLE_MA_STOCH_CTX
spec:
    ensures r == DoubleMAStochParamsContext::dv(),
@*/
// the lazily initialised static holds what its initialiser returns
#[verifier::external_body] pub fn DEFAULT_STRATEGY_PARAMS_DOUBLE_MA_STOCH_CTX_X() -> (r: &'static DoubleMAStochParamsContext) ensures call_ensures(DEFAULT_STRATEGY_PARAMS_DOUBLE_MA_STOCH_CTX_init, (), *r) { unimplemented!() }
//@subst_expr &DEFAULT_STRATEGY_PARAMS_FOUR_WEEK_RULE_CTX => DEFAULT_STRATEGY_PARAMS_FOUR_WEEK_RULE_CTX_X()
/*@lazy expanded:strategies DEFAULT_STRATEGY_PARAMS_FOUR_WEEK_RULE_CTX
spec:
    ensures r == FourWeekRuleParamsContext::dv(),
@*/
// the lazily initialised static holds what its initialiser returns
#[verifier::external_body] pub fn DEFAULT_STRATEGY_PARAMS_FOUR_WEEK_RULE_CTX_X() -> (r: &'static FourWeekRuleParamsContext) ensures call_ensures(DEFAULT_STRATEGY_PARAMS_FOUR_WEEK_RULE_CTX_init, (), *r) { unimplemented!() }
//@subst_expr &DEFAULT_STRATEGY_PARAMS_MACD_CTX => DEFAULT_STRATEGY_PARAMS_MACD_CTX_X()
/*@lazy expanded:strategies DEFAULT_STRATEGY_PARAMS_MACD_CTX
spec:
    ensures r == MacdParamsContext::dv(),
@*/
// the lazily initialised static holds what its initialiser returns
#[verifier::external_body] pub fn DEFAULT_STRATEGY_PARAMS_MACD_CTX_X() -> (r: &'static MacdParamsContext) ensures call_ensures(DEFAULT_STRATEGY_PARAMS_MACD_CTX_init, (), *r) { unimplemented!() }
//@subst_expr &DEFAULT_STRATEGY_PARAMS_SINGLE_MA_CTX => DEFAULT_STRATEGY_PARAMS_SINGLE_MA_CTX_X()
/*@lazy expanded:strategies DEFAULT_STRATEGY_PARAMS_SINGLE_MA_CTX
spec:
    ensures r == SingleMAParamsContext::dv(),
@*/
// the lazily initialised static holds what its initialiser returns
#[verifier::external_body] pub fn DEFAULT_STRATEGY_PARAMS_SINGLE_MA_CTX_X() -> (r: &'static SingleMAParamsContext) ensures call_ensures(DEFAULT_STRATEGY_PARAMS_SINGLE_MA_CTX_init, (), *r) { unimplemented!() }
//@subst_expr &DEFAULT_STRATEGY_PARAMS_TRIPLE_MA_CTX => DEFAULT_STRATEGY_PARAMS_TRIPLE_MA_CTX_X()
/*@lazy expanded:strategies DEFAULT_STRATEGY_PARAMS_TRIPLE_MA_CTX
spec:
    ensures r == TripleMAParamsContext::dv(),
@*/
// the lazily initialised static holds what its initialiser returns
#[verifier::external_body] pub fn DEFAULT_STRATEGY_PARAMS_TRIPLE_MA_CTX_X() -> (r: &'static TripleMAParamsContext) ensures call_ensures(DEFAULT_STRATEGY_PARAMS_TRIPLE_MA_CTX_init, (), *r) { unimplemented!() }
//@subst_expr &DEFAULT_STRATEGY_PARAMS_SIG_OSC_CTX => DEFAULT_STRATEGY_PARAMS_SIG_OSC_CTX_X()
/*@lazy expanded:strategies DEFAULT_STRATEGY_PARAMS_SIG_OSC_CTX
spec:
    ensures r == SigOscParamsContext::dv(),
@*/
// the lazily initialised static holds what its initialiser returns
#[verifier::external_body] pub fn DEFAULT_STRATEGY_PARAMS_SIG_OSC_CTX_X() -> (r: &'static SigOscParamsContext) ensures call_ensures(DEFAULT_STRATEGY_PARAMS_SIG_OSC_CTX_init, (), *r) { unimplemented!() }
//@subst_expr &DEFAULT_STRATEGY_PARAMS_SIG_CTX => DEFAULT_STRATEGY_PARAMS_SIG_CTX_X()
/*@lazy expanded:strategies DEFAULT_STRATEGY_PARAMS_SIG_CTX
spec:
    ensures r == SigParamsContext::dv(),
@*/
// the lazily initialised static holds what its initialiser returns
#[verifier::external_body] pub fn DEFAULT_STRATEGY_PARAMS_SIG_CTX_X() -> (r: &'static SigParamsContext) ensures call_ensures(DEFAULT_STRATEGY_PARAMS_SIG_CTX_init, (), *r) { unimplemented!() }
impl StrategyParamsContext {
/*@fn expanded:strategies StrategyParamsContext::doublema
ret: r
spec:
    ensures *r == self.sub_doublema(),
@*/
    pub open spec fn sub_doublema(self) -> DoubleMAParamsContext { match self { StrategyParamsContext::DoubleMA(c) => c, _ => DoubleMAParamsContext::dv() } }
/*@fn expanded:strategies StrategyParamsContext::doublema2
ret: r
spec:
    ensures *r == self.sub_doublema2(),
@*/
    pub open spec fn sub_doublema2(self) -> DoubleMA2ParamsContext { match self { StrategyParamsContext::DoubleMA2(c) => c, _ => DoubleMA2ParamsContext::dv() } }
/*@fn expanded:strategies StrategyParamsContext::doublemastoch
ret: r
spec:
    ensures *r == self.sub_doublemastoch(),
@*/
    pub open spec fn sub_doublemastoch(self) -> DoubleMAStochParamsContext { match self { StrategyParamsContext::DoubleMAStoch(c) => c, _ => DoubleMAStochParamsContext::dv() } }
/*@fn expanded:strategies StrategyParamsContext::fourweekrule
ret: r
spec:
    ensures *r == self.sub_fourweekrule(),
@*/
    pub open spec fn sub_fourweekrule(self) -> FourWeekRuleParamsContext { match self { StrategyParamsContext::FourWeekRule(c) => c, _ => FourWeekRuleParamsContext::dv() } }
/*@fn expanded:strategies StrategyParamsContext::macd
ret: r
spec:
    ensures *r == self.sub_macd(),
@*/
    pub open spec fn sub_macd(self) -> MacdParamsContext { match self { StrategyParamsContext::Macd(c) => c, _ => MacdParamsContext::dv() } }
/*@fn expanded:strategies StrategyParamsContext::singlema
ret: r
spec:
    ensures *r == self.sub_singlema(),
@*/
    pub open spec fn sub_singlema(self) -> SingleMAParamsContext { match self { StrategyParamsContext::SingleMA(c) => c, _ => SingleMAParamsContext::dv() } }
/*@fn expanded:strategies StrategyParamsContext::triplema
ret: r
spec:
    ensures *r == self.sub_triplema(),
@*/
    pub open spec fn sub_triplema(self) -> TripleMAParamsContext { match self { StrategyParamsContext::TripleMA(c) => c, _ => TripleMAParamsContext::dv() } }
/*@fn expanded:strategies StrategyParamsContext::sigosc
ret: r
spec:
    ensures *r == self.sub_sigosc(),
@*/
    pub open spec fn sub_sigosc(self) -> SigOscParamsContext { match self { StrategyParamsContext::SigOsc(c) => c, _ => SigOscParamsContext::dv() } }
/*@fn expanded:strategies StrategyParamsContext::sig
ret: r
spec:
    ensures *r == self.sub_sig(),
@*/
    pub open spec fn sub_sig(self) -> SigParamsContext { match self { StrategyParamsContext::Sig(c) => c, _ => SigParamsContext::dv() } }
}
impl DfltX for StrategyParamsContext {
    open spec fn dv() -> Self { StrategyParamsContext::None }
/*@fn expanded:strategies StrategyParamsContext::Default::default
ret: r
flag: novis
@*/
}
impl Chromosome for StrategyParams {
    type Context = StrategyParamsContext;
    open spec fn g_len() -> nat { 1 + nmax(DoubleMAParams::g_len(), nmax(DoubleMA2Params::g_len(), nmax(DoubleMAStochParams::g_len(), nmax(FourWeekRuleParams::g_len(), nmax(MacdParams::g_len(), nmax(SingleMAParams::g_len(), nmax(TripleMAParams::g_len(), nmax(SigOscParams::g_len(), SigParams::g_len())))))))) }
    open spec fn ok(x: Self, c: StrategyParamsContext) -> bool { match (x, c) { (StrategyParams::DoubleMA(p), StrategyParamsContext::None) => DoubleMAParams::ok(p, DoubleMAParamsContext::dv()), (StrategyParams::DoubleMA(p), StrategyParamsContext::DoubleMA(d)) => DoubleMAParams::ok(p, d), (StrategyParams::DoubleMA2(p), StrategyParamsContext::None) => DoubleMA2Params::ok(p, DoubleMA2ParamsContext::dv()), (StrategyParams::DoubleMA2(p), StrategyParamsContext::DoubleMA2(d)) => DoubleMA2Params::ok(p, d), (StrategyParams::DoubleMAStoch(p), StrategyParamsContext::None) => DoubleMAStochParams::ok(p, DoubleMAStochParamsContext::dv()), (StrategyParams::DoubleMAStoch(p), StrategyParamsContext::DoubleMAStoch(d)) => DoubleMAStochParams::ok(p, d), (StrategyParams::FourWeekRule(p), StrategyParamsContext::None) => FourWeekRuleParams::ok(p, FourWeekRuleParamsContext::dv()), (StrategyParams::FourWeekRule(p), StrategyParamsContext::FourWeekRule(d)) => FourWeekRuleParams::ok(p, d), (StrategyParams::Macd(p), StrategyParamsContext::None) => MacdParams::ok(p, MacdParamsContext::dv()), (StrategyParams::Macd(p), StrategyParamsContext::Macd(d)) => MacdParams::ok(p, d), (StrategyParams::SingleMA(p), StrategyParamsContext::None) => SingleMAParams::ok(p, SingleMAParamsContext::dv()), (StrategyParams::SingleMA(p), StrategyParamsContext::SingleMA(d)) => SingleMAParams::ok(p, d), (StrategyParams::TripleMA(p), StrategyParamsContext::None) => TripleMAParams::ok(p, TripleMAParamsContext::dv()), (StrategyParams::TripleMA(p), StrategyParamsContext::TripleMA(d)) => TripleMAParams::ok(p, d), (StrategyParams::SigOsc(p), StrategyParamsContext::None) => SigOscParams::ok(p, SigOscParamsContext::dv()), (StrategyParams::SigOsc(p), StrategyParamsContext::SigOsc(d)) => SigOscParams::ok(p, d), (StrategyParams::Sig(p), StrategyParamsContext::None) => SigParams::ok(p, SigParamsContext::dv()), (StrategyParams::Sig(p), StrategyParamsContext::Sig(d)) => SigParams::ok(p, d), _ => false } }
    open spec fn cvalid(c: StrategyParamsContext) -> bool { match c { StrategyParamsContext::None => true, StrategyParamsContext::DoubleMA(d) => DoubleMAParams::cvalid(d), StrategyParamsContext::DoubleMA2(d) => DoubleMA2Params::cvalid(d), StrategyParamsContext::DoubleMAStoch(d) => DoubleMAStochParams::cvalid(d), StrategyParamsContext::FourWeekRule(d) => FourWeekRuleParams::cvalid(d), StrategyParamsContext::Macd(d) => MacdParams::cvalid(d), StrategyParamsContext::SingleMA(d) => SingleMAParams::cvalid(d), StrategyParamsContext::TripleMA(d) => TripleMAParams::cvalid(d), StrategyParamsContext::SigOsc(d) => SigOscParams::cvalid(d), StrategyParamsContext::Sig(d) => SigParams::cvalid(d), } }
    open spec fn valid(x: Self) -> bool { match x { StrategyParams::DoubleMA(p) => DoubleMAParams::valid(p), StrategyParams::DoubleMA2(p) => DoubleMA2Params::valid(p), StrategyParams::DoubleMAStoch(p) => DoubleMAStochParams::valid(p), StrategyParams::FourWeekRule(p) => FourWeekRuleParams::valid(p), StrategyParams::Macd(p) => MacdParams::valid(p), StrategyParams::SingleMA(p) => SingleMAParams::valid(p), StrategyParams::TripleMA(p) => TripleMAParams::valid(p), StrategyParams::SigOsc(p) => SigOscParams::valid(p), StrategyParams::Sig(p) => SigParams::valid(p), } }
    proof fn ok_valid(x: Self, c: StrategyParamsContext) { match (x, c) { (StrategyParams::DoubleMA(p), StrategyParamsContext::None) => { DoubleMAParams::ok_valid(p, DoubleMAParamsContext::dv()); }, (StrategyParams::DoubleMA(p), StrategyParamsContext::DoubleMA(d)) => { DoubleMAParams::ok_valid(p, d); }, (StrategyParams::DoubleMA2(p), StrategyParamsContext::None) => { DoubleMA2Params::ok_valid(p, DoubleMA2ParamsContext::dv()); }, (StrategyParams::DoubleMA2(p), StrategyParamsContext::DoubleMA2(d)) => { DoubleMA2Params::ok_valid(p, d); }, (StrategyParams::DoubleMAStoch(p), StrategyParamsContext::None) => { DoubleMAStochParams::ok_valid(p, DoubleMAStochParamsContext::dv()); }, (StrategyParams::DoubleMAStoch(p), StrategyParamsContext::DoubleMAStoch(d)) => { DoubleMAStochParams::ok_valid(p, d); }, (StrategyParams::FourWeekRule(p), StrategyParamsContext::None) => { FourWeekRuleParams::ok_valid(p, FourWeekRuleParamsContext::dv()); }, (StrategyParams::FourWeekRule(p), StrategyParamsContext::FourWeekRule(d)) => { FourWeekRuleParams::ok_valid(p, d); }, (StrategyParams::Macd(p), StrategyParamsContext::None) => { MacdParams::ok_valid(p, MacdParamsContext::dv()); }, (StrategyParams::Macd(p), StrategyParamsContext::Macd(d)) => { MacdParams::ok_valid(p, d); }, (StrategyParams::SingleMA(p), StrategyParamsContext::None) => { SingleMAParams::ok_valid(p, SingleMAParamsContext::dv()); }, (StrategyParams::SingleMA(p), StrategyParamsContext::SingleMA(d)) => { SingleMAParams::ok_valid(p, d); }, (StrategyParams::TripleMA(p), StrategyParamsContext::None) => { TripleMAParams::ok_valid(p, TripleMAParamsContext::dv()); }, (StrategyParams::TripleMA(p), StrategyParamsContext::TripleMA(d)) => { TripleMAParams::ok_valid(p, d); }, (StrategyParams::SigOsc(p), StrategyParamsContext::None) => { SigOscParams::ok_valid(p, SigOscParamsContext::dv()); }, (StrategyParams::SigOsc(p), StrategyParamsContext::SigOsc(d)) => { SigOscParams::ok_valid(p, d); }, (StrategyParams::Sig(p), StrategyParamsContext::None) => { SigParams::ok_valid(p, SigParamsContext::dv()); }, (StrategyParams::Sig(p), StrategyParamsContext::Sig(d)) => { SigParams::ok_valid(p, d); }, _ => {} } }
/*@fn expanded:strategies StrategyParams::Chromosome::len
ret: r
flag: novis
@*/
/*@fn expanded:strategies StrategyParams::Chromosome::generate
ret: x
flag: novis
@*/
/*@fn expanded:strategies StrategyParams::Chromosome::cross
flag: novis
@*/
/*@fn expanded:strategies StrategyParams::Chromosome::mutate
flag: novis
@*/
}
pub enum DynStr { DoubleMA(DoubleMA), DoubleMA2(DoubleMA2), DoubleMAStoch(DoubleMAStoch), FourWeekRule(FourWeekRule), Macd(Macd), SingleMA(SingleMA), TripleMA(TripleMA), SigOsc(SigOsc), Sig(Sig) }
pub trait BoxStr: Sized { fn boxed_s(self) -> DynStr; }
pub fn str_box<T: BoxStr>(t: T) -> DynStr { t.boxed_s() }
impl BoxStr for DoubleMA { fn boxed_s(self) -> DynStr { DynStr::DoubleMA(self) } }
impl BoxStr for DoubleMA2 { fn boxed_s(self) -> DynStr { DynStr::DoubleMA2(self) } }
impl BoxStr for DoubleMAStoch { fn boxed_s(self) -> DynStr { DynStr::DoubleMAStoch(self) } }
impl BoxStr for FourWeekRule { fn boxed_s(self) -> DynStr { DynStr::FourWeekRule(self) } }
impl BoxStr for Macd { fn boxed_s(self) -> DynStr { DynStr::Macd(self) } }
impl BoxStr for SingleMA { fn boxed_s(self) -> DynStr { DynStr::SingleMA(self) } }
impl BoxStr for TripleMA { fn boxed_s(self) -> DynStr { DynStr::TripleMA(self) } }
impl BoxStr for SigOsc { fn boxed_s(self) -> DynStr { DynStr::SigOsc(self) } }
impl BoxStr for Sig { fn boxed_s(self) -> DynStr { DynStr::Sig(self) } }
impl StrategyParams {
/*@fn juno/src/strategies/mod.rs StrategyParams::construct
ret: r
subst: Box::new => str_box
tysubst: Box<dyn Signal> => DynStr
spec:
    requires StrategyParams::valid(*self), self is Sig ==> fits(self->Sig_0, meta.interval),
@*/
}
}
pub mod trading { use super::*;
use super::{strategies::*, stop_loss::{StopLossParams, StopLossParamsContext}, take_profit::{TakeProfitParams, TakeProfitParamsContext}};
/*@struct juno/src/trading/mod.rs TraderParams
attr:
    #[derive(Clone, Copy)]
@*/
/*@struct juno/src/trading/mod.rs TraderParamsContext
@*/
impl Chromosome for TraderParams {
    type Context = TraderParamsContext;
    open spec fn g_len() -> nat { 1nat }
    open spec fn ok(x: Self, c: TraderParamsContext) -> bool { c.intervals@.contains(x.interval) }
    open spec fn cvalid(c: TraderParamsContext) -> bool { c.intervals@.len() > 0 && forall|i: int| 0 <= i < c.intervals@.len() ==> (#[trigger] c.intervals@[i]).0 > 0 }
    open spec fn valid(x: Self) -> bool { x.interval.0 > 0 }
    proof fn ok_valid(x: Self, c: TraderParamsContext) {  }
/*@fn juno/src/trading/mod.rs TraderParams::Chromosome::len
ret: r
flag: novis
@*/
/*@fn juno/src/trading/mod.rs TraderParams::Chromosome::generate
ret: x
flag: novis
@*/
/*@fn juno/src/trading/mod.rs TraderParams::Chromosome::cross
flag: novis
@*/
/*@fn juno/src/trading/mod.rs TraderParams::Chromosome::mutate
flag: novis
@*/
}
/*@struct juno/src/trading/mod.rs TradingParams
attr:
    #[derive(Clone, Copy)]
@*/
/*@struct expanded:trading TradingParamsContext
@*/
impl Chromosome for TradingParams {
    type Context = TradingParamsContext;
    open spec fn g_len() -> nat { StrategyParams::g_len() + TraderParams::g_len() + StopLossParams::g_len() + TakeProfitParams::g_len() + 0nat }
    open spec fn ok(x: Self, c: TradingParamsContext) -> bool { StrategyParams::ok(x.strategy, c.strategy) && TraderParams::ok(x.trader, c.trader) && StopLossParams::ok(x.stop_loss, c.stop_loss) && TakeProfitParams::ok(x.take_profit, c.take_profit) }
    open spec fn cvalid(c: TradingParamsContext) -> bool { StrategyParams::cvalid(c.strategy) && TraderParams::cvalid(c.trader) && StopLossParams::cvalid(c.stop_loss) && TakeProfitParams::cvalid(c.take_profit) }
    open spec fn valid(x: Self) -> bool { StrategyParams::valid(x.strategy) && TraderParams::valid(x.trader) && StopLossParams::valid(x.stop_loss) && TakeProfitParams::valid(x.take_profit) }
    proof fn ok_valid(x: Self, c: TradingParamsContext) { StrategyParams::ok_valid(x.strategy, c.strategy); TraderParams::ok_valid(x.trader, c.trader); StopLossParams::ok_valid(x.stop_loss, c.stop_loss); TakeProfitParams::ok_valid(x.take_profit, c.take_profit);  }
/*@fn expanded:trading TradingParams::Chromosome::len
ret: r
flag: novis
@*/
/*@fn expanded:trading TradingParams::Chromosome::generate
ret: x
flag: novis
@*/
/*@fn expanded:trading TradingParams::Chromosome::cross
flag: novis
@*/
/*@fn expanded:trading TradingParams::Chromosome::mutate
flag: novis
@*/
}
}
